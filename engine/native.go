package main

// Native side: builds the same harnesses against the real code and replays
// recorded input vectors.

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type Native struct {
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

type natReq struct {
	H    string   `json:"h"`
	In   []uint64 `json:"in"`
	Deep bool     `json:"deep"`
	TO   int      `json:"to"`
}
type natRes struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []uint64 `json:"obs"`
}

func goEnv() []string {
	env := append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if modfile != "" {
		env = append(env, "GOFLAGS=-mod=mod -modfile="+modfile)
	} else {
		env = append(env, "GOFLAGS=-mod=mod")
	}
	return env
}

func buildNative(dir string) (*Native, error) {
	bin := filepath.Join(tmpDir, "replay")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/replay")
	cmd.Dir = dir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, errorf("native build: %v\n%s", err, b)
	}
	return &Native{bin: bin}, nil
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Dir = tmpDir // what the code writes stays here
	n.cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "TMPDIR="+tmpDir)
	// a separate process group, so that it can always be ended
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.in, n.out, n.n = in, bufio.NewReaderSize(out, 1<<20), 0
	return nil
}

func (n *Native) Close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// Run replays one vector; crashes and hangs end the process and are reported.
func (n *Native) Run(r natReq, fresh bool) natRes {
	if fresh {
		n.Close()
	}
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return natRes{Outcome: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	if _, err := n.in.Write(b); err != nil {
		n.Close()
		return natRes{Outcome: "crash", Msg: err.Error()}
	}
	to := r.TO
	if to == 0 {
		to = 10000
	}
	t := time.AfterFunc(time.Duration(to+5000)*time.Millisecond, func() { n.cmd.Process.Kill() })
	line, err := n.out.ReadString('\n')
	t.Stop()
	if err != nil {
		n.Close()
		return natRes{Outcome: "crash", Msg: "the process died"}
	}
	var o natRes
	if json.Unmarshal([]byte(line), &o) != nil {
		n.Close()
		return natRes{Outcome: "error", Msg: strings.TrimSpace(line)}
	}
	if o.Outcome == "timeout" || o.Outcome == "memory" {
		n.Close()
	}
	return o
}
