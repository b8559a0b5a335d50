// replay runs harnesses natively on recorded input vectors: one JSON request
// per line on stdin, one JSON result per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif/harness/props"
	"verif/harness/v"
)

type req struct {
	H    string   `json:"h"`
	In   []uint64 `json:"in"`
	Deep bool     `json:"deep"`
	TO   int      `json:"to"`
}

type res struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []uint64 `json:"obs"`
}

func run(r req) (out res) {
	f := props.Registry[r.H]
	if f == nil {
		return res{Outcome: "nosuch"}
	}
	v.Reset(r.In, r.Deep)
	defer v.Cleanup()
	defer func() {
		if x := recover(); x != nil {
			out.Obs = v.Obs
			switch x := x.(type) {
			case v.AssertFail:
				out.Outcome, out.Msg = "assert", x.Msg
			case v.AssumeFail:
				out.Outcome = "infeasible"
			case v.InputEnd:
				out.Outcome = "inputend"
			default:
				out.Outcome = "panic"
				st := strings.Split(string(debug.Stack()), "\n")
				where := ""
				for _, l := range st {
					if strings.Contains(l, ".go:") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "cmd/replay/") && !strings.Contains(l, "runtime/debug") {
						where = strings.TrimSpace(l)
						break
					}
				}
				out.Msg = fmt.Sprintf("%v at %s", x, where)
			}
		}
	}()
	f()
	return res{Outcome: "ok", Obs: v.Obs}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	real := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the code under test prints
	}
	out := bufio.NewWriter(real)
	runtime.GOMAXPROCS(4)
	debug.SetGCPercent(400)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintln(real, `{"outcome":"memory","msg":"more than 3 GiB in use"}`)
				os.Exit(3)
			}
		}
	}()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var r req
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(2)
			}
			to := r.TO
			if to == 0 {
				to = 10000
			}
			t := time.AfterFunc(time.Duration(to)*time.Millisecond, func() {
				fmt.Fprintln(real, `{"outcome":"timeout","msg":"still running"}`)
				os.Exit(3)
			})
			o := run(r)
			t.Stop()
			b, _ := json.Marshal(o)
			out.Write(b)
			out.WriteByte('\n')
			if in.Buffered() == 0 {
				out.Flush()
			}
		}
		if err != nil {
			out.Flush()
			return
		}
	}
}
