#!/usr/bin/env python3
"""Runs the checks on small mechanical changes of the code (tools/mutate) to find behaviour no check looks at.

  mutants.py N SEED [file-substring] [-j jobs]    N random changes; survivors are printed

A change is tried when it builds and the stable tests pass; the checks run are those whose last evidence lists the
changed function, cheapest first, until one reports a violation.
"""
import sys, os, json, random, subprocess, pathlib, shutil, tempfile, time, threading
root = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
COST = {}

def evid():
    f = {}
    for i in range(1, 33):
        p = f"C{i:02}"
        d = json.load(open(root / "evidence" / (p + ".json")))
        COST[p] = sum(h.get("wall_s", 0) for h in d["coverage"]["harnesses"])
        for x in d["coverage"]["functions_encoded"]:
            name = x.split(" (")[0]
            file = x.split(" (")[1].split(":")[0]
            short = name.split("avformat")[-1].split(".", 1)[1] if "avformat" in name else name
            short = name.replace("(*", "").replace(")", "")
            parts = short.split("/")[-1].split(".")
            fn = ".".join(parts[1:]).split("$")[0]
            f.setdefault((file, fn), set()).add(p)
    return f

def sh(cmd, cwd, timeout=600, env=ENV):
    try: p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 99, "timeout"
    return p.returncode, p.stdout + p.stderr

def main():
    a = sys.argv[1:]; jobs = 2
    if "-j" in a: k = a.index("-j"); jobs = int(a[k+1]); del a[k:k+2]
    n, seed = int(a[0]), int(a[1]); sub = a[2] if len(a) > 2 else ""
    F = evid()
    b = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    assert sh(f"go build -o {b}/mutate .", root / "tools/mutate")[0] == 0
    assert sh(f"go build -o {b}/engine .", root / "engine")[0] == 0
    muts = [m for m in json.loads(sh(f"{b}/mutate /repo", b)[1]) if sub in m["File"] + ":" + m["Func"]]
    random.Random(seed).shuffle(muts)
    muts = muts[:n]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    lock = threading.Lock(); stat = {}
    def work():
        d = tempfile.mkdtemp(prefix="r.", dir=b); w = tempfile.mkdtemp(prefix="v.", dir=b)
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(f"cp -a {root}/harness {root}/known_findings.txt {root}/properties.jsonl {w}/; mkdir {w}/evidence", shell=True, check=True)
        while True:
            with lock:
                if not muts: return
                m = muts.pop()
            p = pathlib.Path(d) / m["File"]; src = p.read_bytes()
            t0 = time.time(); res = None
            try:
                p.write_bytes(src[:m["Off"]] + m["Repl"].encode() + src[m["End"]:])
                if sh("go build ./... && go vet -tests=false . >/dev/null 2>&1; go build ./...", d)[0]: res = "nobuild"
                else:
                    for t in stable:
                        pkg, name = t.replace("github.com/lkmio/avformat/", "").split("/", 1)
                        if sh(f"go test -vet=off -count=1 -timeout 60s -run '{'/'.join('^'+x+'$' for x in name.split('/'))}' ./{pkg}", d)[0]: res = "tests"; break
                if not res:
                    ps = sorted(F.get((m["File"], m["Func"]), []), key=lambda x: COST[x])
                    notes = []
                    for c in ps:
                        rc, o = sh(f"{b}/engine -prop {c} -root {w} -first -norecheck -workers {8//jobs} -budget 300", w, 600, dict(ENV, VERIF_REPO=d))
                        if rc == 1: res = "caught " + c; break
                        if rc: notes.append(f"{c} rc={rc} {o[-300:]}")
                        elif "REDUCED" in o: notes.append(c + " reduced")
                    if not res: res = "SURVIVED " + ",".join(ps) + " " + "; ".join(notes)
            finally: p.write_bytes(src)
            with lock:
                k = res.split()[0]; stat[k] = stat.get(k, 0) + 1
                print(f"{res} | {m['File']}:{m['Line']} {m['Func']}: {m['Desc']!r} {time.time()-t0:.0f}s", flush=True)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(stat); shutil.rmtree(b)
main()
