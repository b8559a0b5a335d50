#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving rewrites of the code, where they have to stay quiet.

  mkref.py -d dir name...               only write the rewritten copy
  mkref.py [-p C01,C02...] [name...]    apply each tools/refactors/<name>.go.txt to a scratch copy, build, test, run the checks

A refactoring file is a list of sections:
  // file: path          the functions (or declarations) below replace those of the same name in the file; new ones are appended
  // sub: old -> new     (on one line) a plain text substitution in the file
"""
import sys, re, os, json, subprocess, pathlib, shutil, tempfile, time
root = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")

def apply(name, d):
    file = None; text = {}
    for l in (root / "tools/refactors" / (name + ".go.txt")).read_text().split("\n"):
        if l.startswith("// file: "): file = l[9:].strip(); text.setdefault(file, []); continue
        if file: text[file].append(l)
    for file, lines in text.items():
        p = pathlib.Path(d) / file
        src = p.read_text()
        for l in [l for l in lines if l.startswith("// sub: ")]:
            a, b = l[8:].split(" -> ")
            if a not in src: return f"{file}: no {a!r}"
            src = src.replace(a, b)
        body = "\n".join(l for l in lines if not l.startswith("// sub: "))
        for fn in re.findall(r"^(?:func .*?\n}\n|func .*}\n|type .*?\n}\n|var .*\n)", body + "\n", re.S | re.M):
            head = re.match(r"(func (?:\([^)]*\) )?\w+|type \w+|var \w+)", fn).group(1)
            key = re.sub(r"\(\w+ ", "(", head)
            done = False
            for m in re.finditer(r"^(func (?:\([^)]*\) )?\w+|type \w+|var \w+)\b", src, re.M):
                if re.sub(r"\(\w+ ", "(", m.group(1)) == key:
                    e = src.index("\n}\n", m.start()) + 3
                    src = src[:m.start()] + fn + src[e:]
                    done = True
                    break
            if not done: src += "\n" + fn
        p.write_text(src)
    return None

def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr

def main():
    a = sys.argv[1:]; props = None
    if a and a[0] == "-p": props = a[1].split(","); a = a[2:]
    if a and a[0] == "-d":  # leave the rewritten copy in a directory
        subprocess.run(["cp", "-a", "/repo/.", a[1]], check=True)
        for n in a[2:]: print(n, apply(n, a[1]))
        print(sh("goimports -w $(git diff --name-only); go build ./...", a[1]))
        return
    names = a or sorted(p.name[:-7] for p in (root / "tools/refactors").glob("*.go.txt"))
    for n in names:
        d = tempfile.mkdtemp(prefix="ref.", dir="/tmp"); w = tempfile.mkdtemp(prefix="refv.", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            r = apply(n, d)
            if r: print(n, "BAD", r); continue
            rc, o = sh("goimports -w $(git diff --name-only); go build ./...", d)
            if rc: print(n, "does not build:", o); continue
            for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
                pkg, name = t.replace("github.com/lkmio/avformat/", "").split("/", 1)
                rc, o = sh(f"go test -vet=off -count=1 -run '{'/'.join('^'+x+'$' for x in name.split('/'))}' ./{pkg}", d)
                if rc: print(n, t, "fails:", o[-400:])
            subprocess.run(f"cp -a {root}/engine {root}/harness {root}/known_findings.txt {root}/check.sh {root}/tools {root}/properties.jsonl {w}/", shell=True, check=True)
            for p in props or [f"C{i:02}" for i in range(1, 33)]:
                t0 = time.time()
                try: rc, o = sh(f"bash check.sh {p} quick", w, 900, dict(ENV, VERIF_REPO=d))
                except subprocess.TimeoutExpired: rc, o = 99, "timeout"
                print(n, p, ("quiet" + (" REDUCED" if "REDUCED" in o else "") + (" FAILURE" if "engine failure" in o else "")) if rc == 0 else f"rc={rc} " + o[-1500:], f"{time.time()-t0:.0f}s", flush=True)
        finally:
            shutil.rmtree(d); shutil.rmtree(w)
main()
