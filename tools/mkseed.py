#!/usr/bin/env python3
"""Generates and verifies planted bugs.

  mkseed.py make [id...]    write seeded/<id>/ from tools/seeds/*.seed and confirm each one in a scratch copy:
                            touches only original lines, builds, stable tests pass, demo 0 clean / nonzero patched
  mkseed.py check [id...]   run the property's check against each change in a scratch copy

A .seed file holds several seeds:
  === id property pkg
  needs: ...
  breaks: ...
  file: path
  <<<<
  old text
  ====
  new text
  >>>>
  imports: "a" "b"
  demo:
  go statements of TestSeedDemo(t *testing.T)
"""
import sys, re, os, json, subprocess, pathlib, shutil, tempfile, concurrent.futures, time
root = pathlib.Path(__file__).resolve().parent.parent
BASE = "f942a20"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
overlay="$(mktemp)"
printf '{"Replace": {"%%s/%s/seed_demo_test.go": "%%s/seed_demo_test.go"}}' "$PWD" "$here" > "$overlay"
go test -overlay "$overlay" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./%s
rc=$?
rm -f "$overlay"
exit $rc
'''

def parse():
    seeds = {}
    for f in sorted((root / "tools/seeds").glob("*.seed")):
        cur = None; lines = f.read_text().split("\n"); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("=== "):
                _, id, prop, pkg = l.split()
                cur = seeds[id] = dict(id=id, prop=prop, pkg=pkg, edits=[], imports=[], demo=[], decls=[], needs="", breaks="")
            elif l.startswith("needs: "): cur["needs"] = l[7:]
            elif l.startswith("breaks: "): cur["breaks"] = l[8:]
            elif l.startswith("file: "): file = l[6:].strip()
            elif l == "<<<<":
                old, new = [], []; i += 1
                while lines[i] != "====": old.append(lines[i]); i += 1
                i += 1
                while lines[i] != ">>>>": new.append(lines[i]); i += 1
                cur["edits"].append((file, "\n".join(old), "\n".join(new)))
            elif l.startswith("imports:"): cur["imports"] = re.findall(r'"[^"]+"', l)
            elif l in ("demo:", "decls:"):
                key = l[:-1]
                i += 1
                while i < len(lines) and not lines[i].startswith("=== ") and lines[i] not in ("demo:", "decls:"):
                    cur[key].append(lines[i]); i += 1
                continue
            i += 1
    return seeds

def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr

def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d

def write(s):
    out = root / "seeded" / s["id"]
    out.mkdir(parents=True, exist_ok=True)
    d = scratch()
    try:
        for file, old, new in s["edits"]:
            p = pathlib.Path(d) / file
            t = p.read_text()
            if t.count(old) != 1: return f"old text occurs {t.count(old)} times in {file}: {old[:60]!r}"
            p.write_text(t.replace(old, new))
        rc, o = sh("gofmt -l . ", d)
        rc, diff = sh("git diff", d)
        (out / "patch.diff").write_text(diff)
        # only original lines are changed
        f = None; ln = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if f and l.startswith("-") and not l.startswith("---"):
                rc, b = sh(f"git blame -s -L{ln},{ln} HEAD -- {f}", d)
                if not BASE.startswith(b.lstrip("^")[:7]) and sh(f"git merge-base --is-ancestor {b.split()[0].lstrip('^')} {BASE}", d)[0] != 0:
                    return f"changes a line of a fix: {f}:{ln} {l}"
                ln += 1
            elif f and l.startswith(" "): ln += 1
        pkgname = {".": "avformat"}.get(s["pkg"], s["pkg"])
        imps = "".join(f"\t{i}\n" for i in ['"testing"'] + s["imports"])
        go = f"package {pkgname}\n\nimport (\n{imps})\n\n" + "\n".join(s["decls"]) + "\nfunc TestSeedDemo(t *testing.T) {\n" + "\n".join(s["demo"]) + "\n}\n"
        (out / "seed_demo_test.go").write_text(go)
        sh(f"gofmt -w {out}/seed_demo_test.go", d)
        sub = "" if s["pkg"] == "." else s["pkg"]
        demo = DEMO % (sub if sub else ".", s["pkg"] if sub else "")
        (out / "demo.sh").write_text(demo.replace("/./seed_demo", "/seed_demo"))
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1, ensure_ascii=False) + "\n")
        # patched
        rc, o = sh("go build ./... && go vet ./... 2>/dev/null; go build ./...", d)
        if rc: return "does not build: " + o
        rc, o = sh(f"bash {out}/demo.sh", d, 300)
        if rc == 0: return "demo passes with the patch"
        if "FAIL" not in o or "build failed" in o or "setup failed" in o: return "demo fails for another reason: " + o[-800:]
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        for t in stable:
            pkg, name = t.replace("github.com/lkmio/avformat/", "").split("/", 1)
            pat = "/".join(f"^{x}$" for x in name.split("/"))
            rc, o = sh(f"go test -vet=off -count=1 -timeout 60s -run '{pat}' ./{pkg}", d)
            if rc: return f"stable test {t} fails: {o[-300:]}"
        sh("git checkout -- .", d)
        rc, o = sh(f"bash {out}/demo.sh", d, 300)
        if rc: return "demo fails on the unchanged tree: " + o[-800:]
        return None
    finally:
        shutil.rmtree(d)

def check(s, tier="quick"):
    d = scratch()
    try:
        rc, o = sh(f"git apply {root}/seeded/{s['id']}/patch.diff", d)
        if rc: return "patch does not apply"
        t0 = time.time()
        w = tempfile.mkdtemp(prefix="seedv.", dir="/tmp")
        try:
            subprocess.run(f"cp -a {root}/engine {root}/harness {root}/known_findings.txt {root}/check.sh {root}/tools {root}/properties.jsonl {w}/", shell=True, check=True)
            rc, o = sh(f"bash check.sh {s['prop']} {tier}", w, 1200, dict(ENV, VERIF_REPO=d))
        finally:
            shutil.rmtree(w)
        v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        ok = rc == 1 and any(f"property={s['prop']} " in l for l in v)
        return ("CAUGHT" if ok else f"MISSED rc={rc}") + f" {time.time()-t0:.0f}s" + ("" if ok else " " + o[-300:])
    finally:
        shutil.rmtree(d)

def main():
    seeds = parse()
    ids = sys.argv[2:] or list(seeds)
    ids = [i for i in seeds if any(i == x or i.startswith(x + "_") or (x.endswith("*") and i.startswith(x[:-1])) for x in ids)]
    if sys.argv[1] == "make":
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(lambda i: write(seeds[i]), ids)):
                print(i, "ok" if r is None else "BAD " + r, flush=True)
    else:
        rf = root / "tools/seeds/results.json"
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for i, r in zip(ids, ex.map(lambda i: check(seeds[i]), ids)):
                print(i, seeds[i]["prop"], r, flush=True)
                res = json.load(open(rf)) if rf.exists() else {}
                res[i] = seeds[i]["prop"] + " quick" if r.startswith("CAUGHT") else "missed"
                rf.write_text(json.dumps(res, indent=0, sort_keys=True) + "\n")
main()
