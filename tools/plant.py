#!/usr/bin/env python3
"""plant.py SPEC.json : make and confirm a planted bug in a scratch copy.
SPEC: {id, property, needs, what_it_breaks, edits:[{file, old, new}], demo: <go source>, [pkgs]}
Writes /verif/seeded/<id>/ when it builds, passes the tests and its demo discriminates; then runs the check on it."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/main.go.txt" "$work/main.go"
cat > "$work/go.mod" <<EOF
module demo

go 1.24

require (
	github.com/tychoish/birch v0.3.1
	github.com/tychoish/birch/x/ftdc v0.0.0-00010101000000-000000000000
	github.com/tychoish/fun v0.14.7
)

replace github.com/tychoish/birch => $repo

replace github.com/tychoish/birch/x/ftdc => $repo/x/ftdc
EOF
cat "$repo/go.sum" "$repo/x/ftdc/go.sum" | sort -u > "$work/go.sum"
cd "$work" && export GOWORK=off GOFLAGS=-mod=mod
go build -o demo . || exit 3
timeout 120 ./demo "$repo"
'''
def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
def main(specfile, nocheck):
    s = json.load(open(specfile))
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/repo")
        R = w + "/repo"
        sh("git checkout -q -- . && git clean -fdq", R)
        for e in s["edits"]:
            p = os.path.join(R, e["file"])
            t = open(p).read()
            if t.count(e["old"]) != 1:
                print("edit matches", t.count(e["old"]), "times:", e["file"], e["old"][:80]); return 1
            open(p, "w").write(t.replace(e["old"], e["new"]))
        rc, diff = sh("git diff", R)
        env = f". /opt/vp/env.sh; export GOWORK={R}/go.work; "
        rc, out = sh(env + "go build $PKGS", R)
        if rc: print("BUILD FAILED\n", out); return 1
        dd = w + "/demo"; os.mkdir(dd)
        open(dd + "/demo.sh", "w").write(DEMO); os.chmod(dd + "/demo.sh", 0o755)
        open(dd + "/main.go.txt", "w").write(s["demo"])
        rc0, o0 = sh(f"bash {dd}/demo.sh", "/repo")
        rc1, o1 = sh(f"bash {dd}/demo.sh", R)
        print("demo unchanged:", rc0, o0[-500:]); print("demo patched:", rc1, o1[-500:])
        if rc0 != 0 or rc1 in (0, 3): print("DEMO DOES NOT DISCRIMINATE"); return 1
        rc, out = sh(env + "go test -json -vet=off -count=1 -p 1 $(go list -e $PKGS | grep -v x/ftdc/metrics$) > t.log; python3 /opt/vp/results.py o.json gojson:t.log; python3 - <<'X'\nimport json\nb=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('o.json'))\ndef names(x):\n  for k in ('stable','passed','passing','tests'):\n    if k in x: return set(x[k])\n  raise SystemExit(str(x.keys()))\nmissing=names(b)-names(o)\nprint('MISSING',len(missing),sorted(missing)[:10])\nX", R)
        print(out[-600:])
        if "MISSING 0" not in out: print("TESTS FAIL"); return 1
        d = f"{V}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.sh", d); shutil.copy(dd + "/main.go.txt", d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("PLANTED", s["id"])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    if not nocheck: return catch(s["id"])
    return 0
def catch(i):
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    if rc: print("APPLY FAILED", o); return 1
    try:
        rc, o = sh(f"cd {V} && ./check.sh {m['property']} quick", timeout=1000)
    finally:
        sh("git -C /repo checkout -- .")
    print("CAUGHT" if rc == 1 and "VIOLATION property=" + m["property"] in o else "MISSED", i, m["property"], "rc", rc)
    print("\n".join(o.splitlines()[:12])[:1200])
    return 0
if sys.argv[1] == "catch":
    for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): catch(i)
else:
    sys.exit(main(sys.argv[1], len(sys.argv) > 2))
