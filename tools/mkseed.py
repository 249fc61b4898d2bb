#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/seeds.py, after confirming in a scratch copy of /repo that the change builds,
passes the stable tests and that the demonstration tells the two trees apart.
usage: mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
ENV = dict(os.environ, PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin", HOME="/root", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the property's behaviour is there.
D=$(cd "$(dirname "$0")" && pwd)
export PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin"
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s/%(dir)szz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s %(flags)s -run '^TestZZDemo$' ./%(dir)s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def passing(cwd):
    pk = [p for p in run(["go", "list", "-e", "./..."], cwd).stdout.split() if not p.startswith(("github.com/gocraft/health/healthd", "github.com/gocraft/health/cmd"))]
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "-p", "1", "-cpu", "1", "-timeout", "60s", "-gcflags=github.com/gocraft/health/...=-l"] + pk, cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add((d["Package"], d["Test"]))
    return ok
want = sys.argv[1:]
ref = None
for s in SEEDS:
    if want and s["id"] not in want: continue
    out = "%s/seeded/%s" % (V, s["id"])
    T = tempfile.mkdtemp(prefix="seed.")
    try:
        R = T + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", R])
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        os.makedirs(T + "/d")
        dirp = s.get("dir", "")
        open(T + "/d/demo.sh", "w").write(DEMO % dict(dir=dirp, flags=s.get("flags", "")))
        open(T + "/d/demo_test.go", "w").write(s["demo"])
        if ref is None: ref = passing(R)
        r0 = run(["bash", T + "/d/demo.sh"], R)
        for f, a, b in s["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(a) == 1, (s["id"], f, a, t.count(a))
            open(R + "/" + f, "w").write(t.replace(a, b))
        r1 = run(["bash", T + "/d/demo.sh"], R)
        p = passing(R)
        miss = ref - p
        for _ in range(2):
            if miss: miss -= passing(R)
        good = r0.returncode == 0 and r1.returncode != 0 and not miss and "build failed" not in r1.stdout
        print(s["id"], "ok" if good else "BAD", "demo %d/%d" % (r0.returncode, r1.returncode), "missing", sorted(miss))
        if not good:
            print(r0.stdout[-1500:]); print("----"); print(r1.stdout[-1500:])
            continue
        d = subprocess.check_output(["git", "-C", R, "diff"], text=True)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        for f in ("demo.sh", "demo_test.go"): shutil.copy(T + "/d/" + f, out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(T)
