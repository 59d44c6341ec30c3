#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a spec (dict S) after confirming it in a scratch copy of /repo:
applies, builds, passes the stable tests, demo passes without it and fails with it."""
import sys, os, subprocess, json, shutil, runpy, tempfile
S = runpy.run_path(sys.argv[1])["S"]
quick = "--notests" in sys.argv
out = f"/verif/seeded/{S['id']}"
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
tmp = tempfile.mkdtemp(prefix="seed")
w = tmp + "/repo"
def sh(c, cwd=w, timeout=400):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
try:
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in S["edits"]:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff")
    d = tmp + "/out"; os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": S["prop"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    pkg = S["pkg"]
    open(d + "/demo_test.go.txt", "w").write(S["demo"])
    run = S.get("run", "TestZZDemo")
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"; trap 'rm -r "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
dst="$(pwd)/{pkg}/zz_demo_test.go"
printf '{{"Replace":{{"%s":"%s"}}}}' "$dst" "$tmp/zz_demo_test.go" > "$tmp/ov.json"
go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 200s -run '^{run}$' ./{pkg}
""")
    os.chmod(d + "/demo.sh", 0o755)
    rc, o = sh("go build ./... && go vet ./" + pkg)
    assert rc == 0, o
    rc, o = sh(f"bash {d}/demo.sh", cwd="/repo")
    assert rc == 0, "demo fails on the unchanged tree:\n" + o
    bad = 0
    for k in range(3):
        rc, o = sh(f"bash {d}/demo.sh")
        bad += rc != 0
    print("demo fails", bad, "of 3 with the patch:", o[-300:])
    assert bad == 3 and "build failed" not in o, o
    if not quick:
        rc, o = sh("go test -vet=off -count=1 -p 1 -cpu 2 -tags=e2e -timeout 5m ./... 2>&1 | grep -v '^ok\\|no test files' | tail -30")
        print("tests:", o or "all ok")
        assert "FAIL" not in o
    if os.path.exists(out): shutil.rmtree(out)
    shutil.copytree(d, out)
    print("kept", out)
finally:
    shutil.rmtree(tmp)
