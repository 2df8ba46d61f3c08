#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py [--prop ...] builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.
A spec is a python file with: id, prop, pkg (package of the demonstration), needs, breaks, edits=[(file, old, new)],
demo (Go test source; its test is TestSeedDemo). Keeps the bug only when it builds, passes the stable tests, and the
demonstration passes without and fails with it. Then runs the property's check against the changed copy."""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# shows the planted bug: run in the repository; exit 0 when it behaves
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
echo "{\\"Replace\\": {\\"$repo/PKG/seed_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
export GODEBUG=randautoseed=0
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' ./PKG
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    sid = spec["id"]
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        wt = os.path.join(tmp, "repo")
        assert sh(f"cp -a /repo {wt}").returncode == 0
        sh(f"git -C {wt} checkout -q -- . ; git -C {wt} clean -fdq")
        out = os.path.join(tmp, sid)
        os.makedirs(out)
        open(out + "/demo_test.go", "w").write(spec["demo"].lstrip())
        open(out + "/demo.sh", "w").write(spec.get("demo_sh", DEMO).replace("PKG", spec["pkg"]))
        os.chmod(out + "/demo.sh", 0o755)
        r = sh(f"bash {out}/demo.sh", cwd=wt)
        if r.returncode != 0:
            print("demo fails on the unchanged tree:\n" + r.stdout[-3000:]); return 1
        for f, old, new in spec["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{f}: {s.count(old)} times: {old!r}"); return 1
            open(p, "w").write(s.replace(old, new))
        r = sh("gofmt -l dsp cw rx kiwi tci telnet scope cmd cli", cwd=wt)
        if r.stdout.strip(): print("gofmt:", r.stdout)
        diff = sh("git diff", cwd=wt).stdout
        open(out + "/patch.diff", "w").write(diff)
        env = ". /opt/vp/env.sh; export GODEBUG=randautoseed=0; "
        r = sh(env + "go build ./... && go vet ./... 2>/dev/null; go build ./...", cwd=wt)
        if r.returncode != 0:
            print("does not build:\n" + r.stdout[-2000:]); return 1
        # the stable tests
        sed = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {wt}")
        open(tmp + "/test.sh", "w").write(sed)
        for i in range(2):
            sh(f"bash {tmp}/test.sh {tmp}/o.json")
            base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(tmp + "/o.json"))
            miss = names(base) - names(o)
            if miss: print("fails stable tests:", miss); return 1
        r = sh(f"bash {out}/demo.sh", cwd=wt)
        if r.returncode == 0:
            print("demo passes with the bug"); return 1
        last = [l for l in r.stdout.splitlines() if "seed_demo" in l or "panic" in l or "race" in l.lower()][:3]
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = "/verif/seeded/" + sid
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        print(sid, "kept;", last)
        if "--nocheck" in sys.argv: return 0
        props = [a[7:] for a in sys.argv if a.startswith("--prop=")] or [spec["prop"]]
        for p in props:
            r = sh(f"VERIF_REPO={wt} python3 /verif/run.py --prop {p}", cwd="/verif")
            lines = [l[:300] for l in r.stdout.splitlines() if not l.startswith("case")]
            print(sid, p, "CAUGHT" if r.returncode == 1 else f"MISSED (exit {r.returncode})", *lines[-4:], sep="\n  ")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def names(d):
    for k in ("passed", "pass", "stable", "tests"):
        if k in d:
            return set(d[k] if not isinstance(d[k], dict) else [n for n, s in d[k].items() if s in ("pass", "passed", True)])

sys.exit(main())
