#!/usr/bin/env python3
"""Runs one property check: builds the harness of the property against /repo's working tree (overlay, nothing
is written to /repo), runs its generated-input tests in several shards, and reports.

  run.py --prop C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
anything else: no answer (build failure, time, memory).
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks.registry import CHECKS  # noqa: E402

GO123 = "/opt/veriftools/go1.23.12"
GO125 = "/opt/veriftools/go1.25.14"


def go_env(goroot, tmp):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(
        HOME="/root", GOROOT=goroot, GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), GOPROXY="off", GOFLAGS="-mod=mod",
        GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GOTMPDIR=tmp, PATH=goroot + "/bin:" + os.environ.get("PATH", ""))
    return env


def overlay(tmp):
    """Maps every file of checks/<dir> into the repository: verifkit and the external packages below
    /repo/internal, the in-package files next to the package they look into."""
    repl = {}
    base = os.path.join(VERIF, "checks")
    for root, _, files in os.walk(base):
        rel = os.path.relpath(root, base)
        for f in files:
            if not f.endswith(".go"):
                continue
            if rel == "verifkit" or rel.startswith("verifkit/"):
                dst = os.path.join(REPO, "internal", rel, f)
            elif rel.startswith("inpkg/"):
                dst = os.path.join(REPO, rel[len("inpkg/"):], f)
            else:
                dst = os.path.join(REPO, "internal", "verifchk", rel, f)
            repl[dst] = os.path.join(root, f)
    path = os.path.join(tmp, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": repl}, fh)
    return path


def modfile(tmp):
    text = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(r"^go (\d+)\.(\d+)(\.\d+)?\s*$", text, re.M)
    if m and (int(m.group(1)), int(m.group(2))) < (1, 23):
        text = text[:m.start()] + "go 1.23\n" + text[m.end():]
    text = re.sub(r"^toolchain .*$", "", text, flags=re.M)
    text += "\nrequire pgregory.net/rapid v1.3.0\n"
    path = os.path.join(tmp, "go.mod")
    open(path, "w").write(text)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    return path


def build(check, tmp):
    goroot = GO125 if check.get("go") == "1.25" else GO123
    env = go_env(goroot, tmp)
    if check.get("cgo0") or check.get("go") == "1.25":
        env["CGO_ENABLED"] = "0"
    out = os.path.join(tmp, "check.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay(tmp), "-modfile", modfile(tmp), "-o", out]
    if check.get("race"):
        cmd.append("-race")
    cmd.append(check["pkg"])
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD FAILED\n" + p.stdout)
        sys.exit(3)
    return out


def test_env(prop, tier, out, check, budget, scale, replay=None):
    env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy") and not k.startswith("GO")}
    home = os.path.join(out, "home")
    os.makedirs(home, exist_ok=True)
    env.update(
        VERIF_OUT=out, VERIF_PROPERTY=prop, VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_SCALE=str(scale),
        HTTP_PROXY="http://127.0.0.1:9", HTTPS_PROXY="http://127.0.0.1:9", NO_PROXY="localhost,127.0.0.1,::1", HOME=home, USER="verif",
        GODEBUG=check.get("godebug", "randautoseed=0"), GOMEMLIMIT="2500MiB", VERIF_DATA=os.path.join(VERIF, "checks", "data"))
    if check.get("gomaxprocs"):
        env["GOMAXPROCS"] = str(check["gomaxprocs"])
    if replay:
        env["VERIF_REPLAY"] = replay
    return env


def run_shard(args, found=None):
    prop, check, binary, tier, seed, out, budget, scale, limit, replay = args
    os.makedirs(out, exist_ok=True)
    cmd = [binary, "-test.run", "^(" + check["run"] + ")$", "-test.timeout", "0", "-test.v"]
    if not replay:
        cmd += ["-rapid.seed", str(seed), "-rapid.shrinktime", "%ss" % os.environ.get("VERIF_SHRINK", "25" if tier == "quick" else "60")]
    preexec = None
    env = test_env(prop, tier, out, check, budget, scale, replay)
    if check.get("uid"):
        uid = check["uid"]
        os.chmod(out, 0o777)
        os.chown(out, uid, uid)
        if os.path.isdir(os.path.join(out, "home")):
            os.chown(os.path.join(out, "home"), uid, uid)

        def preexec():
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
    logfile = os.path.join(out, "log.txt")
    with open(logfile, "w") as fh:
        p = subprocess.Popen(cmd, cwd=out, env=env, stdout=fh, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=preexec)
        t0 = time.time()
        while True:
            try:
                rc = p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                over = time.time() - t0 > limit
                if over or (found is not None and found.is_set()):
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = "timeout" if over else "stopped"
                    break
    if found is not None and rc not in (0, "timeout", "stopped"):
        if any(f.startswith("fail-") for f in os.listdir(out)) or crashed_in_repo(open(logfile, errors="replace").read()):
            found.set()  # one failure, shrunk to the end, is enough: the other shards stop
    return rc, out


FRAME = re.compile(r"^\s+(/\S+\.go):\d+", re.M)


def crashed_in_repo(log):
    """A panic (or runtime fatal error) of the process counts only when the crashing goroutine runs code of the repository."""
    m = re.search(r"^VERIF-BLOCKED: .*?VERIF-BLOCKED-END", log, re.M | re.S)
    if m:
        return m.group(0)[:6000]
    m = re.search(r"^(panic: .*|fatal error: (?:all goroutines are asleep|concurrent map|sync: ).*)$", log, re.M)
    if not m:
        return None
    rest = log[m.start():]
    parts = rest.split("\n\n")
    head = "\n\n".join(parts[:3])
    files = [f for f in FRAME.findall(head)]
    own = [f for f in files if f.startswith(REPO + "/") and "/internal/verif" not in f and "_verif_test.go" not in f]
    if own:
        return head[:6000]
    return None


def race_in_repo(log):
    m = re.search(r"WARNING: DATA RACE(.*?)==================", log, re.S)
    if not m:
        return None
    return m.group(0)[:6000]


def shrink_crash(prop, check, binary, tier, case, tmp, limit_s=40):
    """Simplifies a case on which the process crashed by deleting list elements, re-running the binary each time."""
    data = json.load(open(case))
    t0 = time.time()
    n = [0]

    def crashes(c):
        n[0] += 1
        d = os.path.join(tmp, "crash%d" % n[0])
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "case.json")
        json.dump(dict(data, case=c), open(f, "w"))
        os.chmod(f, 0o644)
        rc, _ = run_shard((prop, check, binary, tier, 1, d, 60, 1, 60, f))
        log = open(os.path.join(d, "log.txt"), errors="replace").read()
        bad = rc not in (0, "timeout") and crashed_in_repo(log) is not None
        shutil.rmtree(d, ignore_errors=True)
        return bad

    if not crashes(data["case"]):
        return data, False

    def lists(c, path=()):
        if isinstance(c, dict):
            for k, v in c.items():
                yield from lists(v, path + (k,))
        elif isinstance(c, list):
            yield path
            for i, v in enumerate(c):
                yield from lists(v, path + (i,))

    def get(c, path):
        for p in path:
            c = c[p]
        return c

    progress = True
    while progress and time.time() - t0 < limit_s:
        progress = False
        for path in list(lists(data["case"])):
            try:
                size = len(get(data["case"], path))
            except (KeyError, IndexError, TypeError):
                continue
            step = max(1, size // 2)
            while step >= 1 and time.time() - t0 < limit_s:
                i = 0
                while i < len(get(data["case"], path)) and time.time() - t0 < limit_s:
                    c = json.loads(json.dumps(data["case"]))
                    del get(c, path)[i:i + step]
                    if crashes(c):
                        data["case"] = c
                        progress = True
                    else:
                        i += step
                if step == 1:
                    break
                step //= 2
    return data, True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--scale", type=float)
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            a.seed = 1
    tier = "thorough" if a.tier == "thorough" else "quick"
    check = CHECKS[a.prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    os.chmod(tmp, 0o755)
    try:
        rc = run(a, tier, check, tmp, t0)
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, tier, check, tmp, t0):
    prop = a.prop
    binary = build(check, tmp)
    build_s = time.time() - t0
    if a.replay:
        out = os.path.join(tmp, "replay")
        os.makedirs(out)
        rep = os.path.join(out, "case.json")
        shutil.copy(a.replay, rep)
        os.chmod(rep, 0o644)
        rc, _ = run_shard((prop, check, binary, tier, 1, out, 600, 1, 600, rep))
        log = open(os.path.join(out, "log.txt"), errors="replace").read()
        print(log[-8000:])
        if "VERIF-FAIL:" in log or crashed_in_repo(log) or race_in_repo(log):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0 if rc == 0 else 4

    shards = check.get("shards", 8)
    # thorough runs more and differently seeded cases: 'rounds' consecutive rounds of all shards
    if tier == "thorough":
        scale = a.scale or check.get("thorough_scale", 20)
        budget = a.budget or check.get("thorough_budget", 600)
        limit = budget * check.get("tests", 1) * 1.5 + 300
    else:
        scale = a.scale or 1
        budget = a.budget or check.get("budget", 60)
        limit = check.get("limit", 600)
    jobs = []
    for i in range(shards):
        # rapid treats seed 0 as "random": map every (seed, shard) to a fixed non-zero number
        s = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (a.seed, prop, tier, i)).encode()).digest()[:7], "big") or 1
        jobs.append((prop, check, binary, tier, s, os.path.join(tmp, "s%d" % i), budget, scale, limit, None))
    with ThreadPoolExecutor(max_workers=check.get("parallel", 8)) as ex:
        found = threading.Event()
        results = list(ex.map(lambda j: (("stopped", j[5]) if found.is_set() else run_shard(j, found)), jobs))

    tests, violations, errors, known = {}, [], [], {}
    hashes = {}
    for rc, out in results:
        if not os.path.exists(os.path.join(out, "log.txt")):
            continue
        log = open(os.path.join(out, "log.txt"), errors="replace").read()
        for f in sorted(os.listdir(out)):
            if f.startswith("stats-"):
                s = json.load(open(os.path.join(out, f)))
                t = tests.setdefault(s["test"], dict(evaluations=0, planned=0, skipped_by_time_budget=0, rule=s["rule"], labels={}, samples=[], wall_s=0))
                t["evaluations"] += s["evaluations"]
                t["planned"] += s["planned"]
                t["skipped_by_time_budget"] += s["skipped_by_time_budget"]
                t["wall_s"] = round(max(t["wall_s"], s["wall_s"]), 2)
                for k, v in s["labels"].items():
                    t["labels"][k] = t["labels"].get(k, 0) + v
                if len(t["samples"]) < 3 and s["samples"]:
                    t["samples"] += s["samples"][:1]
                hashes.setdefault(s["test"], set()).update(s["hashes"] or [])
                for k, v in s["known"].items():
                    known[k] = known.get(k, 0) + v
        if rc in (0, "stopped"):
            continue
        fails = [f for f in sorted(os.listdir(out)) if f.startswith("fail-")]
        curs = [f for f in sorted(os.listdir(out)) if f.startswith("cur-")]
        crash, race = crashed_in_repo(log), race_in_repo(log)
        if fails:
            violations.append((os.path.join(out, fails[0]), None, None))
        elif crash and curs:
            violations.append((os.path.join(out, curs[0]), "crash", crash))
        elif race:
            src = os.path.join(out, curs[0]) if curs else None
            violations.append((src, "race", race))
        else:
            errors.append((rc, log[-3000:]))

    rc = 0
    viol_path = None
    if violations:
        src, kind, text = violations[0]
        data = json.load(open(src)) if src else dict(property=prop, test="", case=None)
        if kind == "crash":
            data, again = shrink_crash(prop, check, binary, tier, src, tmp)
            data["error"] = text
            data["reproduced_alone"] = again
        elif kind == "race":
            data["error"] = text
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        body = json.dumps(data, indent=1)
        viol_path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:10]))
        open(viol_path, "w").write(body)
        print("test %s: %s" % (data.get("test"), data.get("error", "")[:3000]))
        print("case: %s" % json.dumps(data.get("case"))[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, viol_path))
        rc = 1
    elif errors:
        print("NO ANSWER: a shard ended with %s\n%s" % errors[0])
        rc = 4

    for k, v in tests.items():
        v["distinct_nontrivial"] = len(hashes.get(k, ()))
    ev = sum(t["evaluations"] for t in tests.values())
    nt = sum(t["distinct_nontrivial"] for t in tests.values())
    if rc == 0 and (ev == 0 or nt == 0):
        print("NO ANSWER: nothing was evaluated (%d evaluations, %d non-trivial)" % (ev, nt))
        rc = 5
    missing = [t for t in check.get("expect_tests", []) if t not in tests]
    if rc == 0 and missing:
        print("NO ANSWER: tests without statistics: %s" % missing)
        rc = 5
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    evidence = dict(
        property=prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt,
            rule=" | ".join("%s: %s" % (k, v["rule"]) for k, v in sorted(tests.items())),
            samples=[dict(test=k, case=s) for k, v in sorted(tests.items()) for s in v["samples"]],
            tests=tests, shards=shards, known_findings_seen=known),
        assumptions=check.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs, exit %d" % (prop, tier, a.seed, ev, nt, build_s, time.time() - t0, rc))
    if os.environ.get("VERIF_SHOW"):
        for k, v in tests.items():
            print(k, json.dumps({x: y for x, y in v.items() if x not in ("samples", "rule")}))
    return rc


if __name__ == "__main__":
    main()
