#!/usr/bin/env python3
"""Plant bugs: python3 tools/mkbug.py SPECS.py [ID...] [--nocheck] [-j N]

SPECS.py defines BUGS, a list of dicts
  id, property, needs, what_it_breaks,
  edits: [(file, old, new), ...]  (old must occur once in the file)
  go: (package dir, test source)  or  py: source  or  files+sh
For each bug, in a scratch copy of /repo: the demo passes, the edits build and pass the
stable tests, the demo fails; then the folder /verif/seeded/<id> is written, and the
property's quick check is run against the copy.  The copy is removed afterwards.
"""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "46bd415"
SIM = "SmartCache/sim"

HEAD = """#!/bin/bash
# exit 0: the property holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
export PYTHONDONTWRITEBYTECODE=1
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
"""
GOSH = """printf '{"Replace":{"%%s":"%%s"}}' "$repo/SmartCache/sim/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$d/overlay.json"
cd "$repo/SmartCache/sim" || exit 2
"$GO" test -vet=off -count=1 -timeout 120s -overlay "$d/overlay.json" -run '^TestDemo$' ./%(pkg)s
"""
PROTOSH = """mkdir -p "$d/src" && cp -r "$repo/qLearning_smartCache" "$d/src/q" && cp "$here/demo_test.go" "$d/src/q/%(pkg)s/zz_demo_test.go" || exit 2
cd "$d/src/q/%(pkg)s" || exit 2
GO111MODULE=off GOFLAGS= "$GO" test -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
"""
PYSH = """PYTHON=python3
cd "$d" && REPO="$repo" "$PYTHON" "$here/demo.py"
"""
PRELUDE = {
    SIM + "/cache": '''
func mk(kind string, size float64, set func(*InitParameters)) Cache {
	c := Create(kind, size, "M", "", WeightFunctionParameters{})
	p := InitParameters{MaxNumDayDiff: 6, DeltaDaysStep: 7, HighWatermark: 95, LowWatermark: 75, RandSeed: 7}
	if set != nil {
		set(&p)
	}
	InitInstance(kind, c, p)
	SetBandwidth(c, 10)
	return c
}

func get(c Cache, name int64, size float64, day int64) (bool, bool) {
	return GetFile(c, name, size, int64(1), 50., day, int64(0), int64(0), int64(0))
}
''',
}


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable(copy):
    for name in ("env.sh", "build.sh", "test.sh", "pytests.py", "results.py"):
        src = f"/opt/vp/{name}"
        if os.path.exists(src):
            text = open(src).read().replace("/repo", copy).replace("/opt/vp/pytests.py", copy + ".vp/pytests.py")
            os.makedirs(copy + ".vp", exist_ok=True)
            open(f"{copy}.vp/{name}", "w").write(text)
    rc, out = sh(["bash", copy + ".vp/build.sh"])
    if rc:
        return "build failed:\n" + out[-1500:]
    rc, out = sh(["bash", copy + ".vp/test.sh", copy + ".vp/out.json"])
    res = json.load(open(copy + ".vp/out.json"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    missing = [w for w in want if w not in passed]
    return "stable tests fail: %s" % missing if missing else ""


def one(bug, check=True):
    bid = bug["id"]
    copy = f"/tmp/mkbug/{bid}"
    out = f"/verif/seeded/{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/mkbug", exist_ok=True)
    tmp = f"/tmp/mkbug/{bid}.demo"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        sh(["cp", "-a", "/repo", copy])
        if "go" in bug:
            pkg, src = bug["go"]
            full = SIM + "/" + pkg
            imp = re.match(r"\s*import \(.*?\n\)\n", src, re.S)
            imp = imp.group(0) if imp else ""
            text = "package %s\n\n%s\n%s\n%s" % (os.path.basename(pkg), imp, PRELUDE.get(full, ""), src[len(imp):])
            open(tmp + "/demo_test.go", "w").write(text)
            rc, o = sh(["/opt/veriftools/bin/goimports" if os.path.exists("/opt/veriftools/bin/goimports") else "goimports",
                        "-w", tmp + "/demo_test.go"], cwd=copy + "/" + SIM)
            if rc:
                return bid, "goimports: " + o
            script = HEAD + GOSH % {"pkg": pkg}
        elif "proto" in bug:
            pkg, src = bug["proto"]
            open(tmp + "/demo_test.go", "w").write("package %s\n\n%s" % (pkg, src))
            rc, o = sh(["goimports", "-w", tmp + "/demo_test.go"])
            if rc:
                return bid, "goimports: " + o
            script = HEAD + PROTOSH % {"pkg": pkg}
        elif "py" in bug:
            for name, text in bug.get("files", {}).items():
                open(f"{tmp}/{name}", "w").write(text)
            open(tmp + "/demo.py", "w").write(bug["py"])
            script = HEAD + PYSH
        else:
            for name, text in bug.get("files", {}).items():
                open(f"{tmp}/{name}", "w").write(text)
            script = HEAD + bug["sh"] + "\n"
        open(tmp + "/demo.sh", "w").write(script)
        rc, o = sh(["bash", tmp + "/demo.sh"], cwd=copy, timeout=280)
        if rc:
            return bid, "demo fails on the unchanged tree:\n" + o[-3000:]
        removed = False
        for name, old, new in bug["edits"]:
            path = f"{copy}/{name}"
            text = open(path).read()
            if text.count(old) != 1:
                return bid, f"{name}: old text occurs {text.count(old)} times:\n{old}"
            open(path, "w").write(text.replace(old, new))
        rc, diff = sh(["git", "diff"], cwd=copy)
        # the lines the patch removes must be the repository's own
        rc, base = sh(["git", "diff", "-U0"], cwd=copy)
        cur = None
        own = 0
        for line in base.splitlines():
            m = re.match(r"--- a/(.*)", line)
            if m:
                cur = m.group(1)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                start, num = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(start, start + num):
                    rc, b = sh(["git", "blame", "-l", "-L", f"{ln},{ln}", "HEAD", "--", cur], cwd=copy)
                    if b.lstrip("^").startswith(BASE):
                        own += 1
                    else:
                        return bid, "changes a line of my own commits: " + b
        if not own:
            return bid, "no original line is changed"
        err = stable(copy)
        if err:
            return bid, err
        rc, o = sh(["bash", tmp + "/demo.sh"], cwd=copy, timeout=280)
        if rc == 0:
            return bid, "demo passes with the patch"
        demo_out = o[-600:]
        if rc == 2 or "build failed" in o:
            return bid, "demo broken with the patch:\n" + o[-2000:]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in os.listdir(tmp):
            shutil.copy(f"{tmp}/{f}", out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what_it_breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        if not check:
            return bid, "kept"
        res = []
        for prop in [bug["property"]] + bug.get("also", []):
            env = dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick", VERIF_SEED="1",
                       VERIF_EVIDENCE=tmp)
            rc, o = sh(["python3", VERIF + "/run.py", prop], cwd=VERIF, env=env)
            first = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            if rc == 1 and first:
                res.append(f"{prop} CAUGHT")
            else:
                res.append(f"{prop} MISSED rc={rc} {o[-300:]}")
        return bid, "kept; " + "; ".join(res) + "\n    demo: " + " | ".join(demo_out.splitlines()[:3])
    finally:
        for d in (copy, copy + ".vp", tmp):
            shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    check = "--nocheck" not in sys.argv
    jobs = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 1
    if "-j" in sys.argv:
        args.remove(str(jobs))
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with ThreadPoolExecutor(jobs) as ex:
        for bid, msg in ex.map(lambda b: one(b, check), bugs):
            print(f"{bid}: {msg}", flush=True)


main()
