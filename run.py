#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough]
Replays a violation:               run.py replay FILE [--property C01]

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
2: the check gave no answer (build failure, out of memory, time out)."""
import argparse, base64, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(REPO, "SmartCache/sim")
GOROOT_BIN = "/opt/veriftools/go1.27.3/bin/go"
MODCACHE = "/root/go/pkg/mod"
RAPID = ("pgregory.net/rapid", "v1.3.0")

# property -> list of (kind, files).  "go" files live in /verif/go and are
# compiled together with the kit; "py" files are run by the Hypothesis driver.
sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def go_env(scratch):
    env = dict(os.environ)
    env.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
               GOENV="off", GO111MODULE="on", GOFLAGS="-mod=mod -buildvcs=false", GOSUMDB="off",
               LANG=os.environ.get("LANG", "C.UTF-8"), TZ="UTC")
    if not os.access(os.path.join(env["HOME"], ".cache"), os.W_OK):
        env["GOCACHE"] = os.path.join(scratch, "gocache")
    env.pop("GODEBUG", None)
    return env


def go_cmd():
    return GOROOT_BIN if os.path.exists(GOROOT_BIN) else "go"


def write_modfile(scratch):
    """A copy of the module file with rapid added."""
    mod = open(os.path.join(SIM, "go.mod")).read()
    gosum = open(os.path.join(SIM, "go.sum")).read()
    name, ver = RAPID
    base = os.path.join(MODCACHE, "cache/download", name, "@v", ver)
    h1 = open(base + ".ziphash").read().strip()
    gomod = open(base + ".mod", "rb").read()
    inner = hashlib.sha256(gomod).hexdigest()
    modh = base64.b64encode(hashlib.sha256(f"{inner}  go.mod\n".encode()).digest()).decode()
    mod += f"\nrequire {name} {ver}\n"
    if not gosum.endswith("\n"):
        gosum += "\n"
    gosum += f"{name} {ver} {h1}\n{name} {ver}/go.mod h1:{modh}\n"
    path = os.path.join(scratch, "zverif.mod")
    open(path, "w").write(mod)
    open(os.path.join(scratch, "zverif.sum"), "w").write(gosum)
    return path


def build_go(scratch, files, race=False):
    overlay = {}
    pkg = os.path.join(SIM, "zverif")
    for f in files:
        overlay[os.path.join(pkg, os.path.basename(f))] = os.path.join(VERIF, "go", f)
    # the stand-alone prototype has no module: give its packages import paths of the module
    for sub in ("cache", "qtable"):
        for src in glob.glob(os.path.join(REPO, "qLearning_smartCache", sub, "*.go")):
            if src.endswith("_test.go"):
                continue
            overlay[os.path.join(pkg, "proto", sub, os.path.basename(src))] = src
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": overlay}, open(ov, "w"))
    out = os.path.join(scratch, "check.test")
    cmd = [go_cmd(), "test", "-c", "-vet=off", "-tags", "verif", "-modfile", write_modfile(scratch), "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    if os.environ.get("VERIF_COVER"):
        cmd += ["-cover", "-coverpkg=simulator/v2/cache/...,simulator/v2/zverif/proto/..."]
    cmd.append("./zverif")
    p = subprocess.run(cmd, cwd=SIM, env=go_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise NoAnswer("the checks do not build against the current tree:\n" + p.stdout[-4000:])
    return out


def build_cli(scratch):
    out = os.path.join(scratch, "sim-cli")
    cmd = [go_cmd(), "build", "-tags", "verif", "-modfile", write_modfile(scratch), "-o", out, "."]
    p = subprocess.run(cmd, cwd=SIM, env=go_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise NoAnswer("the simulator does not build from the current tree:\n" + p.stdout[-4000:])
    return out


def known_findings():
    """Lines `finding: property=<id> key=<key> <what fails>` of known_findings.txt."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def worker_seed(seed, part, idx):
    h = hashlib.sha256(f"{seed}/{part}/{idx}".encode()).digest()
    return int.from_bytes(h[:4], "big") % (2 ** 31 - 2) + 1


def spawn(kind, art, prop, files, wdir, seed, env_extra, budget, run_filter=None):
    env = go_env(wdir) if kind == "go" else dict(os.environ, TZ="UTC")
    os.makedirs(os.path.join(wdir, "cwd"), exist_ok=True)
    env.update(VERIF_OUT=wdir, VERIF_BUDGET=str(budget), VERIF_PROP=prop, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               VERIF_REPO_DIR=REPO, VERIF_WORKER_SEED=str(seed), GOMAXPROCS="4", TMPDIR=wdir)
    env.update(env_extra)
    if kind == "go":
        cmd = [art, "-test.run", f"^Test{prop}_", "-test.timeout", "0", f"-rapid.seed={seed}", "-rapid.nofailfile", "-rapid.shrinktime=25s"]
        if os.environ.get("VERIF_COVER"):
            # for the development of the checks: which lines of the simulator they reach
            cmd.append("-test.coverprofile=" + os.path.join(os.environ["VERIF_COVER"], f"{prop}-{os.path.basename(wdir)}.cov"))
    else:
        py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
        cmd = [py, os.path.join(VERIF, "py", files[0])]
        env["VERIF_CLI"] = art or ""
    so = open(os.path.join(wdir, "stdout"), "wb")
    return subprocess.Popen(cmd, cwd=os.path.join(wdir, "cwd"), env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.STDOUT, start_new_session=True)


def tail(path, n=3000):
    try:
        data = open(path, "rb").read()
        return data[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def head(path, n=3000):
    try:
        return open(path, "rb").read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def load_json(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def classify(wdir, rc, prop):
    """-> (violation record or None).  Raises NoAnswer."""
    fails = [load_json(f) for f in sorted(glob.glob(os.path.join(wdir, "fail-*.json")))]
    fails = [f for f in fails if f]
    if rc == 0:
        return None
    out_tail = tail(os.path.join(wdir, "stdout"))
    cur = load_json(os.path.join(wdir, "current.json"))
    abort = load_json(os.path.join(wdir, "abort.json"))
    if fails:
        return fails[0]
    if abort and cur:
        cur["error"] = abort["reason"]
        return cur
    if rc < 0:
        # ended from outside (memory) or by a fatal signal of its own
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE) and cur and kind_signal(out_tail):
            cur["error"] = "fatal signal: " + out_tail[-800:]
            return cur
        raise NoAnswer(f"a worker was ended by signal {-rc}\n{out_tail}")
    full = head(os.path.join(wdir, "stdout"), 20000) + out_tail
    if "out of memory" in full or "cannot allocate memory" in full or "No space left" in full:
        raise NoAnswer("a worker ran out of resources\n" + out_tail)
    if cur and not os.path.exists(os.path.join(wdir, "driver_error")):
        cur["error"] = "the process died while running this case:\n" + out_tail[-1500:]
        return cur
    raise NoAnswer(f"a worker failed with code {rc}\n{out_tail}")


def kind_signal(text):
    return "fatal error" in text or "SIGSEGV" in text or "panic" in text


def wait_all(procs, limit):
    end = time.time() + limit
    codes = []
    for p in procs:
        try:
            codes.append(p.wait(timeout=max(1, end - time.time())))
        except subprocess.TimeoutExpired:
            for q in procs:
                try:
                    os.killpg(q.pid, signal.SIGKILL)
                except OSError:
                    pass
            raise NoAnswer(f"the workers did not finish within {limit} s")
    return codes


def save_replay(prop, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    data = json.dumps(rec, sort_keys=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(data.encode()).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        f.write(data + "\n")
    return path


def run_check(prop, tier, seed):
    t0 = time.time()
    parts = PLAN[prop]["parts"]
    workers = PLAN[prop].get("workers", 6)
    budget = PLAN[prop].get("budget", {}).get(tier, 240 if tier == "quick" else 1500)
    limit = 780 if tier == "quick" else 3300
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    listed = [k for k in known_findings() if k[0] == prop]
    env_extra = {"VERIF_TIER": tier, "VERIF_SEED": str(seed), "VERIF_KNOWN": ",".join(k[1] for k in listed),
                 "VERIF_CORPUS": os.path.join(VERIF, "corpus", prop)}
    if os.environ.get("VERIF_SCALE"):
        env_extra["VERIF_SCALE"] = os.environ["VERIF_SCALE"]
    violation = None
    try:
        procs, dirs = [], []
        for pi, (kind, files) in enumerate(parts):
            if kind == "go":
                art = build_go(scratch, ["kit_test.go"] + files)
                if PLAN[prop].get("cli"):
                    env_extra["VERIF_CLI"] = build_cli(scratch)
                n = workers
            else:
                art = build_cli(scratch) if PLAN[prop].get("cli") else None
                n = PLAN[prop].get("py_workers", workers)
            for w in range(n):
                wdir = os.path.join(scratch, f"p{pi}w{w}")
                os.makedirs(wdir)
                extra = dict(env_extra)
                if w > 0:
                    extra["VERIF_CORPUS"] = ""
                procs.append(spawn(kind, art, prop, files, wdir, worker_seed(seed, f"{prop}/{pi}", w), extra, budget))
                dirs.append((kind, wdir))
        codes = wait_all(procs, limit)
        stats = {}
        known = {}
        found = []
        trouble = []
        for (kind, wdir), rc in zip(dirs, codes):
            for f in sorted(glob.glob(os.path.join(wdir, "stats-*.json"))):
                s = load_json(f)
                if not s:
                    continue
                agg = stats.setdefault(s["test"], {"rule": s["rule"], "evaluations": 0, "hashes": set(), "classes": {}, "samples": [], "truncated": 0})
                agg["evaluations"] += s["evaluations"]
                agg["hashes"].update(s["hashes"] or [])
                agg["truncated"] += bool(s.get("truncated"))
                for k, v in (s["classes"] or {}).items():
                    agg["classes"][k] = agg["classes"].get(k, 0) + v
                if len(agg["samples"]) < 2:
                    agg["samples"] += (s["samples"] or [])[:2 - len(agg["samples"])]
                known.update(s.get("known") or {})
            try:
                v = classify(wdir, rc, prop)
            except NoAnswer as e:
                trouble.append(str(e))
                continue
            if v:
                v.setdefault("part", kind)
                found.append(v)
        if found:
            found.sort(key=lambda v: (len(json.dumps(v["case"])), json.dumps(v["case"])))
            violation = found[0]
        elif trouble:
            raise NoAnswer("\n".join(trouble))
        evals = sum(a["evaluations"] for a in stats.values())
        distinct = sum(len(a["hashes"]) for a in stats.values())
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct,
                "rule": " || ".join(f"{t}: {a['rule']}" for t, a in sorted(stats.items())),
                "samples": [{"test": t, "case": c} for t, a in sorted(stats.items()) for c in a["samples"]],
                "per_test": {t: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["hashes"]), "classes": a["classes"],
                                 "workers_out_of_budget": a["truncated"]} for t, a in sorted(stats.items())},
                "workers": len(dirs),
            },
            "assumptions": PLAN[prop].get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p_, key, what in listed:
            if key in known:
                log(f"KNOWN-FINDING: property={prop} {what}")
        log(f"{prop} {tier}: {evals} cases, {distinct} distinct non-trivial, {time.time() - t0:.1f} s")
        for t, a in sorted(stats.items()):
            log(f"  {t}: {a['evaluations']} cases, {len(a['hashes'])} non-trivial, classes {dict(sorted(a['classes'].items()))}"
                + (f", {a['truncated']} workers out of budget" if a["truncated"] else ""))
        if violation:
            path = save_replay(prop, violation)
            log(f"violated by {violation['test']}: {violation['error'][:1500]}")
            log(f"VIOLATION property={prop} replay={path}")
            return 1
        if distinct == 0:
            if not any(a["classes"].get("not-judged") for a in stats.values()):
                raise NoAnswer("no non-trivial case was generated")
            log(f"{prop}: nothing was judged, the code has other internals than the check knows")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    rec = load_json(path)
    if not rec:
        raise NoAnswer(f"cannot read {path}")
    prop = rec["property"]
    scratch = tempfile.mkdtemp(prefix=f"verif-replay-{prop}-")
    try:
        ran = False
        for pi, (kind, files) in enumerate(PLAN[prop]["parts"]):
            if rec.get("part", kind) != kind:
                continue
            art = build_go(scratch, ["kit_test.go"] + files) if kind == "go" else (build_cli(scratch) if PLAN[prop].get("cli") else None)
            wdir = os.path.join(scratch, f"p{pi}")
            os.makedirs(wdir)
            extra = {"VERIF_REPLAY": os.path.abspath(path), "VERIF_TIER": "quick"}
            if kind == "go" and PLAN[prop].get("cli"):
                extra["VERIF_CLI"] = build_cli(scratch)
            p = spawn(kind, art, prop, files, wdir, 1, extra, 600)
            rc = wait_all([p], 700)[0]
            ran = True
            if rc != 0:
                v = classify(wdir, rc, prop)
                log(v["error"][:4000])
                log(f"VIOLATION property={prop} replay={path}")
                return 1
        log("the replayed case passes" if ran else "nothing to replay")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if a.what == "setup":
            for need in (go_cmd(), os.path.join(MODCACHE, "cache/download", RAPID[0], "@v", RAPID[1] + ".zip")):
                if not (os.path.exists(need) or shutil.which(need)):
                    raise NoAnswer(f"{need} is missing")
            log("ready: the checks build what they need from the current tree")
            sys.exit(0)
        if a.what == "replay":
            sys.exit(replay(a.file))
        sys.exit(run_check(a.what, tier, seed))
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        log(f"NO-ANSWER: {e}")
        sys.exit(2)


if __name__ == "__main__":
    main()
