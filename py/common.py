"""Runs generated cases (Hypothesis) and reports them in the format of the Go kit."""
import glob
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import types

OUT = os.environ.get("VERIF_OUT") or tempfile.mkdtemp(prefix="zverif")
REPO = os.environ.get("VERIF_REPO_DIR", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_WORKER_SEED", "1"))
KNOWN = {k for k in os.environ.get("VERIF_KNOWN", "").split(",") if k}
DEADLINE = time.time() + float(os.environ.get("VERIF_BUDGET", "300"))
CASE_TIMEOUT = 60
SHRINK_TIME = 40
MEMORY = 4 << 30

sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Finding(Exception):
    """A violation identified by a key of the known-findings file."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class TooLong(BaseException):
    pass


class Rec:
    def __init__(self):
        self.classes, self.nontrivial = set(), False

    def cls(self, name):
        self.classes.add(name)

    def non_trivial(self):
        self.nontrivial = True


def check(cond, msg, *args):
    if not cond:
        raise AssertionError(msg.format(*args) if args else msg)


class Unsupported(Exception):
    """The case cannot be judged."""


def inner(obj, *names):
    """Needs names that are not part of the interface: without them the case is not judged."""
    for n in names:
        if not hasattr(obj, n):
            raise Unsupported(n)
    return obj


def stub(name, **attrs):
    """Something importable in place of a dependency that is not installed."""
    try:
        return importlib.import_module(name)
    except ImportError:
        pass
    mod = types.ModuleType(name)
    mod.__path__ = []

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return type(attr, (), {})
    mod.__getattr__ = missing
    for k, v in attrs.items():
        setattr(mod, k, v)
    sys.modules[name] = mod
    return mod


class Spinner:
    def __init__(self, *_, **__):
        self.text = ""

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def write(self, *_):
        pass


def stub_data_manager():
    import avro_standin
    stub("tqdm", tqdm=lambda it=None, **_: it)
    stub("yaspin", yaspin=Spinner)
    stub("fastavro", writer=avro_standin.writer, reader=avro_standin.reader, parse_schema=avro_standin.parse_schema)
    for name in ("findspark", "pandas", "pyspark", "requests"):
        stub(name)


def stub_probe():
    """Stand-ins for the libraries of the Probe package."""
    import pandas_standin
    sys.modules["pandas"] = pandas_standin
    stub("tqdm", tqdm=lambda it=None, *_, **__: it)
    names = type("Names", (), {"__getattr__": lambda self, name: ""})
    stub("colorama", Fore=names(), Style=names(), Back=names(), init=lambda *_, **__: None)
    stub("pygments", highlight=lambda text, *_: text, lexers=stub("pygments.lexers"), formatters=stub("pygments.formatters"))
    drawn = Drawing()
    for name in ("plotly", "plotly.express", "plotly.graph_objects", "plotly.graph_objs", "plotly.subplots", "dash", "dash_bootstrap_components", "dash_core_components",
                 "dash_daq", "dash_html_components", "dash.dependencies", "flask", "biokit", "biokit.viz", "seaborn", "bokeh", "bokeh.io", "bokeh.layouts", "bokeh.models",
                 "bokeh.palettes", "bokeh.plotting", "bokeh.transform", "matplotlib", "matplotlib.pyplot"):
        m = stub(name)
        if getattr(m, "__file__", None) is None:
            m.__getattr__ = drawn.named(name)
    return drawn


class Drawing:
    """Plot libraries that record their calls and draw nothing."""

    def __init__(self):
        self.calls = []
        self.made = []

    def named(self, prefix):
        def get(name):
            if name.startswith("__"):
                raise AttributeError(name)
            return Drawn(self, f"{prefix}.{name}")
        return get


class Drawn:
    def __init__(self, log, name, owner=None):
        self.__dict__.update(log=log, name=name, owner=owner, args=(), kw={})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Drawn(self.log, f"{self.name}.{name}", self)

    def __setattr__(self, name, value):
        pass

    def __call__(self, *args, **kw):
        res = Drawn(self.log, self.name + "()", self.owner)
        res.__dict__.update(args=args, kw=kw)
        self.log.made.append(res)
        self.log.calls.append((self.name, args, kw))
        return res

    def __getitem__(self, k):
        return Drawn(self.log, f"{self.name}[{k!r}]")


def driver_error(msg):
    open(os.path.join(OUT, "driver_error"), "w").write(msg)
    print("DRIVER ERROR:", msg, flush=True)
    sys.exit(2)


def load(name):
    """Imports a module of the tree under test."""
    try:
        return importlib.import_module(name)
    except Exception:
        driver_error(f"cannot import {name}:\n{traceback.format_exc()}")


class scratch:
    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory(dir=OUT, prefix="case")
        return self.dir.name

    def __exit__(self, *a):
        self.dir.cleanup()


class Spec:
    def __init__(self, prop, name, rule, quick, thorough, gen, run, fixed=()):
        self.prop, self.name, self.rule, self.quick, self.thorough = prop, name, rule, quick, thorough
        self.gen, self.run, self.fixed = gen, run, list(fixed)


def dump(path, obj):
    with open(os.path.join(OUT, path), "w") as f:
        json.dump(obj, f)


def unsupported(e):
    while e is not None:
        if type(e).__name__ == "Unsupported":
            return True
        e = e.__cause__ or e.__context__
    return False


def _alarm(*_):
    raise TooLong()


def execute(spec, only=None):
    """Runs one spec; returns True when it held."""
    from hypothesis import HealthCheck, Phase, given, seed, settings, reproduce_failure  # noqa: F401
    full = f"{spec.prop}/{spec.name}"
    st = {"test": full, "rule": spec.rule, "evaluations": 0, "nontrivial": 0, "hashes": [], "classes": {}, "samples": [], "known": {}, "failed": False, "truncated": False}
    hashes = set()
    best = {}

    def finish():
        st["hashes"] = sorted(hashes)
        dump(f"stats-{spec.name}.json", st)

    def one(case, count):
        raw = json.dumps(case, sort_keys=True)
        case = json.loads(raw)  # exactly what a replay runs
        dump("current.json", {"property": spec.prop, "test": full, "seed": str(SEED), "case": json.loads(raw), "error": "the process died while running this case"})
        rec, err, key = Rec(), None, ""
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_TIMEOUT)
        try:
            spec.run(case, rec)
        except Finding as f:
            if f.key in KNOWN:
                st["known"][f.key] = str(f)
            else:
                err, key = str(f), f.key
        except TooLong:
            err = f"the case did not finish within {CASE_TIMEOUT} s"
        except (KeyboardInterrupt, SystemExit) as e:
            err = f"the code exited: {e!r}"
        except Exception as e:
            if unsupported(e):
                rec.cls("not-judged")  # the code uses a part of a library its stand-in lacks
            else:
                err = "".join(traceback.format_exc())[-3000:]
        finally:
            signal.alarm(0)
        if count and not st["failed"]:
            st["evaluations"] += 1
            for c in rec.classes:
                st["classes"][c] = st["classes"].get(c, 0) + 1
            if rec.nontrivial:
                h = hashlib.sha256(raw.encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    st["nontrivial"] += 1
                    if len(st["samples"]) < 2 and len(raw) < 6000:
                        st["samples"].append(json.loads(raw))
        if err is not None:
            if not st["failed"]:
                st["failed"] = True
                best["since"] = time.time()
            if "case" not in best or len(raw) <= best["len"]:
                best.update(case=raw, len=len(raw), err=err)
                dump(f"fail-{spec.name}.json", {"property": spec.prop, "test": full, "seed": str(SEED), "error": err, "key": key, "case": json.loads(raw)})
            if err.startswith("the case did not finish") or time.time() - best["since"] > SHRINK_TIME:
                finish()
                print(f"FAILED {full}: {best['err']}", flush=True)
                os._exit(1)
            raise AssertionError(err)

    if only is not None:
        try:
            one(only, True)
        except AssertionError as e:
            print("REPRODUCED", e)
            finish()
            return False
        finish()
        return True

    try:
        for case in spec.fixed:
            one(case, True)
        corpus = os.environ.get("VERIF_CORPUS", "")
        if corpus:
            for name in sorted(glob.glob(os.path.join(corpus, "*.json"))):
                fr = json.load(open(name))
                if fr.get("test") == full:
                    one(fr["case"], True)
        n = spec.thorough if TIER == "thorough" else spec.quick
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1") or 1)))

        @seed(SEED)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
        @given(spec.gen)
        def generated(case):
            if time.time() > DEADLINE and not st["failed"]:
                st["truncated"] = True
                return
            one(case, True)

        generated()
    except BaseException as e:  # noqa: BLE001 - whatever ended it, a recorded failure decides
        if not st["failed"]:
            finish()
            driver_error(f"{full}: {''.join(traceback.format_exception(e))}")
        finish()
        print(f"FAILED {full}: {best.get('err')}", flush=True)
        return False
    finish()
    return True


def main(*specs):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    replay = os.environ.get("VERIF_REPLAY")
    if replay:
        fr = json.load(open(replay))
        for s in specs:
            if fr["test"] == f"{s.prop}/{s.name}":
                sys.exit(0 if execute(s, fr["case"]) else 1)
        sys.exit(0)
    ok = True
    for s in specs:
        ok = execute(s) and ok
    sys.exit(0 if ok else 1)
