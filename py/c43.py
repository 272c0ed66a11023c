"""C43: the Python caches of the weight function study and the driver that compares them."""
import contextlib
import datetime
import gzip
import io
import json
import os
import pickle
import sys
import types
from collections import Counter, OrderedDict
from functools import partial

from hypothesis import strategies as s

from common import REPO, Spec, check, load, main, scratch, stub, stub_probe

sys.path.insert(0, os.path.join(REPO, "scripts", "DataAnalysis"))
stub_probe()


class Bar:
    """A progress bar that shows nothing."""

    def __init__(self, it=None, *_, **__):
        self.it, self.desc = it, ""

    def __iter__(self):
        return iter(self.it)

    def reset(self, **_):
        pass

    def update(self, *_):
        pass

    def close(self):
        pass


sys.modules["tqdm"].tqdm = Bar
for name in ("grpc", "requests", "google", "google.protobuf", "google.protobuf.empty_pb2", "SmartCache", "SmartCache.sim", "SmartCache.sim.pySimService",
             "SmartCache.sim.pySimService.simService_pb2", "SmartCache.sim.pySimService.simService_pb2_grpc"):
    module = types.ModuleType(name)  # even where it is there: nothing remote is judged
    module.__path__ = []
    sys.modules[name] = module
    if "." in name:
        setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], module)
standin = sys.modules["pandas"]
mod = load("weight_function")


class Clock:
    """One tick per request, however often it is read."""

    def __init__(self):
        self.now = 0

    def __call__(self):
        return 1000.0 + self.now

    time = property(lambda self: self)


CLOCK = Clock()
mod.time = CLOCK


class Pd:
    """pandas for the driver: the feather files of the study are JSON here, correlations are not computed."""

    class DataFrame:
        def __init__(self, data=None):
            self.lengths = {len(v) for v in (data or {}).values()}

        def corr(self):
            return self

        def to_csv(self, *_, **__):
            return "correlations"

    @staticmethod
    def read_feather(source):
        rows = json.loads(source.read())
        return standin.DataFrame({k: [float("nan") if r[k] is None else r[k] for r in rows] for k in ("filename", "site_name", "size", "day", "user")})

    def __getattr__(self, name):
        return getattr(standin, name)


mod.pd = Pd()
mod.current_process = lambda: "<ForkProcess(ForkPoolWorker-1, started daemon)>"


def ticking(cls):
    get = cls.get

    def ticked(self, *args, **kw):
        CLOCK.now += 1
        return get(self, *args, **kw)
    cls.get = ticked


ticking(mod.LRUCache)
ticking(mod.WeightedCache)

COSTS = {
    "size/frequency": lambda size, frequency: size / frequency,
    "size": lambda size, frequency: size,
    "1/frequency": lambda size, frequency: 1. / frequency,
    "frequency": lambda size, frequency: frequency,
    "size*frequency": lambda size, frequency: size * frequency,
    "const": lambda size, frequency: 1.,
}
CALLS = []


def cost(fun="size", **kw):
    CALLS.append(kw)
    return COSTS[fun](kw["size"], kw["frequency"])


def filename(i, groups):
    """Neighbouring files are in different groups whose names differ in one place only."""
    g = i % groups
    parts = ["data", "Run", "proc", "AOD"]
    if g:
        parts[(g - 1) % 4] += "2" * (1 + (g - 1) // 4)
    return "/store/" + "/".join(parts) + ("/f{}" if i % 3 else "/000/sub/f{}").format(i)


def group_of(name):
    return "/" + "/".join(name.split("/")[2:6]) + "/"


def gen_cache():
    op = s.one_of(s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 9)),
                  s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 9)), s.tuples(s.just("get"), s.integers(0, 3)),
                  s.tuples(s.sampled_from(["clear", "clear_history", "reset_history", "reset_weights", "pickle", "state", "info"]), s.just(0)))
    return s.fixed_dictionaries({
        "fun": s.sampled_from(["lru"] * 3 + list(COSTS) + ["size/frequency", "size"]),
        "max": s.integers(3, 30),
        "groups": s.integers(1, 6),
        "sizes": s.lists(s.integers(1, 14), min_size=10, max_size=10),
        "ops": s.lists(op, min_size=1, max_size=60),
    })


class Model:
    """What is held, in the order of its last use, and what is known about the requests."""

    def __init__(self, limit):
        self.limit, self.held = float(limit), OrderedDict()
        self.hits = self.misses = 0
        self.history = [[], [], [], []]
        self.freq, self.first, self.unknown = Counter(), {}, set()

    def size(self):
        return sum(self.held.values())

    def last(self, i):
        return self.history[i][-1] if self.history[i] else 0.


def lru_get(m, name, size):
    if name in m.held:
        m.held.move_to_end(name)
        return False
    if size > m.limit:
        return False
    while m.size() + size > m.limit:
        m.held.popitem(last=False)
    m.held[name] = size
    return True


def weighted_get(m, cache, name, size, fun, rec):
    """What the weighted cache may have done with a request; the model follows what it did."""
    before, after = dict(m.held), dict(cache.info["cache"])
    if name in before:
        check(after == before, "a hit changed what is held from {} to {}", before, after)
        return False
    out = set(before) - set(after)
    stored = name in after
    check(set(after) - set(before) <= {name}, "a request of {} brought in {}", name, set(after) - set(before))
    check(all(after[k] == v for k, v in before.items() if k in after) and after.get(name, size) == size, "the sizes of the held files changed: {} after {}", after, before)
    weight = {k: COSTS[fun](v, m.freq[k]) for k, v in before.items() if k not in m.unknown}
    new = COSTS[fun](size, m.freq[name])
    if m.size() + size <= m.limit:
        check(stored and not out, "{} fits but stored={}, thrown out {}", name, stored, out)
    else:
        rec.cls("full")
        known = {k: weight[k] for k in out if k in weight}
        kept = {k: w for k, w in weight.items() if k not in out}
        check(all(w > new for w in known.values()), "{} of weight {} throws out {}", name, new, known)
        if known:
            check(all(w <= min(known.values()) for w in kept.values()), "{} thrown out before heavier files: kept {}", known, kept)
        heavier = {k for k, w in weight.items() if w > new} | out
        left = sum(v for k, v in before.items() if k not in heavier)
        if stored:
            rec.cls("evicted")
            if out == set(known):
                room = m.limit - m.size() + sum(before[k] for k in out)
                check(out and any(room - before[k] < size for k, w in known.items() if w == min(known.values())), "{} of size {} throws out more than it needs: {} of {}", name, size, known, before)
        else:
            rec.cls("refused")
            check(left + size > m.limit, "{} of size {} and weight {} was refused: {} of weights {} held", name, size, new, before, weight)
            check(not out or heavier == out, "{} was refused after {} were thrown out of the heavier {}", name, out, heavier)
    for k in out:
        del m.held[k]
    if stored:
        m.held[name] = size
    m.unknown &= set(m.held)
    return stored


def run_cache(case, rec):
    CLOCK.now, CALLS[:] = 0, []
    fun = case["fun"]
    lru = fun == "lru"
    limit = float(case["max"])
    cache = mod.LRUCache(limit) if lru else mod.WeightedCache(limit, partial(cost, fun=fun))
    rec.cls("lru" if lru else "weighted")
    m = Model(limit)
    requested = set()
    for step, (op, i) in enumerate(case["ops"]):
        if op == "get":
            name, size = filename(i, case["groups"]), float(case["sizes"][i])
            hit = name in m.held
            m.freq[name] += 1
            m.first.setdefault(group_of(name), CLOCK() + 1)
            m.unknown.discard(name)
            requested.add((name, size))
            CALLS[:] = []
            got = cache.get(name, size)
            check(bool(got) == hit, "step {}: {} is {} but held is {}", step, name, "a hit" if got else "a miss", list(m.held))
            if lru:
                full = m.size() + size > limit
                added = lru_get(m, name, size)
                if full and not hit:
                    rec.cls("evicted" if added else "refused")
            else:
                if not hit:
                    calls = [(c["size"], c["frequency"], c["first_time"]) for c in CALLS]
                    check((size, m.freq[name], m.first[group_of(name)]) in calls, "step {}: the cost of {} was not asked with size {}, frequency {} and first time {}: {}", step, name, size, m.freq[name], m.first[group_of(name)],
                          calls)
                added = weighted_get(m, cache, name, size, fun, rec)
                check(cache.get_group(name) == group_of(name), "{} is in the group {}", name, cache.get_group(name))
            m.hits += hit
            m.misses += not hit
            rate = m.hits / (m.hits + m.misses) * 100.
            for n, v in enumerate((m.size(), rate, m.last(2) + (size if added else 0.), m.last(3) + (size if hit else 0.))):
                m.history[n].append(v)
            check(abs(cache.hit_rate - rate) < 1e-9, "step {}: hit rate {} instead of {}", step, cache.hit_rate, rate)
            if hit:
                rec.cls("hit")
        elif op == "clear":
            cache.clear()
            m.held.clear()
            m.unknown.clear()
        elif op == "clear_history":
            if not m.history[0]:
                continue
            cache.clear_history()
            m.history = [[h[-1]] for h in m.history]
        elif op == "reset_history":
            cache.reset_history()
            m.history, m.hits, m.misses = [[], [], [], []], 0, 0
        elif op == "reset_weights":
            if lru:
                continue
            cache.reset_weights()
            m.freq, m.first, m.unknown = Counter(), {}, set(m.held)
            requested.clear()
            if m.held:
                rec.cls("weights-reset")
        elif op == "pickle":
            cache = pickle.loads(pickle.dumps(cache))
        elif op == "state":
            cache = mod.LRUCache(0., init_state=cache.state) if lru else mod.WeightedCache(0., cost, init_state=cache.state)
        info = cache.info
        check(dict(info["cache"]) == dict(m.held), "step {} ({}): holds {} instead of {}", step, op, info["cache"], dict(m.held))
        check(len(cache) == len(m.held) and cache.size == m.size() <= limit, "step {}: {} files of size {} instead of {}, limit {}", step, len(cache), cache.size, dict(m.held), limit)
        check(abs(cache.capacity - m.size() / limit * 100) < 1e-9, "step {}: capacity {} with {} of {}", step, cache.capacity, m.size(), limit)
        for k in range(10):
            check(bool(cache.check(filename(k, case["groups"]))) == (filename(k, case["groups"]) in m.held), "step {}: check of {} is wrong, held {}", step, filename(k, case["groups"]), dict(m.held))
        if not lru:
            check(set(info["weights"]) == {n for n, _ in requested}, "step {}: weights of {} instead of {}", step, set(info["weights"]), requested)
        history = [list(h) for h in cache.history]
        check(len(history) == 4, "{} histories", len(history))
        for what, got, want in zip(("sizes", "hit rates", "written data", "data read on hit"), history, m.history):
            check(len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "step {} ({}): history of {} {} instead of {}", step, op, what, got, want)
        if m.history[0]:
            check((cache.written_data, cache.read_on_hit) == (m.last(2), m.last(3)), "step {}: written {}, read on hit {} instead of {}, {}", step, cache.written_data, cache.read_on_hit, m.last(2), m.last(3))
    if {"evicted", "hit"} <= rec.classes:
        rec.non_trivial()


QUARTER = 2 ** 38  # a quarter of a TB, in bytes


def gen_driver():
    row = s.fixed_dictionaries({"f": s.integers(0, 11), "site": s.sampled_from(["T2_IT_Bari", "T2_it_Pisa", "T2_IT_Bari", "T1_US_FNAL", "T2_ITA_X", "T2_FR_it"]), "hours": s.integers(0, 40),
                                "bad": s.sampled_from([""] * 12 + ["size", "filename"])})
    return s.fixed_dictionaries({
        "functions": s.sampled_from(["lru", "lru,simple", "simple", "lru,simple,with_time", "with_time,lru"]),
        "sizes": s.lists(s.integers(1, 4), min_size=1, max_size=2, unique=True),
        "exps": s.lists(s.integers(1, 3), min_size=1, max_size=2, unique=True),
        "file_sizes": s.lists(s.integers(1, 9), min_size=12, max_size=12),
        "groups": s.integers(1, 4),
        "clear_cache": s.booleans(),
        "clear_weights": s.booleans(),
        "region": s.sampled_from(["it", "it", "us", "all"]),
        "window": s.integers(1, 3),
        "max": s.sampled_from([-1, -1, 1, 2]),
        "days": s.lists(s.lists(row, min_size=1, max_size=25), min_size=1, max_size=6),
        "others": s.lists(s.sampled_from(["results_2019.csv.gz", "stats_2018-01-03.feather.gz", "results_2018-01-02.feather", "notes.txt", "aresults_0.feather.gz"]), unique=True),
        "plot_server": s.sampled_from([False, False, True]),
        "info": s.booleans(),
    })


class Jobs:
    """multiprocessing.Pool that runs its jobs here, one after the other."""

    def __init__(self, *_, **__):
        pass

    def imap(self, fun, jobs, *_):
        for job in jobs:
            CLOCK.now = 0
            yield fun(job)

    imap_unordered = imap

    def map(self, fun, jobs, *_):
        return list(self.imap(fun, jobs))

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


def selected(rows, region):
    for r in rows:
        if r["size"] is None or r["filename"] is None:
            continue
        if region != "all" and f"_{region}_".lower() not in r["site_name"].lower():
            continue
        yield r


def new_cache(kind):
    fun, size, exp, cc, cw = kind
    if fun == "lru":
        return mod.LRUCache(size, cache_options={"clear_cache": cc})
    fn = {"simple": mod.simple_cost_function, "with_time": mod.cost_function_with_time}[fun]
    return mod.WeightedCache(size, partial(fn, exp=exp), cache_options={"fun_name": fun, "exp": exp, "clear_cache": cc, "clear_weights": cw})


def label(kind):
    fun, size, exp, cc, cw = kind
    tb = int(size / 1024 ** 2)
    if fun == "lru":
        return f"LRUCache_{tb}T" + ("_cC" if cc else "")
    options = "_".join(o for o in ("cC" if cc else "", "cW" if cw else "") if o)
    return f"WeightedCache_{tb}T_{fun}_f_{int(exp)}e" + ("_" + options if options else "")


def copy(v):
    return json.loads(json.dumps(v))


def expected(kind, windows, region):
    """The histories of a cache that gets the requests window by window, and its points day by day."""
    CLOCK.now = 0
    cache = new_cache(kind)
    res = ([], [], [], [])
    points, infos, last = {}, [], None
    for w, window in enumerate(windows):
        idx = 0
        out = points.setdefault(w, {k: [(0, 0.0)] if w == 0 else [] for k in ("hit_rate", "size", "written_data", "read_on_hit")})
        for rows in window:
            for r in selected(rows, region):
                last = r["day"] if last is None else last
                cache.get(r["filename"], r["size"] / 1024 ** 2)
                if r["day"] - last >= 86400:
                    idx, last = idx + 1, r["day"]
                    for k in out:
                        out[k].append((idx, getattr(cache, k)))
        for k, h in enumerate(cache.history[:3]):
            res[k].append(list(h))
        res[3].append(copy(cache.info))
        cache.clear_history()
        if kind[3]:
            cache.clear()
        if kind[4] and kind[0] != "lru":
            cache.reset_weights()
    return res, points


def close(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def run_driver(case, rec):
    functions = case["functions"].split(",")
    region = case["region"]
    days = []
    clock = 1514764800
    for d, rows in enumerate(case["days"]):
        clock = max(clock, 1514764800 + d * 86400)
        out = []
        for r in rows:
            clock += r["hours"] * 3600
            out.append({"filename": filename(r["f"], case["groups"]), "site_name": r["site"], "size": case["file_sizes"][r["f"]] * QUARTER, "day": clock, "user": 3})
            if r["bad"]:
                out[-1][r["bad"]] = None
                rec.cls("missing-values")
        days.append(out)
    # the first window has a request of the region
    days[0][0].update(filename=filename(case["days"][0][0]["f"], case["groups"]), size=case["file_sizes"][case["days"][0][0]["f"]] * QUARTER, site_name="T2_US_it_X")
    windows = [days[i:i + case["window"]] for i in range(0, len(days), case["window"])]
    if case["max"] > 0:
        windows = windows[:case["max"]]
    kinds = [("lru", size * 1024. ** 2, None, cc, False) for size in case["sizes"] for cc in ([False, True] if case["clear_cache"] else [False])] if "lru" in functions else []
    kinds += [(fun, size * 1024. ** 2, float(exp), cc, cw) for fun in ("simple", "with_time") if fun in functions for size in case["sizes"] for exp in case["exps"]
              for cc in ([False, True] if case["clear_cache"] else [False]) for cw in ([False, True] if case["clear_weights"] else [False])]
    shown, puts = [], []
    mod.Pool = Jobs
    mod.plot_cache_results = lambda caches, *a, **kw: shown.append(caches)
    mod.requests = types.SimpleNamespace(put=lambda url, data=None, **kw: puts.append((url, json.loads(gzip.decompress(data)))))
    with scratch() as d:
        os.mkdir(f"{d}/results")
        for i, rows in enumerate(days):
            day = datetime.date(2018, 1, 1) + datetime.timedelta(days=i * 9)
            with gzip.open(f"{d}/results/results_{day}.feather.gz", "wb") as f:
                f.write(json.dumps(rows).encode())
        for other in case["others"]:
            open(f"{d}/results/{other}", "w").close()
        argv, cwd = sys.argv, os.getcwd()
        sys.argv = ["weight_function.py", "--result-folder", f"{d}/results", "--out-folder", f"{d}/out", "--region", region, "-ws", str(case["window"]), "-mw", str(case["max"]),
                    "--exp-values", ",".join(map(str, case["exps"])), "--functions", case["functions"], "--cache-sizes", ",".join(str(x * 1024 ** 2) for x in case["sizes"])]
        sys.argv += ["-cC"] * case["clear_cache"] + ["-cW"] * case["clear_weights"]
        if case["plot_server"]:
            sys.argv += ["--plot-server", "http://plots:1"] + ["--get-window-cache-info", "yes"] * case["info"]
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mod.main()
        finally:
            os.chdir(cwd)
            sys.argv = argv
    if not case["plot_server"]:
        rec.cls("plots")
        check(len(shown) == 1, "{} sets of results are drawn", len(shown))
        check(set(shown[0]) == set(map(label, kinds)), "results of {} instead of {}", sorted(shown[0]), sorted(map(label, kinds)))
        for kind in kinds:
            want, _ = expected(kind, windows, region)
            got = shown[0][label(kind)]
            for what, a, b in zip(("sizes", "hit rates", "written data", "infos"), got, want):
                check(close(copy(a), copy(b)), "{}: the {} of the windows are {} instead of {}", label(kind), what, a, b)
    else:
        rec.cls("plot-server")
        sent = {}
        for url, data in puts:
            head, what, name, w = url.rsplit("/", 3)
            check(head == "http://plots:1/cache", "sent to {}", url)
            if what == "info":
                sent.setdefault((what, name, w), []).append(data)
            else:
                check(what == "update", "sent to {}", url)
                got = sent.setdefault((what, name, w), {})
                for k, v in data.items():
                    got.setdefault(k, []).extend(v)
        names = {k[1] for k in sent}
        check(names == set(map(label, kinds)), "points of {} instead of {}", names, sorted(map(label, kinds)))
        for kind in kinds:
            want, points = expected(kind, windows, region)
            for w in range(len(windows)):
                got = sent.pop(("update", label(kind), str(w)), {})
                for k, v in points[w].items():
                    check(close(copy(got.get(k, [])), copy(v)), "{} of window {} of {} sent as {} instead of {}", k, w, label(kind), got.get(k), v)
                    if len(v) > 1:
                        rec.cls("points")
                infos = sent.pop(("info", label(kind), str(w)), [])
                check(close(infos, [want[3][w]] if case["info"] else []), "info of window {} of {}: {} instead of {}", w, label(kind), infos, want[3][w])
        check(not sent, "also sent {}", list(sent))
    if len(windows) > 1 and len(kinds) > 1:
        rec.non_trivial()


def gen_store():
    value = s.one_of(s.integers(-5, 5), s.text(max_size=3), s.lists(s.floats(0, 9), max_size=3))
    return s.fixed_dictionaries({"dict": s.booleans(), "gz": s.booleans(),
                                 "parts": s.lists(s.lists(s.tuples(s.sampled_from("abc"), value), max_size=3), min_size=1, max_size=5)})


def run_store(case, rec):
    with scratch() as d:
        whole = {} if case["dict"] else []
        for part in case["parts"]:
            data = {k: v for k, v in part} if case["dict"] else [v for _, v in part]
            mod.store_results(f"{d}/res.pickle", data)
            if case["dict"]:
                whole.update(data)
            else:
                whole = whole + data
            got = mod.load_results(f"{d}/res.pickle" + (".gz" if case["gz"] else ""))
            check(got == whole, "stored {} gives {}", whole, got)
    if len(case["parts"]) > 1:
        rec.non_trivial()


def gen_cost():
    v = s.integers(1, 50)
    return s.fixed_dictionaries({"size": v, "num_files": v, "frequency": v, "exp": s.integers(1, 4), "first": s.integers(0, 50), "last": s.integers(0, 50), "now": s.integers(50, 99)})


def run_cost(case, rec):
    CLOCK.now = case["now"]
    kw = {"size": float(case["size"]), "num_files": float(case["num_files"]), "frequency": float(case["frequency"]), "first_time": 1000. + case["first"], "last_time": 1000. + case["last"], "exp": case["exp"]}
    base = case["size"] * case["num_files"] / case["frequency"]
    check(close(mod.simple_cost_function(**kw), base ** case["exp"]), "the simple cost of {} is {}", kw, mod.simple_cost_function(**kw))
    age = (case["now"] - case["first"]) * (case["now"] - case["last"])
    check(close(float(mod.cost_function_with_time(**kw)), float((base * age) ** case["exp"])), "the cost with time of {} is {}", kw, mod.cost_function_with_time(**kw))
    rec.non_trivial()


main(
    Spec("C43", "caches", "hits and replacements happened", 1500, 30000, gen_cache(), run_cache),
    Spec("C43", "driver", "more than one window and more than one cache", 250, 5000, gen_driver(), run_driver),
    Spec("C43", "store", "results stored in parts", 60, 500, gen_store(), run_store),
    Spec("C43", "costs", "every case", 100, 1000, gen_cost(), run_cost),
)
