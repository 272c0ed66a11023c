"""C44: the plot server shows the points it was sent, also after a restart."""
import contextlib
import gzip
import io
import json
import os
import re
import sys
import types

from hypothesis import strategies as s

from common import REPO, Spec, check, main, scratch, stub

class Bar:
    def __init__(self, it=None, *_, **__):
        self.it = it

    def __iter__(self):
        return iter(self.it)


stub("tqdm", tqdm=Bar)
stub("pandas")


class Request:
    args, data = {}, b""

    def get_data(self, *_, **__):
        return self.data


REQUEST = Request()


class App:
    """A web application whose routes are called in place of requests over the network."""

    session = None

    def __init__(self, *_, **kw):
        self.routes = []

    def route(self, rule, methods=("GET",), **_):
        def register(f):
            pattern = re.sub(r"<(?:(\w+):)?(\w+)>", lambda m: "(?P<{}>{})".format(m.group(2), {"int": r"\d+", "float": r"\d+\.\d+", "path": r".+"}.get(m.group(1), r"[^/]+")), rule)
            kinds = {m[1]: {"int": int, "float": float}.get(m[0], str) for m in re.findall(r"<(?:(\w+):)?(\w+)>", rule)}
            self.routes.append((re.compile(pattern + "$"), set(methods), f, kinds))
            return f
        return register

    def __getattr__(self, name):
        if name in ("get", "put", "post", "delete"):
            return lambda rule, **kw: self.route(rule, methods=(name.upper(),))
        raise AttributeError(name)

    def call(self, method, path, data=b"", **args):
        for pattern, methods, f, kinds in self.routes:
            m = pattern.match(path)
            if m and method in methods:
                REQUEST.args, REQUEST.data = args, data
                return f(**{k: kinds[k](v) for k, v in m.groupdict().items()})
        raise AssertionError("no route for {} {}".format(method, path))

    def send_static_file(self, name):
        return SAVED[os.path.join("plot_server_app", name)]

    def run(self, *_, **__):
        App.session(self)


class Figure:
    def __init__(self, **kw):
        self.options, self.lines, self.renderers, self.bars = kw, [], [], []
        self.legend = types.SimpleNamespace()

    def line(self, x=None, y=None, legend=None, color=None, legend_label=None, line_color=None, **_):
        self.lines.append({"x": list(x), "y": list(y), "name": legend or legend_label, "color": color or line_color})

    def vbar(self, x=None, top=None, color=None, fill_color=None, **_):
        self.bars.append((list(x), [float(v) for v in top], color or fill_color))

    def quad(self, top=None, left=None, right=None, **_):
        self.bars.append(([float(v) for v in left], [float(v) for v in right], [float(v) for v in top]))

    def add_layout(self, what, *_):
        self.renderers.append(what)


SCRIPT = os.path.join(REPO, "scripts", "DataAnalysis", "plot_server.py")
with open(SCRIPT) as script:
    CODE = compile(script.read(), SCRIPT, "exec")
SAVED, OUT = {}, [None]
stub("flask", Flask=App, request=REQUEST, jsonify=lambda *a, **kw: a[0] if a else kw)
stub("bokeh")
stub("bokeh.layouts", column=lambda *a, **_: [y for x in a for y in (x if isinstance(x, list) else [x])], row=lambda *a, **_: [y for x in a for y in (x if isinstance(x, list) else [x])])
stub("bokeh.models", Span=lambda **kw: types.SimpleNamespace(**kw))
stub("bokeh.palettes", Category10={n: ["color{}".format(i) for i in range(n)] for n in range(3, 11)})
stub("bokeh.transform")
stub("bokeh.plotting", figure=lambda **kw: Figure(**kw), output_file=lambda path, *_, **__: OUT.__setitem__(0, path), save=lambda fig, *_, **__: SAVED.__setitem__(OUT[0], fig))

NAMES = ["LRUCache_1T", "LRUCache_2T", "LRUCache_1T_cC", "WeightedCache_1T_simple_f_1e", "WeightedCache_2T_simple_f_2e", "WeightedCache_1T_with_time_f_1e_cC", "WeightedCache_1T_simple_f_2e_cC_cW",
         "WeightedCache_3T_simple_f_1e"]
TABLES = ["hit_rate", "weighted_hit_rate", "hit_over_miss", "size", "written_data", "read_on_hit"]
PLOTS = TABLES + ["ratio", "diff", "diff_compare", "written_data_compare", "read_on_hit_compare", "hit_rate_compare"]


def gen():
    name = s.integers(0, len(NAMES) - 1)
    value = s.integers(0, 40).map(lambda x: x / 4)
    points = s.lists(value, max_size=6)
    update = s.tuples(s.just("update"), name, s.sampled_from([0, 0, 0, 1, 1, 2]), s.lists(s.tuples(value, value), min_size=0, max_size=6), points, s.booleans())
    op = s.one_of(
        update, update, update, update,
        s.tuples(s.just("insert"), name, s.sampled_from(TABLES), s.integers(0, 2), value, s.booleans()),
        s.tuples(s.just("resend"), name, s.integers(0, 2), s.integers(0, 5), value),
        s.tuples(s.just("info"), name, s.integers(0, 2), s.integers(0, 9)),
        s.tuples(s.just("plot"), s.sampled_from(PLOTS), s.sampled_from(["", "", "", "1T", "Weighted", "simple,1T", "LRU", "9T"])),
        s.tuples(s.just("plot"), s.sampled_from(PLOTS), s.just("")),
        s.tuples(s.just("restart")),
        s.tuples(s.sampled_from(["status", "status", "status", "delete"])),
    )
    return s.fixed_dictionaries({"names": s.sampled_from([2, 3, 4, 4, 5, 6, len(NAMES)]), "ops": s.one_of(s.lists(op, min_size=1, max_size=12), s.lists(op, min_size=12, max_size=40))})


class Server:
    def __init__(self):
        self.tables = {t: {} for t in TABLES}
        self.infos = {}

    def line(self, table, name, window):
        line = self.tables[table].setdefault(name, [])
        while len(line) <= window:
            line.append([])
        return line[window]


def size_of(name):
    return name.split("_")[1]


def partner(name, names):
    """The LRU caches it may be compared with."""
    lru = [n for n in names if n.startswith("LRU") and size_of(n) == size_of(name)]
    same = [n for n in lru if ("cC" in n.split("_")) == ("cC" in name.split("_"))]
    return same or lru


def flat(line):
    return [v for window in line for v in window]


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def wanted(m, plot, shown):
    """name -> the lines it may have; None where it may be missing too."""
    out = {}
    if plot in TABLES:
        return {n: [flat(v)] for n, v in m.tables[plot].items() if shown(n)}
    if plot.endswith("_compare") and plot != "diff_compare":
        table = m.tables[plot[:-len("_compare")]]
        for n in table:
            if not n.startswith("LRU") and shown(n):
                lines = [[(a - b) / b if b else 0. for a, b in zip(flat(table[n]), flat(table[p]))] for p in partner(n, table)]
                if lines:
                    out[n] = lines
        return out
    w, r = m.tables["written_data"], m.tables["read_on_hit"]
    ratio = {n: [a / b if b else 0. for a, b in zip(flat(r[n]), flat(w[n]))] for n in r}
    diff = {n: [a - b for a, b in zip(flat(r[n]), flat(w[n]))] for n in r}
    if plot == "ratio":
        return {n: [v] for n, v in ratio.items() if shown(n)}
    if plot == "diff":
        return {n: [v] for n, v in diff.items() if shown(n)}
    for n in diff:
        lines = [[a - b for a, b in zip(diff[n], diff[p])] for p in partner(n, diff)]
        if not n.startswith("LRU") and shown(n) and lines:
            out[n] = lines
    return out


LABELS = {"hit_rate": "Hit rate %", "weighted_hit_rate": "Weighted hit rate", "size": "Size (MB)", "written_data": "Written data (MB)", "written_data_compare": "Written data ratio",
          "read_on_hit": "Data read on hit (MB)", "read_on_hit_compare": "Data read on hit ratio", "ratio": "Ratio", "diff": "Diff", "diff_compare": "Diff compare"}


def see(app, m, plot, filters, rec):
    fig = app.call("GET", "/cache/plot/" + plot, filter=filters or None)
    parts = [p for p in filters.split(",") if p]

    def shown(name):
        return all(p in name for p in parts)
    want = wanted(m, plot, shown)
    got = {}
    for line in fig.lines:
        check(line["name"] not in got, "two lines of {} in the plot of {}", line["name"], plot)
        got[line["name"]] = line
        check(line["x"] == list(range(len(line["y"]))), "the points of {} in the plot of {} are at {}", line["name"], plot, line["x"])
    missing = [n for n, lines in want.items() if n not in got and any(lines)]
    check(not missing and set(got) <= set(want), "the plot of {} (filter {!r}) shows {} instead of {}", plot, filters, sorted(got), sorted(want))
    for n, line in got.items():
        check(any(near(line["y"], w) for w in want[n]), "the line of {} in the plot of {} is {} instead of {}", n, plot, line["y"], want[n])
    if len({n for t in m.tables.values() for n in t}) <= 10:
        check(len({line["color"] for line in got.values()}) == len(got), "colours of the plot of {}: {}", plot, {n: line["color"] for n, line in got.items()})
    spans = [r.location for r in fig.renderers if hasattr(r, "location")]
    if plot in TABLES or plot.endswith("_compare") or plot in ("ratio", "diff"):
        of = [plot] if plot in TABLES else ["written_data", "read_on_hit"] if plot in ("ratio", "diff", "diff_compare") else [plot[:-len("_compare")]]
        ends = [[sum(map(len, v[:i + 1])) for i in range(len(v))] for table in of for n, v in m.tables[table].items()
                if len(v) > 1 and (n in want if plot.endswith("_compare") and plot != "diff_compare" else shown(n))]
        check(fig.options.get("x_axis_label") == "Requests" and fig.options.get("y_axis_label") == LABELS.get(plot, fig.options.get("y_axis_label")), "axes of the plot of {}: {!r}", plot, fig.options)
        if plot == "hit_rate":
            check(tuple(fig.options["y_range"]) == (0, 100), "hit rates are shown over {!r}", fig.options["y_range"])
        check(spans in ends if ends else not spans, "the windows in the plot of {} end at {}, not {}", plot, spans, ends)
    if got:
        rec.cls("compared" if plot.endswith("_compare") else "plotted")
    if parts:
        rec.cls("filtered")
    return bool(got)


def run(case, rec):
    m = Server()
    ops = [list(o) for o in case["ops"]]
    names = NAMES[:case["names"]]
    seen = [0]
    done = [False]

    def session(app):
        while ops:
            op, *args = ops.pop(0)
            rec.cls(op)
            if op == "restart":
                return
            name = names[args[0] % len(names)] if op in ("update", "insert", "resend", "info") else ""
            if op == "update":
                window, pairs, points, all_tables = args[1:]
                start = len(m.line("written_data", name, window))
                send = {"written_data": [(start + i, a) for i, (a, _) in enumerate(pairs)], "read_on_hit": [(start + i, b) for i, (_, b) in enumerate(pairs)]}
                m.line("written_data", name, window).extend(a for a, _ in pairs)
                m.line("read_on_hit", name, window).extend(b for _, b in pairs)
                if not pairs:  # no point creates nothing
                    for t in ("written_data", "read_on_hit"):
                        trim(m, t, name)
                for t in ("hit_rate", "size") if all_tables else ("hit_rate",):
                    start = len(m.line(t, name, window))
                    send[t] = [(start + i, v) for i, v in enumerate(points)]
                    m.line(t, name, window).extend(points)
                    if not points:
                        trim(m, t, name)
                app.call("PUT", "/cache/update/{}/{}".format(name, window), data=gzip.compress(json.dumps(send).encode()))
            elif op == "insert":
                table, window, value, again = args[1:]
                if table in ("written_data", "read_on_hit"):  # these two have the same points
                    table = "size"
                line = m.line(table, name, window)
                idx = len(line) - 1 if again and line else len(line)
                line[idx:idx + 1] = [value]
                app.call("POST", "/cache/{}/{}/{}/{}/{}".format(table, name, window, idx, float(value)))
            elif op == "resend":
                window, idx, value = args[1:]
                line = m.line("read_on_hit", name, window)
                if idx < len(line):
                    line[idx] = value
                    rec.cls("sent-again")
                    app.call("PUT", "/cache/update/{}/{}".format(name, window), data=gzip.compress(json.dumps({"read_on_hit": [(idx, value)]}).encode()))
                trim(m, "read_on_hit", name)
            elif op == "info":
                window, value = args[1:]
                infos = m.infos.setdefault(name, [])
                window = min(window, len(infos))
                infos[window:window + 1] = [{"cache": {"f": value}, "weights": {"f": value}}]
                app.call("PUT", "/cache/info/{}/{}".format(name, window), data=gzip.compress(json.dumps(infos[window]).encode()))
            elif op == "plot":
                seen[0] += see(app, m, args[0], args[1], rec)
            elif op == "status":
                got = app.call("GET", "/cache/service/status")
                for key, table in (("num_cache_hit_rates", "hit_rate"), ("num_cache_sizes", "size"), ("num_cache_written_data", "written_data")):
                    check(got[key] == len(m.tables[table]), "{} is {} but the caches of the table are {}", key, got[key], list(m.tables[table]))
                check(got["num_cache_window_info"] == len(m.infos), "the infos are of {} caches instead of {}", got["num_cache_window_info"], len(m.infos))
                for key, table in (("len_window_cache_hit_rate", "hit_rate"), ("len_window_cache_size", "size"), ("len_window_cache_written_data", "written_data")):
                    check(sorted(got[key]) == sorted("[{}][window {}][len {}]".format(n, i, len(w)) for n, line in m.tables[table].items() for i, w in enumerate(line)), "{} is {} but the table is {}", key, got[key],
                          m.tables[table])
            elif op == "delete":
                app.call("DELETE", "/cache/plot")
                m.__init__()
        for plot in PLOTS:
            see(app, m, plot, "", rec)
        done[0] = True

    App.session = staticmethod(session)
    with scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            while not done[0]:
                with contextlib.redirect_stdout(io.StringIO()):
                    exec(CODE, {"__name__": "__main__", "__file__": SCRIPT})
        finally:
            os.chdir(cwd)
    if seen[0] and {"update", "restart"} <= rec.classes:
        rec.non_trivial()


def trim(m, table, name):
    """Windows that were only looked for are not there."""
    line = m.tables[table].get(name, [])
    while line and not line[-1]:
        line.pop()
    if not line:
        m.tables[table].pop(name, None)


def gen_info():
    stat = s.tuples(s.integers(0, 400), s.integers(0, 5), s.integers(0, 5), s.integers(0, 5), s.integers(0, 5), s.integers(1, 90), s.booleans(), s.booleans())
    return s.fixed_dictionaries({
        "files": s.lists(stat, min_size=1, max_size=8),
        "caches": s.lists(s.sampled_from([n for n in NAMES if n.startswith("W")]), min_size=1, max_size=3, unique=True),
        "windows": s.integers(1, 3), "window": s.integers(0, 2), "again": s.booleans(),
        "filter": s.sampled_from(["", "", "T", "1T", "2T"]),
    })


def info_of(case, name, window):
    """The files of a cache in a window: each differs a little from the others."""
    k = (NAMES.index(name) if name in NAMES else 9) + 3 * window
    lru = name.startswith("LRU")
    stats, cache, weights = {}, {}, {}
    for i, (size, hits, miss, lru_hits, lru_miss, weight, held, lru_held) in enumerate(case["files"]):
        f = "f{}".format(i)
        h, m = (lru_hits, lru_miss) if lru else (hits * (1 + k % 2), miss + (k % 3 if miss else 0))
        stats[f] = {"size": float(size), "totReq": h + m, "nHits": h, "nMiss": m}
        weights[f] = float(weight + (k * (i + 1)) % 7)
        if (lru_held if lru else held) != (k % 4 == 3):
            cache[f] = float(size)
    return {"cache": cache, "weights": None if lru else weights, "stats": stats}


def check_hist(what, bars, values):
    """values: (size, number) of each file"""
    left, right, top = bars
    total = sum(n for _, n in values)
    sizes = [v for v, _ in values]
    check(len(left) == len(right) == len(top) and left[0] <= min(sizes) and right[-1] >= max(sizes) and left[1:] == right[:-1], "{}: bins from {} to {} for sizes {}", what, left, right, sizes)
    for lo, hi, t in zip(left, right, top):
        share = t * total if total else t
        low, high = sum(n for v, n in values if lo < v < hi), sum(n for v, n in values if lo <= v <= hi)
        check(low - 1e-6 <= share <= high + 1e-6, "{}: the bin from {} to {} has {} of {}, not {} to {}", what, lo, hi, share, total, low, high)
    check(abs(sum(top) - (1. if total else 0.)) < 1e-6, "{}: the bins have {} of the whole, for {}", what, sum(top), values)


def run_info(case, rec):
    names = case["caches"] + sorted({"LRUCache_" + size_of(n) for n in case["caches"]})
    window = case["window"] % case["windows"]
    shown = [n for n in names if case["filter"] in n]

    def session(app):
        for w in range(case["windows"]):
            for n in names:
                if case["again"]:
                    app.call("PUT", "/cache/info/{}/{}".format(n, w), data=gzip.compress(json.dumps({"cache": {}, "weights": {}, "stats": {}}).encode()))
                app.call("PUT", "/cache/info/{}/{}".format(n, w), data=gzip.compress(json.dumps(info_of(case, n, w)).encode()))
        figures = app.call("GET", "/cache/plot/info/{}".format(window), filter=case["filter"] or None)
        weighted = [n for n in shown if n.startswith("W")]
        check(len(figures) == 6 * len(weighted), "{} figures for {}", len(figures), weighted)
        for at in range(0, len(figures), 6):
            group = figures[at:at + 6]
            name = next((n for n in weighted if any("File in " + n + " " in f.options["title"] for f in group)), None)
            check(name is not None, "the figures {} are of no cache of {}", [f.options["title"] for f in group], weighted)
            weighted.remove(name)
            own, lru = info_of(case, name, window), info_of(case, "LRUCache_" + size_of(name), window)
            weights = own["weights"]
            for fig, held in zip(group[:2], (own["cache"], lru["cache"])):
                (x, all_, _), (x2, in_, color) = fig.bars
                check(x == x2 == list(fig.options["x_range"]) and sorted(x) == sorted(weights), "{}: bars of {} instead of {}", name, x, sorted(weights))
                check([weights[f] for f in x] == sorted(weights.values(), reverse=True), "{}: the files are not in the order of their weights: {} of {}", name, x, weights)
                check(all_ == [weights[f] for f in x] and in_ == [weights[f] if f in held else 0. for f in x], "{}: the bars of {} are {} with {}, held {}", name, x, all_, in_, sorted(held))
            hist = {}
            for fig in group[2:]:
                hist.setdefault(("hit" if "hits" in fig.options["title"] else "miss"), []).append(fig)
            check(len(hist) == 2 and all(len(v) == 2 for v in hist.values()), "the figures of {} are {}", name, [f.options["title"] for f in group])
            for what, key in (("hit", "nHits"), ("miss", "nMiss")):
                for fig, info in zip(hist[what], (own, lru)):
                    check_hist("{} of {}".format(what, name), fig.bars[0], [(v["size"], v[key]) for v in info["stats"].values()])
        check(not weighted, "no figures of {}", weighted)

    App.session = staticmethod(session)
    with scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                exec(CODE, {"__name__": "__main__", "__file__": SCRIPT})
        finally:
            os.chdir(cwd)
    if len(case["files"]) > 1 and any(n.startswith("W") for n in shown):
        rec.non_trivial()


main(Spec("C44", "info", "two or more files, shown", 250, 4000, gen_info(), run_info),
     Spec("C44", "server", "points were sent, plotted, and a restart happened", 1200, 40000, gen(), run))
