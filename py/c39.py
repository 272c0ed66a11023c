"""C39: the figures the Probe draws of a dataset."""
import io
import math
import os
import random
import sys
import types
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as s

from common import REPO, Spec, check, load, main, scratch, stub, stub_probe

sys.path.insert(0, os.path.join(REPO, "Probe"))
sys.path.insert(0, os.path.join(REPO, "datasets"))
DRAWN = stub_probe()
pd = sys.modules["pandas"]
stats = load("probe.plotter.stats")
loaders = load("probe.loaders")
analyzer = load("probe.analyzer.__main__")
bound = load("add_hit_upper_bound")

DAY = 86400
START = 1514764800
MB, GB = 1024 ** 2, 1024 ** 3
TYPES = ["data", "mc", "data", "mc", "data", "relval", "user"]
FTYPES = ["AOD", "MINIAOD", "GEN-SIM", "RAW"]
COLUMNS = ["Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "JobStart", "NumCPU", "WrapWC", "WrapCPU", "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime",
           "IOTime", "reqDay", "Region", "Campain", "Process"]
SUBPLOTS, PLOTS = [], []


class Drawer:
    """One place to draw in, and the legends given to it."""

    def __init__(self):
        self.legends = []

    def legend(self, *args, **kw):
        self.legends.append(kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *_, **__: None


def subplots(nrows=1, ncols=1, **_):
    fig = stats.plt.figure()
    axes = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            axes[i, j] = Drawer()
    SUBPLOTS.append((fig, axes))
    return fig, axes[0, 0] if axes.size == 1 else axes[0] if nrows == 1 else axes


def plotted(series, kw):
    ax = kw.get("ax")
    PLOTS.append(types.SimpleNamespace(series=series, kw=kw, ax=ax, legends_before=len(ax.legends) if isinstance(ax, Drawer) else 0))
    return ax if ax is not None else Drawer()


pd.plot_hook = plotted
figure_of_plt = stats.plt.figure


class Plt:
    """matplotlib.pyplot with axes that can be told apart."""
    subplots = staticmethod(subplots)
    figure = staticmethod(lambda *a, **k: figure_of_plt(*a, **k))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return DRAWN.named("matplotlib.pyplot")(name)


stats.plt = Plt()


def clear():
    for x in (DRAWN.calls, DRAWN.made, SUBPLOTS, PLOTS):
        del x[:]


def quiet(f, *a, **k):
    out = io.StringIO()
    with redirect_stdout(out):
        f(*a, **k)
    return out.getvalue()


def close(a, b):
    a, b = float(a), float(b)
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


def number(v):
    return v is not None and not math.isnan(float(v))


# --- records -----------------------------------------------------------------

def make_days(case):
    """The records of each day, in the order of the days."""
    res, size = [], {}
    for n, d in enumerate(case["days"]):
        day = START + DAY * (n + sum(x["gap"] for x in case["days"][:n + 1]))
        rows = []
        for r in d["reqs"]:
            f, at = r["f"], case["salt"] + r["f"]
            mb = size.setdefault(f, case["sizes"][f % len(case["sizes"])])
            rows.append({
                "Filename": f"/store/{TYPES[at % len(TYPES)]}/run/{FTYPES[at % len(FTYPES)]}/{f}.root", "SiteName": f"T{1 + r['s'] % 3}_{['IT', 'US', 'DE'][r['s'] % 3]}_{r['s']}", "UserID": r["u"], "TaskID": r["t"], "TaskMonitorID": r["t"],
                "JobID": r["j"], "Protocol": "Local", "JobExecExitCode": 0 if r["ok"] else 1, "JobStart": day * 1000, "NumCPU": 1, "WrapWC": 3600.0, "WrapCPU": 1800.0, "Size": float(mb * MB), "DataType": TYPES[at % len(TYPES)],
                "FileType": FTYPES[(at // 2 + r["f"]) % len(FTYPES)], "JobLengthH": 1.0, "JobLengthM": 60.0, "JobSuccess": r["ok"], "CPUTime": 1.0, "IOTime": 1.0, "reqDay": day, "Region": "IT", "Campain": "c", "Process": "p"})
        res.append(rows)
    return res


def in_sequence(case):
    """The records of a dataset whose days may come in any order."""
    days = make_days(case)
    if case["mix"]:
        random.Random(case["mix"]).shuffle(days)
    return [r for d in days for r in d]


def by_day(rows):
    """As the command sorts them before it draws."""
    return sorted(rows, key=lambda r: r["reqDay"])


def frame(rows):
    df = pd.DataFrame([tuple(r[c] for c in COLUMNS) for r in rows], columns=COLUMNS)
    df["day"] = pd.to_datetime(df.reqDay, unit="s")
    return df


def kept(rows):
    return [r for r in rows if r["DataType"] in ("data", "mc") and r["JobSuccess"]]


def first_seen(rows):
    """Requests, first requests, and the bytes of both: what a cache without limits meets."""
    seen, res = set(), [0, 0, 0.0, 0.0]
    for r in rows:
        res[0] += 1
        res[2] += r["Size"]
        if r["Filename"] not in seen:
            seen.add(r["Filename"])
            res[1] += 1
            res[3] += r["Size"]
    return res


def mean(xs):
    return sum(xs) / len(xs)


def write(path, rows):
    pd.DataFrame([tuple(r[c] for c in COLUMNS) for r in rows], columns=COLUMNS).to_csv(path, index=False)


def command(args):
    old = sys.argv
    sys.argv = ["analyzer"] + args
    try:
        return quiet(analyzer.main)
    finally:
        sys.argv = old


def date(sec):
    return pd.to_datetime(sec, unit="s")


def text(day):
    return str(day).replace("T", " ")[:19]


# --- upper limits ------------------------------------------------------------

def check_limits(days, where):
    want = [(d[0]["reqDay"], first_seen(d)) for d in days if d]
    lines = {}
    for m in DRAWN.made:
        if m.name.endswith(".add_trace()"):
            t = m.args[0].kw
            check(t["name"] not in lines, "{}: two lines called {!r}", where, t["name"])
            lines[t["name"]] = (list(t["x"]), list(t["y"]))
    series = {"Hit rate": [100 * (n - f) / n for _, (n, f, _, _) in want], "Read on hit": [100 * (b - w) / b for _, (_, _, b, w) in want], "Size (TB)": [w / 1024 ** 4 for _, (_, _, _, w) in want]}
    for k in list(series):
        series["Avg. " + k] = [mean(series[k])] * len(want)
    check(set(lines) == set(series), "{}: lines {!r}", where, sorted(lines))
    for k, y in series.items():
        x, got = lines[k]
        check([text(v) for v in x] == [text(date(d)) for d, _ in want], "{}: days {!r} of {!r}, the requests are of {!r}", where, x, k, want)
        check(len(got) == len(y) and all(map(close, got, y)), "{}: {!r} is {!r} instead of {!r}", where, k, got, y)


def delivered():
    """What was shown or written, and where."""
    out = []
    for name, args, kw in DRAWN.calls:
        kind = name.rsplit(".", 1)[-1]
        if kind in ("show", "output_file", "save", "export_png"):
            out.append((kind,) + ((kw.get("filename") or args[-1],) if kind in ("output_file", "export_png") else ()))
    return out


OUTPUTS = {"html": [("output_file", "out.html"), ("save",)], "png": [("export_png", "out.png")], "show": [("show",)]}


def run_limits(case, rec):
    days = make_days(case)
    good = [kept(d) for d in days]
    frames = [frame(d) for d in days]
    if any(good):
        clear()
        quiet(stats.plot_global_upper_limits, iter(frames) if case["iter"] else list(frames), output_filename="out", output_type=case["out"])
        check_limits(good, "limits")
        names = [m.args[0] for m in DRAWN.made if m.name.endswith(".write_html()")]
        check(names == (["out.html"] if case["out"] == "html" else []), "written {!r}", names)
    for kw in ({"concatenated": True}, {"data_generator": False}):
        try:
            quiet(stats.plot_global_upper_limits, list(frames), **kw)
        except SystemExit as e:
            check(e.code not in (0, None), "the error exits with {!r}", e.code)
        else:
            check(False, "limits drawn with {!r}", kw)
    # a dataset in folders: the same limits for each file, printed; all its types of data count
    with scratch() as d:
        want = {}
        os.mkdir(os.path.join(d, "data"))
        os.mkdir(os.path.join(d, "other"))
        for i, rows in enumerate(days):
            ok = [r for r in rows if r["JobSuccess"]]
            if not ok:
                continue
            folder = "other" if case["days"][i]["other"] else "data"
            path = os.path.join(d, folder, f"results_2018-{i + 1:02d}.csv.gz")
            write(path, rows)
            n, f, b, w = first_seen(ok)
            want[os.path.realpath(path)] = (100 * (n - f) / n, 100 * (b - w) / b)
        old = os.getcwd()
        os.chdir(d)
        try:
            out = quiet(bound.main)
            got = {}
            for line in out.splitlines()[1:]:
                name, hit, read = line.rsplit(" ", 2)
                check(name not in got, "{!r} printed twice", name)
                got[os.path.realpath(name)] = (float(hit), float(read))
            check(set(got) == set(want), "printed {!r}, the files are {!r}", out, sorted(want))
            for k in want:
                check(all(map(close, got[k], want[k])), "{}: {!r} instead of {!r}", k, got[k], want[k])
            if any(good) and len(want) == len(days):
                clear()
                for i, rows in enumerate(days):
                    os.makedirs("all", exist_ok=True)
                    write(os.path.join("all", f"results_2018-01-{i + 1:02d}.csv" + (".gz" if case["iter"] else "")), rows)
                command(["all", "upper_limits", "--concat", "false", "--generate", "true" if case["iter"] else "false"])
                check_limits(good, "command")
                rec.cls("command")
        finally:
            os.chdir(old)
    if any(len(d) > len({r["Filename"] for r in d}) > 1 for d in good):
        rec.non_trivial()
    if any(good) and not all(good):
        rec.cls("empty-day")


# --- daily -------------------------------------------------------------------

def spans():
    """Vertical lines by colour: of each figure with any, its positions."""
    res = []
    for m in DRAWN.made:
        if m.name.endswith(".renderers.extend()"):
            res.append((m.owner.owner if m.owner is not None else None, [(x.kw["line_color"], x.kw["location"]) for x in m.args[0]]))
    return res


def figures():
    """title -> what is drawn in the figure: (kind, args, kw)."""
    res = {}
    for m in DRAWN.made:
        if m.name.endswith("figure()") and "title" in m.kw:
            check(m.kw["title"] not in res, "two figures called {!r}", m.kw["title"])
            res[m.kw["title"]] = (m, [])
    for m in DRAWN.made:
        for _, (fig, calls) in res.items():
            if m.owner is fig:
                calls.append((m.name.rsplit(".", 1)[1].rstrip("()"), m.args, m.kw))
    return res


def history(rows, every):
    """The requests of each file in each period between two restarts, with where days and periods begin."""
    periods, starts, restarts, last, n = [{}], [], [], None, 0
    for at, r in enumerate(rows, 1):
        if r["reqDay"] != last:
            if every > 0 and last is not None and n % every == 0:
                restarts.append(at)
                periods.append({})
            n += 1
            starts.append(at)
            last = r["reqDay"]
        periods[-1].setdefault(r["Filename"], []).append((at, r))
    return periods, starts, restarts


def growing(vals):
    seen, res = set(), []
    for v in vals:
        seen.add(v)
        res.append(len(seen))
    return res


def check_daily(rows, every, where):
    periods, starts, restarts = history(rows, every)
    figs = figures()
    more, once = [], []
    for p in periods:
        for f, reqs in p.items():
            at = [n for n, _ in reqs]
            line = {"x": at, "req": list(range(1, len(at) + 1)), "users": growing(r["UserID"] for _, r in reqs), "sites": growing(r["SiteName"] for _, r in reqs),
                    "delta": [0] + [b - a for a, b in zip(at, at[1:])], "size": [int(r["Size"] / MB) for _, r in reqs]}
            (more if len(at) > 1 else once).append(line)

    def drawn(title, kind):
        check(title in figs, "{}: no figure {!r} among {!r}", where, title, sorted(figs))
        calls = [c for c in figs[title][1] if c[0] == kind]
        check(len(calls) == 1, "{}: {} times {} in {!r}", where, len(calls), kind, title)
        return calls[0]

    def points(title, want):
        _, args, kw = drawn(title, "scatter")
        x, y = (list(args[0]), list(args[1])) if args else ([], [])
        check(sorted(zip(x, y)) == sorted(want) and len(x) == len(y), "{}: {!r} draws {!r} instead of {!r}", where, title, sorted(zip(x, y)), sorted(want))

    for title, k in (("Num. Requests", "req"), ("Num. Users", "users"), ("Num. Sites", "sites")):
        _, _, kw = drawn(title, "multi_line")
        got = sorted((list(x), list(y)) for x, y in zip(kw["xs"], kw["ys"]))
        want = sorted((m["x"], m[k]) for m in more)
        check(got == want and len(kw["xs"]) == len(kw["ys"]), "{}: {!r} draws {!r} instead of {!r}", where, title, got, want)
    points("Delta times", [p for m in more for p in zip(m["x"], m["delta"])])
    points("File sizes", [p for m in more for p in zip(m["x"], m["size"])])
    points("1 req. file sizes", [p for m in once for p in zip(m["x"], m["size"])])
    points("correlation num. reqs. and file sizes", [(m["req"][-1], m["size"][-1]) for m in more + once])
    points("correlation num. reqs. and num. users", [(m["req"][-1], m["users"][-1]) for m in more + once])
    points("correlation num. reqs. and num. sites", [(m["req"][-1], m["sites"][-1]) for m in more + once])
    days = starts + [len(rows) + 1]
    have = spans()
    titles = ["Num. Requests", "Num. Users", "Num. Sites", "File sizes", "1 req. file sizes"]
    for t in titles:
        mine = [x for f, xs in have if f is figs[t][0] for x in xs]
        check(sorted(x for c, x in mine if c == "lightgray") == days, "{}: days at {!r} instead of {!r}", where, mine, days)
        check(sorted(x for c, x in mine if c == "purple") == restarts, "{}: restarts at {!r} instead of {!r}", where, mine, restarts)
    return periods, more, once


def run_daily(case, rec):
    rows = in_sequence(case)
    if not rows:
        return
    df = frame(rows)
    clear()
    out = sorted(OUTPUTS)[case["salt"] % 3]
    quiet(stats.plot_daily_stats, df, output_filename="out", output_type=out, reset_stat_days=case["every"])
    check(delivered() == OUTPUTS[out], "{} gives {!r}", out, delivered())
    periods, more, once = check_daily(rows, case["every"], "daily")
    if more and once:
        rec.non_trivial()
    if len(periods) > 2:
        rec.cls("restarts")
    if case["command"]:
        with scratch() as d:
            path = os.path.join(d, "data.csv" + (".gz" if case["salt"] % 2 else ""))
            write(path, rows)
            clear()
            try:
                command([path, "dailystats", "--output-type", "html", "--output-filename", os.path.join(d, "out"), "--reset-stat-days", str(case["every"])])
            except pd.Unsupported:
                pass  # prints the times of the jobs after the figures are drawn
            check_daily(by_day(rows), case["every"], "command")
            rec.cls("command")


# --- weekly ------------------------------------------------------------------

WEEK = {"General week stats": {"num_users": "UserID", "num_sites": "SiteName", "num_jobs": "JobID", "num_tasks": "TaskID"}, "Request stats": {"num_files": "Filename", "num_requests": None}, "Average request stats": {}}
LEGENDS = {"num_users": "Num. users", "num_sites": "Num. sites", "num_jobs": "Num. jobs", "num_tasks": "Num. tasks", "num_files": "Num. files", "num_requests": "Num. requests",
           "num_reqXfile": "Avg. num. req. per file", "num_reqXfile_reqGr1": "Avg. num. req. per file (files > 1 req.)"}


def check_weekly(rows, where):
    days = []
    for r in rows:
        if r["reqDay"] not in days:
            days.append(r["reqDay"])
    weeks = [[r for r in rows if r["reqDay"] in days[i:i + 7]] for i in range(0, len(days) - 6, 7)]
    sources = [m for m in DRAWN.made if m.name.endswith("ColumnDataSource()")]
    figs = figures()
    check(set(figs) == set(WEEK), "{}: figures {!r}", where, sorted(figs))
    for title in WEEK:
        bars = [kw for n, a, kw in figs[title][1] if n == "vbar"]
        check(bars and all(b["source"] in sources for b in bars), "{}: {!r} has the bars {!r}", where, title, bars)
        want = {}
        for k, c in WEEK[title].items():
            want[k] = [len({r[c] for r in w}) if c else len(w) for w in weeks]
        if title.startswith("Average"):
            counts = []
            for w in weeks:
                n = {}
                for r in w:
                    n[r["Filename"]] = n.get(r["Filename"], 0) + 1
                counts.append(list(n.values()))
            want["num_reqXfile"] = [mean(c) for c in counts]
            want["num_reqXfile_reqGr1"] = [mean([x for x in c if x > 1]) if max(c) > 1 else float("nan") for c in counts]
        check({b["legend_label"]: b["top"] for b in bars} == {LEGENDS[k]: k for k in want}, "{}: {!r} has the bars {!r}", where, title, [(b["legend_label"], b["top"]) for b in bars])
        for b in bars:
            src = b["source"].kw["data"]
            check(list(src["weeks"]) == [f"week {i + 1}" for i in range(len(weeks))], "{}: weeks {!r} of {}", where, src["weeks"], len(weeks))
            got = list(src[b["top"]])
            check(len(got) == len(want[b["top"]]) and all(close(x, y) or not (number(x) or number(y)) for x, y in zip(got, want[b["top"]])), "{}: {} is {!r} instead of {!r}", where, b["top"], got, want[b["top"]])
    return weeks


def run_weekly(case, rec):
    rows = in_sequence(case)
    if not rows:
        return
    clear()
    out = sorted(OUTPUTS)[case["salt"] % 3]
    quiet(stats.plot_week_stats, frame(rows), output_filename="out", output_type=out)
    check(delivered() == OUTPUTS[out], "{} gives {!r}", out, delivered())
    weeks = check_weekly(rows, "weekly")
    if len(weeks) > 1:
        rec.non_trivial()
    if case["command"]:
        with scratch() as d:
            path = os.path.join(d, "data.csv" + (".gz" if case["salt"] % 2 else ""))
            write(path, rows)
            clear()
            command([path, "weekstats", "--output-type", "html", "--output-filename", os.path.join(d, "out")])
            check_weekly(by_day(rows), "command")
            rec.cls("command")


# --- global ------------------------------------------------------------------

COUNTS = {"Files": "Filename", "Jobs": "JobID", "Tasks": "TaskID", "Users": "UserID", "Sites": "SiteName"}


def check_global(days, concatenated, where):
    """days: the kept records of each day."""
    days = [d for d in days if d]
    rows = [r for d in days for r in d]
    at = [text(date(d[0]["reqDay"])) for d in days]
    want = {k: [len({r[c] for r in d}) for d in days] for k, c in COUNTS.items()}
    want["Requests"] = [len(d) for d in days]
    per_file = []
    for d in days:
        n = {}
        for r in d:
            n[r["Filename"]] = n.get(r["Filename"], 0) + 1
        per_file.append(list(n.values()))
    want["Avg. num. req. x file"] = [mean(c) for c in per_file]
    more = {x: mean([n for n in c if n > 1]) for x, c in zip(at, per_file) if max(c) > 1}
    lines = {}
    for p in PLOTS:
        if p.kw.get("kind") == "line":
            check(p.series.name not in lines, "{}: two lines called {!r}", where, p.series.name)
            lines[p.series.name] = {text(k): v for k, v in p.series.items()}
            check(len(lines[p.series.name]) == len(p.series), "{}: a day drawn twice in {!r}", where, p.series.name)
    check(set(lines) == set(want) | {"Avg. num. req. x file (> 1)"}, "{}: lines {!r}", where, sorted(map(str, lines)))
    for k, y in want.items():
        check(set(lines[k]) == set(at) and all(close(lines[k][x], v) for x, v in zip(at, y)), "{}: {!r} is {!r} instead of {!r}", where, k, lines[k], dict(zip(at, y)))
    got = {x: v for x, v in lines["Avg. num. req. x file (> 1)"].items() if number(v)}
    check(set(got) == set(more) and all(close(got[x], more[x]) for x in more), "{}: averages {!r} instead of {!r}", where, got, more)
    violins = [kw for n, _, kw in DRAWN.calls if n.endswith(".violinplot")]
    check(len(violins) == 1, "{}: {} figures of the sizes", where, len(violins))
    v = violins[0]
    have = sorted((m, t, x) for m, t, x in zip(v["data"][v["x"]], v["data"][v["hue"]], v["data"][v["y"]]))
    sizes = sorted((date(r["reqDay"]).month, r["DataType"], r["Size"] / GB) for r in rows if r["Size"] < 10 * GB)
    check((v["x"], v["hue"]) == ("month", "DataType") and len(have) == len(sizes) and all(a[:2] == b[:2] and close(a[2], b[2]) for a, b in zip(have, sizes)), "{}: sizes {!r} instead of {!r}", where, have, sizes)
    pies = [p for p in PLOTS if p.kw.get("kind") == "pie"]
    check(len(pies) == 2 and pies[0].ax is not pies[1].ax and all(isinstance(p.ax, Drawer) for p in pies), "{}: {} pies", where, len(pies))
    for p, c in zip(pies, ("DataType", "FileType")):
        n = {}
        for r in rows:
            n[r[c]] = n.get(r[c], 0) + 1
        have = {k: int(x) for k, x in p.series.items()}
        if c == "FileType":  # the small shares may be left out
            check(all(n[k] <= 0.06 * len(rows) for k in set(n) - set(have)), "{}: {!r} of {!r} drawn", where, have, n)
            n = {k: x for k, x in n.items() if k in have}
        check(have == n, "{}: {} drawn as {!r} instead of {!r}", where, c, have, n)
        labels = [list(x["labels"]) for x in p.ax.legends if "labels" in x]
        check(labels == [[k for k, _ in p.series.items()]], "{}: slices {!r} have the legend {!r}", where, list(p.series.items()), labels)


def run_global(case, rec):
    days = make_days(case)
    good = [kept(d) for d in days]
    if not any(good):
        return
    rows = [r for d in days for r in d]
    clear()
    quiet(stats.plot_global_stats, frame(rows), "out", "png", "it", True)
    check_global(good, True, "concatenated")
    saved = sorted(m.args[0] for m in DRAWN.made if m.name.endswith(".savefig()"))
    check(saved == ["out_it_fileSizes.png", "out_it_fileTypes.png", "out_it_general.png"], "saved {!r}", saved)
    clear()
    frames = [frame(d) for d in days]
    quiet(stats.plot_global_stats, iter(frames) if case["iter"] else frames, "out", "show", "it", False)
    check_global(good, False, "day by day")
    check(delivered() == [("show",)], "shown: {!r}", delivered())
    if case["command"]:
        with scratch() as d:
            for i, x in enumerate(days):
                write(os.path.join(d, f"results_2018-01-{i + 1:02d}.csv.gz"), x or [])
            if all(days):
                for concat in ("true", "false"):
                    clear()
                    command([d, "globalstats", "--output-type", "png", "--output-filename", os.path.join(d, "out"), "--concat", concat])
                    check_global(good, concat == "true", "command with concat " + concat)
                rec.cls("command")
    if len({date(d[0]["reqDay"]).month for d in good if d}) > 1:
        rec.cls("months")
    if sum(map(bool, good)) > 1 and any(len(d) > len({r["Filename"] for r in d}) for d in good):
        rec.non_trivial()


req = s.fixed_dictionaries({"f": s.one_of(s.integers(0, 3), s.integers(0, 40)), "s": s.integers(0, 6), "u": s.integers(0, 5), "t": s.integers(0, 6), "j": s.integers(0, 9), "ok": s.sampled_from([True, True, True, False])})


def dataset(days, reqs, gaps, least=1, **more):
    d = s.fixed_dictionaries({"gap": gaps, "reqs": s.lists(req, min_size=reqs[0], max_size=reqs[1]), "other": s.booleans()})
    return s.fixed_dictionaries({"days": s.lists(d, min_size=least, max_size=days), "salt": s.integers(0, 20), "sizes": s.lists(s.one_of(s.integers(1, 4000), s.integers(1, 30000), s.sampled_from([0.25, 0.5, 1.75])), min_size=1, max_size=6),
                                 "iter": s.booleans(), "command": s.integers(0, 4).map(lambda x: x == 0), **more})


mix = s.one_of(s.just(0), s.integers(0, 9))
near = s.sampled_from([0, 0, 0, 1, 3])
far = s.sampled_from([0, 0, 0, 1, 3, 29, 31, 90])
main(Spec("C39", "UpperLimits", "upper limits drawn and printed for random days; non-trivial: a day with a repeated and another file", 400, 6000, dataset(6, (0, 12), far, out=s.sampled_from(["html", "show"])), run_limits),
     Spec("C39", "Daily", "lines of the files over random days, restarted every few days; non-trivial: files requested once and more often", 350, 6000, dataset(8, (1, 10), near, every=s.integers(0, 4), mix=mix), run_daily),
     Spec("C39", "Weekly", "weeks of random days; non-trivial: more than one whole week", 250, 4000, s.one_of(dataset(30, (1, 5), near, 14, mix=mix), dataset(30, (1, 5), near, 14, mix=mix), dataset(13, (1, 20), near, mix=mix)), run_weekly),
     Spec("C39", "Global", "daily counts, sizes and types over random days; non-trivial: two days, one with a file requested again", 250, 4000, dataset(6, (0, 12), far), run_global))
