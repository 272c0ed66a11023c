"""C38: the Probe's view of simulation results: logs, measures, tables, dashboard."""
import csv
import functools
import gzip
import io
import itertools
import math
import os
import sys
import types
from contextlib import redirect_stdout

from hypothesis import strategies as s

from common import REPO, Spec, check, inner, load, main, scratch, stub, stub_probe

sys.path.insert(0, os.path.join(REPO, "Probe"))
DRAWN = stub_probe()
stub("typer").__getattr__ = DRAWN.named("typer")
utils = load("probe.results.utils")
data = load("probe.results.data")
dashboard = load("probe.results.dashboard")
plotters = load("probe.results.plotters")
commands = load("probe.results.__main__")
pd = sys.modules["pandas"]

EVENTS = ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]
LOG = ["tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"]
REPORT = "simulation_results.csv"


def clear():
    del DRAWN.calls[:]
    del DRAWN.made[:]


def quiet(f, *a, **k):
    with redirect_stdout(io.StringIO()):
        return f(*a, **k)


def close(a, b):
    a, b = float(a), float(b)
    return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9) or (math.isnan(a) and math.isnan(b))


def traces(fig):
    """What was added to a figure: name -> (x, y)."""
    res = {}
    for m in DRAWN.made:
        if m.name.endswith(".add_trace()") and m.owner is fig:
            t = m.args[0]
            check(t.kw.get("name") not in res, "two lines called {!r}", t.kw.get("name"))
            res[t.kw.get("name")] = (list(t.kw["x"]), list(t.kw["y"]))
    return res


def title(fig):
    for m in DRAWN.made:
        if m.name.endswith(".update_layout()") and m.owner is fig and "title" in m.kw:
            return m.kw["title"]


def saved():
    """Figures saved to a file: file name -> figure."""
    return {m.args[0]: m.owner for m in DRAWN.made if m.name.endswith(".write_html()")}


# --- the log -----------------------------------------------------------------

def log_rows(case):
    """Rows as the simulator writes them: a skipped file is the last missed one."""
    rows, missed = [], None
    for n, r in enumerate(case):
        ev = r["ev"]
        row = [n // 3, ev, float(r["n"] * 10), r["n"] / 2, r["f"], r["mb"] / 4, r["n"], r["f"] + n]
        if ev in EVENTS:
            row[4:] = [-1, -1.0, -1, -1]
        elif ev in ("HIT", "MISS", "REDIRECT"):
            row[5:] = [-1.0, -1, -1]
        if ev == "MISS":
            missed = r["f"]
        elif ev == "SKIP":
            if missed is None:
                continue
            row[4], missed = missed, None
        rows.append(row)
    return rows


def evaluate(rows):
    """One entry per event of removal: its own row, what it removed and the misses up to the next one."""
    res, cur = [], None
    for row in rows:
        ev = row[1]
        if ev in EVENTS:
            cur = {"tick": row[0], "event": ev, "size": row[2], "occupancy": row[3], "deleted": [], "kept": [], "after": [], "open": True}
            res.append(cur)
        elif cur is not None:
            if cur["open"] and ev in ("KEEP", "DELETE"):
                cur["deleted" if ev == "DELETE" else "kept"].append(row)
            else:
                cur["open"] = False
                cur["after"].append(row)
    for e in res:
        files = {r[4] for r in e["deleted"]}
        e["files"] = len(files)
        e["mb"] = sum(r[5] for r in e["deleted"])
        e["misses"] = sum(r[1] == "MISS" and r[4] in files for r in e["after"])
    return res


def frequencies(rows):
    deleted, skipped, gone, deleting = [], [], {}, False
    for row in rows:
        ev, f = row[1], row[4]
        if ev == "DELETE":
            if not deleting:
                gone = {}
            gone[f] = row[6]
        deleting = ev == "DELETE"
        if ev == "MISS" and f in gone:
            deleted.append(gone.pop(f))
        elif ev == "SKIP":
            skipped.append(row[6])
    return deleted, skipped


def same_evaluators(got, want, where):
    check(len(got) == len(want), "{}: {} events of removal instead of {}", where, len(got), len(want))
    for g, w in zip(got, want):
        have = (g.tick, g.event, g.on_delete_cache_size, g.on_delete_cache_occupancy, g.num_deleted_files, g.total_num_req_after_delete)
        check(have == (w["tick"], w["event"], w["size"], w["occupancy"], w["files"], w["misses"]) and close(g.total_size_deleted_files, w["mb"]),
              "{}: evaluated as {!r} with {} MB removed instead of {!r}", where, have, g.total_size_deleted_files, w)
        for frame, rows in ((g.actions, sorted(w["deleted"] + w["kept"])), (g.after, sorted(w["after"]))):
            check(sorted(list(r[1:])[:7] for r in frame.itertuples()) == [r[:7] for r in rows], "{}: rows {!r} instead of {!r}", where, list(frame.itertuples()), rows)


def percentages(values, total):
    res, low = [], 0
    for b in (1, 2, 6):
        res.append(sum(low < v <= b for v in values))
        low = b
    res.append(sum(v > 6 for v in values))
    return [100.0 * r / total if r else 0 for r in res]


def frame(rows):
    return pd.DataFrame([tuple(r) for r in rows], columns=LOG)


def run_log(case, rec):
    clear()
    logs = [log_rows(x) for x in case["logs"]]
    files = [(f"top/run{i}/{REPORT}", None, None if case["none"] == i else frame(rows)) for i, rows in enumerate(logs)]
    present = [i for i, f in enumerate(files) if f[2] is not None]
    want = {f"run{i}": evaluate(logs[i]) for i in present}
    for i in present:
        same_evaluators(list(utils.parse_sim_log(frame(logs[i]))), want[f"run{i}"], f"log {i}")
        got = list(utils.parse_sim_log(frame(logs[i]), "MISSFREQ"))
        check(len(got) == 1 and tuple(map(list, got[0])) == frequencies(logs[i]), "log {}: frequencies {!r} instead of {!r}", i, got, frequencies(logs[i]))
    got = data.parse_simulation_report([f for f in files if f[2] is not None], "top/")
    check(isinstance(got, dict) and list(got) == list(want), "report {!r}", got)
    for name in want:
        same_evaluators(got[name], want[name], name)
    got = list(data.parse_simulation_report(files, "top/", generator=True))
    check([n for n, _ in got] == [n for n in want for _ in want[n]], "report of {!r}", [n for n, _ in got])
    same_evaluators([e for _, e in got], [e for n in want for e in want[n]], "all")
    clear()
    quiet(plotters.plot_num_miss_after_del, got, case["name"])
    end = f"-{case['name']}.html" if case["name"] else ".html"
    figs = saved()
    check(set(figs) == {"num_miss" + end, "num_miss_cumulative" + end}, "saved {!r}", list(figs))
    lines = {n: ([e["tick"] for e in w], [e["misses"] for e in w]) for n, w in want.items() if w}
    check(traces(figs["num_miss" + end]) == lines, "plotted {!r} instead of {!r}", traces(figs["num_miss" + end]), lines)
    lines = {n: (x, list(itertools.accumulate(y))) for n, (x, y) in lines.items()}
    check(traces(figs["num_miss_cumulative" + end]) == lines, "plotted {!r} instead of {!r}", traces(figs["num_miss_cumulative" + end]), lines)
    clear()
    if present:
        quiet(plotters.plot_miss_freq, data.parse_simulation_report(files, "top/", generator=True, target="MISSFREQ"), case["name"])
        bars = [m for m in DRAWN.made if m.name.endswith("Bar()")]
        check(len(bars) == 2 * len(present) and set(saved()) == {"miss_freq" + end}, "{} bars for {} logs, saved {!r}", len(bars), len(present), saved())
        rows = {(m.kw["row"], m.args[0].kw["name"]): m.args[0].kw for m in DRAWN.made if m.name.endswith(".add_trace()")}
        for at, i in enumerate(sorted(present, key=lambda i: f"run{i}"), 1):
            d, k = frequencies(logs[i])
            for name, values in (("deleted", d), ("skipped", k)):
                bar = rows[at, name]
                check([str(b) for b in bar["x"]] == ["1", "2", "6", "max"] and all(map(close, bar["y"], percentages(values, len(d) + len(k)))),
                      "{} of log {}: {!r}, values {!r} and {!r}", name, i, bar, d, k)
    for bad in ("", "missfreq"):
        try:
            list(utils.parse_sim_log(frame(logs[0]), bad))
        except Exception:
            pass
        else:
            check(False, "target {!r} is accepted", bad)
    if any(e["misses"] for w in want.values() for e in w):
        rec.non_trivial()
    if any(not e["open"] or len(w) > 1 for w in want.values() for e in w):
        rec.cls("events")


# --- the results -------------------------------------------------------------

AGENT = data.COLUMNS[data.COLUMNS.index("Addition epsilon"):]
KEPT = {"date", "cache size", "read on hit data", "read on miss data"}
TB = 1024.0 ** 2


def make_report(f):
    cols = [c for i, c in enumerate(data.COLUMNS) if c in KEPT or (c not in AGENT and i not in f["without"]) or (c in AGENT and f["agent"])]
    rows = []
    for d in range(f["days"]):
        row = {}
        for i, c in enumerate(cols):
            seed = f["seed"] if c in NEED["Throughput"] else f["seed"] + f["more"] % 2 if c == "deleted data" else f["seed"] + f["more"]
            row[c] = 1 + (seed * 7919 + i * 104729 + d * 1299709 + seed * i * d) % 9973 / 8
        row["date"] = f"2018-{1 + d // 28:02d}-{1 + d % 28:02d} 00:00:00 +0000 UTC"
        row["cache size"] = 1000.0 * (1 + f["seed"] % 3)
        rows.append(row)
    return cols, rows


def per_day(rows, *need):
    return None if any(c not in rows[0] for c in need) else rows


def measure(name, rows):
    """The measure of each day, zeros when a column is missing."""
    spec = {
        "Throughput ratio": (("read on hit data", "written data", "cache size"), lambda r: (r["read on hit data"] - r["written data"]) / r["cache size"]),
        "Cost ratio": (("written data", "deleted data", "cache size"), lambda r: (r["written data"] + r["deleted data"]) / r["cache size"]),
        "Throughput (TB)": (("read on hit data", "written data"), lambda r: (r["read on hit data"] - r["written data"]) / TB),
        "Cost (TB)": (("written data", "deleted data"), lambda r: (r["written data"] + r["deleted data"]) / TB),
        "Read on hit ratio": (("read on hit data", "read data"), lambda r: 100 * r["read on hit data"] / r["read data"]),
        "CPU Eff.": (("CPU efficiency",), lambda r: r["CPU efficiency"]),
        "Avg. Free Space": (("avg free space", "cache size"), lambda r: 100 * r["avg free space"] / r["cache size"]),
        "Std. Dev. Free Space": (("std dev free space", "cache size"), lambda r: 100 * r["std dev free space"] / r["cache size"]),
        "Bandwidth": (("bandwidth usage",), lambda r: r["bandwidth usage"]),
        "Redirect Vol.": (("size redirected", "cache size"), lambda r: 100 * r["size redirected"] / r["cache size"]),
        "Hit over Miss": (("read on hit data", "read on miss data"), lambda r: r["read on hit data"] / r["read on miss data"]),
        "Num. miss after del.": (("num miss after delete",), lambda r: r["num miss after delete"]),
        "Hit rate": (("hit rate",), lambda r: r["hit rate"]),
    }
    need, f = spec[name]
    return [f(r) for r in rows] if all(c in rows[0] for c in need) else [0.0] * len(rows)


def mean(xs):
    return sum(xs) / len(xs)


SHORT = ["Throughput ratio", "Cost ratio", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU Eff."]
LONG = ["Throughput ratio", "Cost ratio", "Throughput (TB)", "Cost (TB)", "Read on hit ratio", "read on hit data", "Bandwidth", "read on miss data", "Redirect Vol.",
        "Avg. Free Space", "Std. Dev. Free Space", "Hit over Miss", "Num. miss after del.", "Hit rate", "CPU Eff."]
HEAD = {"Throughput ratio": "Throughput", "Cost ratio": "Cost", "read on hit data": "Read on hit (TB)", "read on miss data": "Bandwidth (TB)"}


def all_measures(rows, extended):
    return {HEAD.get(n, n): mean([r[n] for r in rows]) / TB if n.startswith("read on") else mean(measure(n, rows)) for n in (LONG if extended else SHORT)}


def component(part):
    """What a folder of the path says about the simulation."""
    if "weightFunLRU" in part:
        return {part.rsplit("_", 3)[0]}
    if "_" in part and part.split("_")[0] in ("lru", "lfu", "sizeSmall", "sizeBig"):
        return {part.split("_")[0]}
    if "aiRL" in part:
        kind = part.split("aiRL_", 1)[1].split("_")[0] if "aiRL_" in part else ""
        return {"aiRL"} | ({kind} if kind == "SCDL" or kind.startswith("SCDL2") else set())
    return {part}


def row_name(path, prefix):
    words = []
    for part in path.replace(prefix, "").replace("/" + REPORT, "").split("/"):
        if "run_full_normal" in part or "epsilon_test" in part or "random_cache" in part or part.find("T") == len(part) - 1:
            continue
        if "no_" in part and "_feature" in part:
            words.append(f"[NO {part.replace('no_', '').replace('_feature', '').strip()} feature]")
        else:
            words.append(f"[epsilon {part}]" if part in ("slow", "fast") else part)
    return " ".join(words)


def fits(path, model, every, some):
    have = model[path]["components"]
    return set(every) <= have and (not some or bool(have & set(some)))


NEED = {"Throughput": ("read on hit data", "written data", "cache size"), "Cost": ("written data", "deleted data", "cache size"),
        "Read on hit ratio": ("read on hit data", "read data"), "Num. miss after del.": ("num miss after delete",)}


def order(a, b, by_hit):
    """-1 when a is ranked before b, 1 when after it, 0 when it cannot be told (equal, or equal but for rounding)."""
    first = ["Read on hit ratio", "Throughput", "Cost"] if by_hit else ["Throughput", "Cost", "Read on hit ratio"]
    for k in first + ["Num. miss after del."]:
        x, y = ([[r[c] for c in NEED[k]] for r in m["rows"]] if set(NEED[k]) <= set(m["cols"]) else None for m in (a, b))
        if x == y:
            continue
        x, y = (all_measures(m["rows"], False)[k] for m in (a, b))
        if abs(x - y) < 1e-7 * (1 + abs(x)):
            return 0
        return -1 if (x < y) == (k == "Cost") else 1
    return 0


def ranking(files, model, by_hit):
    """The files from the best, None when some cannot be told apart."""
    if any(not order(model[f], model[g], by_hit) for f, g in itertools.combinations(files, 2)):
        return None
    return sorted(files, key=functools.cmp_to_key(lambda f, g: order(model[f], model[g], by_hit)))


def check_table(table, sources, files, model, prefix, extended, by_hit, top, where):
    """files: the candidates; the table holds the best of them in order."""
    want = {f: all_measures(model[f]["rows"], extended) for f in files}
    n = min(top, len(files)) if top else len(files)
    check(len(sources) == n and len(set(sources)) == n and set(sources) <= set(files), "{}: the table holds {!r} of {!r}, asked for {}", where, sources, files, top)
    for i, f in enumerate(sources):
        for g in sources[i + 1:] + [g for g in files if g not in sources]:
            check(order(model[f], model[g], by_hit) <= 0, "{}: the best {} are {!r}, but {!r} is better than {!r}", where, top, sources, g, f)
    cells = {c: table[c].to_list() for c in table.columns}
    check(list(cells) == ["file"] + list(all_measures(model[files[0]]["rows"], extended)), "{}: columns {!r}", where, list(cells))
    for i, f in enumerate(sources):
        check(cells["file"][i] == row_name(f, prefix), "{}: {!r} is called {!r} (prefix {!r})", where, f, cells["file"][i], prefix)
        for c, v in want[f].items():
            check(abs(cells[c][i] - v) < 1e-6 + 1e-9 * abs(v), "{}: {} of {} is {} instead of {}", where, c, f, cells[c][i], v)


def write_results(d, case):
    """Writes the tree of results; gives what is in it."""
    model = {}
    for n, f in enumerate(case["files"]):
        parts = [case["tops"][f["top"] % len(case["tops"])]] + f["path"] + [f"run{n}"]
        folder = os.path.join(d, *parts)
        os.makedirs(folder)
        cols, rows = make_report(f)
        with open(os.path.join(folder, REPORT), "w", newline="") as out:
            w = csv.DictWriter(out, cols, lineterminator="\n")
            w.writeheader()
            w.writerows(rows)
        log = None
        if f["log"] is not None:
            log = log_rows(f["log"])
            with gzip.open(os.path.join(folder, "simulationLogFile.csv.gz"), "wt", newline="") as out:
                w = csv.writer(out, lineterminator="\n")
                w.writerow(LOG)
                w.writerows(log)
        path = "/".join(parts + [REPORT])
        model[path] = {"rows": rows, "cols": cols, "log": log, "components": set().union(*map(component, parts))}
    return model


def same_frame(df, m, where):
    check(sorted(df.columns) == sorted(m["cols"]), "{}: columns {!r}", where, list(df.columns))
    for c in m["cols"]:
        got = df[c].to_list()
        if c == "date":
            check([f"{x.year:04d}-{x.month:02d}-{x.day:02d}" for x in got] == [r[c].split()[0] for r in m["rows"]], "{}: dates {!r}", where, got)
        else:
            check(len(got) == len(m["rows"]) and all(map(close, got, [r[c] for r in m["rows"]])), "{}: {} is {!r}", where, c, got)


def run_results(case, rec):
    clear()
    with scratch() as d:
        for t in case["tops"]:
            os.mkdir(os.path.join(d, t))
        model = write_results(d, case)
        folders = [os.path.join(d, t) for t in case["tops"]]
        res = quiet(data.aggregate_results, folders)
        check(len(res) == len(model) and sorted(res.files) == sorted(model), "found {!r}, there are {!r}", res.files, sorted(model))
        check(sorted(res.components) == sorted(set().union(*(m["components"] for m in model.values()))), "components {!r} instead of {!r}", res.components, {p: m["components"] for p, m in model.items()})
        parts = sorted(set().union(*(m["components"] for m in model.values())))
        for f, m in model.items():
            same_frame(res.get_df(f, [], []), m, f)
            for name, fun in inner(dashboard, "_MEASURES")._MEASURES.items():
                got, want = fun(res.get_df(f, [], [])).to_list(), measure(name, m["rows"])
                check(len(got) == len(want) and all(map(close, got, want)), "{} of {} is {!r} instead of {!r}", name, f, got, want)
        for pick in case["picks"]:
            files = [f for i, f in enumerate(sorted(model)) if not pick["skip"] >> i & 1]
            every, some = ([parts[i % len(parts)] for i in pick[k]] for k in ("every", "some"))
            every, some = sorted(set(every)), sorted(set(some))
            column = data.COLUMNS[pick["column"] % len(data.COLUMNS)] if pick["column"] else ""
            agents, logs = pick["agents"], pick["logs"]
            want = [f for f in files if fits(f, model, every, some) and (column in model[f]["cols"] if column else not agents or "Addition epsilon" in model[f]["cols"])
                    and (not logs or model[f]["log"] is not None)]
            got = quiet(dashboard.get_files2plot, res, files, every, some, column, agents, logs)
            where = f"all {every} any {some} column {column!r} agents {agents} logs {logs}"
            check([g[0] for g in got] == want, "{}: {!r} instead of {!r}", where, [g[0] for g in got], want)
            for g in got:
                same_frame(g[1], model[g[0]], where)
                check(len(g) == 2 + logs, "{}: {} parts", where, len(g))
                if logs:
                    check([list(r)[1:] for r in g[2].itertuples()] == model[g[0]]["log"], "{}: another log of {}", where, g[0])
            prefix = dashboard.get_prefix(got)
            check(prefix == os.path.commonprefix(want), "prefix {!r} of {!r}", prefix, want)
            if not want:
                continue
            table, sources = quiet(data.make_table, [g[:2] for g in got], prefix, pick["top"], pick["extended"], pick["by_hit"])
            check_table(table, sources, want, model, prefix, pick["extended"], pick["by_hit"], pick["top"], where)
            rec.cls("logs" if logs else "agents" if agents and not column else "column" if column else "plain")
            if 1 < len(want) < len(model):
                rec.non_trivial()
        names = ["Throughput ratio", "Cost ratio", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU Eff."]
        table = quiet(data.get_all_metric_values, list(res.get_all_df()))
        order = [f for f, _ in res.get_all_df()]
        for column, name in zip(["Throughput", "Cost", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU efficiency"], names):
            got, want = table[column].to_list(), [v for f in order for v in measure(name, model[f]["rows"])]
            check(len(got) == len(want) and all(map(close, got, want)), "{} of all is {!r} instead of {!r}", column, got, want)
        if case["plot"]:
            plot = next(c[1][0] for c in COMMANDS if c[1][0].__name__ == "plot")
            kind = commands.PlotType.afterdelete
            clear()
            quiet(plot, folders, kind, "x")
            prefix = os.path.commonprefix(sorted(model))
            want = {f.replace(prefix, "").replace("/" + REPORT, ""): evaluate(m["log"]) for f, m in model.items() if m["log"] is not None}
            want = {n: ([e["tick"] for e in w], [e["misses"] for e in w]) for n, w in want.items() if w}
            got = traces(saved()["num_miss-x.html"])
            check(got == want, "the plot command draws {!r} instead of {!r}", got, want)


COMMANDS = [c for c in DRAWN.calls if c[0].endswith(".command()")]


# --- the dashboard -----------------------------------------------------------

def graphs(children):
    return [c.kw["figure"] for c in children if c.name.endswith("Graph()")]


def same_lines(fig, want, where):
    got = traces(fig)
    check(set(got) == set(want), "{}: lines of {!r} instead of {!r}", where, sorted(got), sorted(want))
    for name in want:
        check(len(got[name][1]) == len(want[name]) and all(map(close, got[name][1], want[name])) and len(got[name][0]) == len(want[name]),
              "{}: {!r} is {!r} instead of {!r}", where, name, got[name], want[name])


def run_dashboard(case, rec):
    """A session of a user who changes the selection and the tab."""
    with scratch() as d:
        for t in case["tops"]:
            os.mkdir(os.path.join(d, t))
        model = write_results(d, case)
        res = quiet(data.aggregate_results, [os.path.join(d, t) for t in case["tops"]])
        clear()
        quiet(dashboard.create, res)
        call = {c[1][0].__name__: c[1][0] for c in DRAWN.calls if c[1] and isinstance(c[1][0], types.FunctionType)}
        parts = sorted(set().union(*(m["components"] for m in model.values())))
        compared = {}
        seen = set()
        for n, op in enumerate(case["ops"]):
            sel = case["selections"][op["sel"] % len(case["selections"])]
            files = [f for i, f in enumerate(sorted(model)) if not sel["skip"] >> i & 1]
            every, some = (sorted({parts[i % len(parts)] for i in sel[k]}) for k in ("every", "some"))
            top, extended, by_hit = sel["top"], op["extended"], op["by_hit"]
            fit = [f for f in files if fits(f, model, every, some)]
            where = f"step {n}, {op['tab']} of {files} all {every} any {some} best {top}"
            if op["tab"] == "toggle":
                number = len(model)
                clicks = [None] * number
                at = op["sel"] % number
                clicks[at] = 1
                opened = [bool(op["n"] >> i & 1) for i in range(number)]
                sys.modules["dash"].callback_context = types.SimpleNamespace(triggered=[{"prop_id": f"group-{at}-toggle.n_clicks"}])
                got = call["toggle_collapse_table"](*clicks, *opened)
                opened[at] = not opened[at]
                check(list(got) == opened, "{}: opened {!r} instead of {!r}", where, got, opened)
                continue
            if op["tab"] == "select":
                which = ("unselect-files", "select-files")[op["n"] % 2]
                sys.modules["dash"].callback_context = types.SimpleNamespace(triggered=[{"prop_id": f"{which}.n_clicks"}])
                got = call["unselect_all_files"](1, 1)
                check(sorted(got) == (sorted(model) if op["n"] % 2 else []), "{}: {!r}", where, got)
                continue
            if op["tab"] == "compared":
                got = quiet(call["compare_results"], op["n"], op["tick"], files, every, some, top)
                check(len(got) == 5, "{}: {} parts", where, len(got))
                events = compared.get(repr((files, every, some, top)))
                sims = list(events or {})
                hit = None
                if events is not None and op["n"] < len(sims):
                    hit = next((e for e in events[sims[op["n"]]] if e["tick"] == op["tick"]), None)
                if hit is None:
                    check(all(not hasattr(g, "name") or not g.name.endswith("Graph()") for x in got for g in x), "{}: something is shown of tick {}", where, op["tick"])
                else:
                    check([g.name.rsplit(".", 1)[-1] for x in got for g in x] == ["Graph()"] * 5, "{}: tick {} of {} is not shown: {!r}", where, op["tick"], sims[op["n"]], got)
                    shown = got[0][0].kw["figure"].args[0]
                    check(sorted(list(r[1:])[:7] for r in shown.itertuples()) == sorted(r[:7] for r in hit["deleted"] + hit["kept"]), "{}: shown {!r} instead of {!r}", where, list(shown.itertuples()), hit)
                    shown = got[4][0].kw["figure"].args[0]
                    check(sorted(list(r[1:])[:7] for r in shown.itertuples()) == sorted(r[:7] for r in hit["after"] if r[1] == "ADD"), "{}: shown {!r} instead of {!r}", where, list(shown.itertuples()), hit)
                    rec.cls("shown tick")
                continue
            if top and op["tab"] in ("columns", "measures", "agents") and ranking(list(model), model, False) is None:
                continue  # which ones are the best is not defined
            out = quiet(call["switch_tab"], f"tab-{op['tab']}", extended, by_hit, files, every, some, top)
            check(len(out) == 6, "{}: {} parts", where, len(out))
            at = {"columns": 0, "measures": 1, "agents": 2, "table": 3, "compare": 4}.get(op["tab"])
            check(all(x == "" for i, x in enumerate(out) if i != at and not (at == 4 and i == 5)), "{}: other tabs changed", where)
            if at is None:
                continue

            def best(files):
                if not top:
                    return files
                return [f for f in files if f in ranking(files, model, False)[:top]]

            def names(files, tail=REPORT):
                prefix = os.path.commonprefix(files)
                return {f: f.replace(prefix, "").replace(tail, "") for f in files}

            if op["tab"] == "columns":
                figs = graphs(out[0])
                check([title(f) for f in figs] == data.COLUMNS[1:], "{}: {} figures", where, len(figs))
                for c, fig in zip(data.COLUMNS[1:], figs):
                    kept = best([f for f in fit if c in model[f]["cols"]])
                    same_lines(fig, {name: [r[c] for r in model[f]["rows"]] for f, name in names(kept).items()}, f"{where}, {c}")
            elif op["tab"] == "measures":
                figs = graphs(out[1])
                check([title(f) for f in figs] == sorted(inner(dashboard, "_MEASURES")._MEASURES), "{}: {} figures", where, len(figs))
                for fig in figs:
                    same_lines(fig, {name: measure(title(fig), model[f]["rows"]) for f, name in names(best(fit)).items()}, f"{where}, {title(fig)}")
            elif op["tab"] == "agents":
                figs = graphs(out[2])
                kept = names(best([f for f in fit if "Addition epsilon" in model[f]["cols"]]))
                lines = {}
                for fig in figs:
                    lines.update(traces(fig))
                want = {f"{name}[{c}]": [r[c] for r in model[f]["rows"]] for f, name in kept.items() for c in AGENT}
                check(set(lines) == set(want), "{}: lines {!r} instead of {!r}", where, sorted(lines), sorted(want))
                for k in want:
                    check(all(map(close, lines[k][1], want[k])), "{}: {} is {!r} instead of {!r}", where, k, lines[k][1], want[k])
            elif op["tab"] == "table":
                check(out[3].name.endswith("from_dataframe()"), "{}: {!r}", where, out[3].name)
                table = out[3].args[0]
                number = min(top, len(fit)) if top else len(fit)
                check(len(table) == number, "{}: {} rows of {}", where, len(table), len(fit))
                ranked = ranking(fit, model, by_hit)
                if number and ranked is not None:
                    check_table(table, ranked[:number], ranked[:number], model, os.path.commonprefix(ranked[:number]), extended, by_hit, 0, where)
                for route, kind in (("download_csv", table.to_csv), ("download_tex", table.to_latex), ("download_html", table.to_html)):
                    del DRAWN.calls[:]
                    call[route]()
                    sent = [c[1][0] for c in DRAWN.calls if c[0].endswith("send_file")]
                    check(len(sent) == 1, "{}: {} sends {!r}", where, route, sent)
                    buf = io.StringIO()
                    kind(buf)
                    got = open(sent[0]).read()
                    check(got == buf.getvalue(), "{}: {} gives {!r}, shown is {!r}", where, route, got, buf.getvalue())
            else:
                logged = [f for f in fit if model[f]["log"] is not None]
                want = {name: evaluate(model[f]["log"]) for f, name in names(logged, "/" + REPORT).items()}
                compared[repr((files, every, some, top))] = want
                fig = graphs(out[4])[0]
                lines = {}
                for name, w in want.items():
                    lines[f"{name} - # del. files"] = [e["files"] for e in w]
                    lines[f"{name} - tot. Size (GB)"] = [int(e["mb"] / 1024) for e in w]
                    lines[f"{name} - # req. after del."] = [e["misses"] for e in w]
                same_lines(fig, lines, where)
            rec.cls(op["tab"])
            key = repr((files, every, some, top))
            if seen and key not in seen and fit:
                rec.non_trivial()
            seen.add(key)


ev = s.sampled_from(EVENTS + ["DELETE"] * 6 + ["KEEP"] * 2 + ["MISS"] * 6 + ["HIT", "ADD", "ADD", "SKIP", "SKIP", "REDIRECT"])
lrow = s.fixed_dictionaries({"ev": ev, "f": s.integers(0, 6), "mb": s.integers(1, 40000), "n": s.integers(0, 9)})
small = {"f": s.integers(0, 3), "mb": s.integers(1, 40000), "n": s.integers(0, 9)}
block = s.tuples(s.fixed_dictionaries({"ev": s.sampled_from(EVENTS), **small}), s.lists(s.fixed_dictionaries({"ev": s.sampled_from(["DELETE", "DELETE", "KEEP"]), **small}), max_size=4),
                 s.lists(s.fixed_dictionaries({"ev": s.sampled_from(["MISS", "MISS", "MISS", "ADD", "SKIP", "HIT", "REDIRECT", "DELETE"]), **small}), max_size=5))
log = s.one_of(s.lists(lrow, max_size=30), s.lists(block, min_size=1, max_size=5).map(lambda x: [r for a, b, c in x for r in [a] + b + c]))
logs = s.fixed_dictionaries({"logs": s.lists(log, min_size=1, max_size=3), "none": s.integers(0, 6), "name": s.sampled_from(["", "x"])})
part = s.sampled_from(["lru_100T_10G", "lfu", "lfu_it", "sizeSmall_x", "sizeBig_100T", "weightFunLRU_1.00_2.00_3.00", "weightFunLRU_1.00_2.00_5.00", "aiRL_SCDL_0.1", "aiRL_SCDL2_0.5", "aiRL_SCDL21",
                       "aiRL_AC_x", "aiRL", "slow", "fast", "no_size_feature", "no_num_req_feature", "run_full_normal", "it", "us", "100T", "epsilon_test", "random_cache_1", "lru"])
rfile = s.fixed_dictionaries({"top": s.integers(0, 1), "path": s.lists(part, max_size=3), "seed": s.one_of(s.integers(0, 1), s.integers(0, 10 ** 6)), "more": s.integers(0, 3), "days": s.integers(1, 5), "agent": s.booleans(),
                              "without": s.lists(s.integers(1, 24), max_size=3), "log": s.none() | log})
picks = s.fixed_dictionaries({"skip": s.one_of(s.just(0), s.integers(0, 127)), "every": s.lists(s.integers(0, 20), max_size=2), "some": s.lists(s.integers(0, 20), max_size=2), "column": s.one_of(s.just(0), s.integers(1, 60)),
                              "agents": s.booleans(), "logs": s.booleans(), "top": s.sampled_from([0, 0, 1, 2, 3, 11]), "extended": s.booleans(), "by_hit": s.booleans()})
tops = s.sampled_from([["simulations"], ["first_results", "second_results"]])
trees = s.fixed_dictionaries({"tops": tops, "files": s.lists(rfile, min_size=1, max_size=6), "picks": s.lists(picks, min_size=1, max_size=4), "plot": s.booleans()})
bigtree = s.fixed_dictionaries({"tops": tops, "files": s.lists(rfile, min_size=11, max_size=13), "picks": s.lists(picks, min_size=1, max_size=3), "plot": s.booleans()})
selection = s.fixed_dictionaries({"skip": s.one_of(s.just(0), s.integers(0, 127)), "every": s.lists(s.integers(0, 20), max_size=2), "some": s.lists(s.integers(0, 20), max_size=2), "top": s.sampled_from([0, 0, 1, 2])})


@s.composite
def sessions(draw):
    sels = draw(s.lists(selection, min_size=1, max_size=3))
    if draw(s.booleans()):
        sels.append(dict(sels[0], every=sels[0]["some"], some=sels[0]["every"]))
    dop = s.fixed_dictionaries({"tab": s.sampled_from(["columns", "measures", "agents", "table", "table", "table", "compare", "compare", "compared", "compared", "toggle", "select", "files"]), "sel": s.integers(0, 9),
                                "extended": s.booleans(), "by_hit": s.booleans(), "n": s.integers(0, 3), "tick": s.integers(0, 3)})
    ops = draw(s.lists(dop, min_size=1, max_size=6))
    for op in list(ops):
        if op["tab"] == "compare":
            ops.append(dict(op, tab="compared"))
    return {"tops": draw(tops), "files": draw(s.lists(rfile, min_size=1, max_size=5)), "selections": sels, "ops": ops}


main(Spec("C38", "Log", "random logs evaluated alone, in reports and in plots; non-trivial: a removed file is asked for again", 1200, 12000, logs, run_log),
     Spec("C38", "Results", "random trees of results found, filtered, measured and ranked; non-trivial: some but not all results selected", 300, 3000, s.one_of(trees, trees, trees, bigtree), run_results),
     Spec("C38", "Dashboard", "sessions of the dashboard with several selections and tabs; non-trivial: the selection changes", 250, 2500, sessions(), run_dashboard))
