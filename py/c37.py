"""C37: the Probe's loaders, category converter and feature analysis."""
import csv
import datetime
import gzip
import io
import json
import os
import pickle
import re
import sys
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as s

from common import REPO, Spec, check, inner, load, main, scratch, stub_probe

sys.path.insert(0, os.path.join(REPO, "Probe"))
DRAWN = stub_probe()
utils = load("probe.converter.utils")
loaders = load("probe.loaders")
converter = load("probe.converter.__main__")
inspect = load("probe.converter.inspect")
features = load("probe.analyzer.features")
pd = sys.modules["pandas"]


np.seterr(all="ignore")


def plain(text):
    text = re.sub(r"\x1b\[[0-9;]*m", "", text)
    return json.loads(text[text.index("{"):text.rindex("}") + 1])


class chdir:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *_):
        os.chdir(self.old)


def quiet(f, *a, **k):
    with redirect_stdout(io.StringIO()) as out:
        res = f(*a, **k)
    return res, out.getvalue()


def command(mod, *args):
    old = sys.argv
    sys.argv = ["probe", *map(str, args)]
    try:
        return quiet(mod.main)[1]
    finally:
        sys.argv = old


def same_numbers(container, model, where):
    for cat, seen in model.items():
        got = {v: container.get(cat, v) for v in seen}
        check(got == seen, "{}: {} is numbered {!r}, earlier {!r}", where, cat, got, seen)
        check(dict(container.get(cat)) == seen, "{}: {} is numbered {!r}, earlier {!r}", where, cat, container.get(cat), seen)


def run_container(case, rec):
    c, model = utils.CategoryContainer(), {}
    for n, op in enumerate(case["ops"]):
        where = f"step {n}"
        if op["k"] == "pickle":
            c = pickle.loads(pickle.dumps(c))
        elif op["k"] == "update":
            new = {}
            for cat, vals in op["values"]:
                new.setdefault(cat, []).extend(vals)
            c.update(new, "file")
            for cat, vals in new.items():
                seen = model.setdefault(cat, {})
                for v in vals:
                    if v not in seen:
                        try:
                            seen[v] = c.get(cat, v)
                        except KeyError:
                            check(False, "{}: {!r} of {} has no number", where, v, cat)
                check(sorted(map(repr, seen.values())) == sorted(map(repr, range(len(seen)))), "{}: the numbers of {} are {!r}", where, cat, seen)
        elif op["k"] == "convert" and model:
            cat = sorted(model)[op["n"] % len(model)]
            vals = sorted(model[cat])
            if not vals:
                continue
            column = [vals[i % len(vals)] for i in op["pick"]]
            df = pd.DataFrame({cat: column, "n": list(range(len(column)))})
            if not column:
                continue
            got = utils.convert_categories("file", df, {cat: vals} if op["n"] % 2 else [cat], c)
            check(got[cat].to_list() == [model[cat][v] for v in column], "{}: {!r} is converted to {!r}, numbers {!r}", where, column, got[cat].to_list(), model[cat])
            check(got["n"].to_list() == list(range(len(column))), "{}: another column changed", where)
            rec.cls("convert")
        same_numbers(c, model, where)
        try:
            c.get("no such category")
        except KeyError:
            pass
        else:
            check(False, "{}: an unknown category has numbers", where)
    for by_value in (False, True):
        got = plain(c.query("categories", by_value))
        check(sorted(got["keys"]) == sorted(model), "categories {!r}", got)
        for cat, seen in model.items():
            got = plain(c.query(f"all.{cat}", by_value))
            check(got == {cat: seen}, "all of {}: {!r} instead of {!r}", cat, got, seen)
            check(list(got[cat].items()) == sorted(seen.items(), key=lambda x: x[1 if by_value else 0]), "all of {} in another order: {!r}", cat, got)
            for v in seen:
                got = plain(c.query(f"valueOf.{cat}.{v}", by_value))
                check(got == {cat: {v: seen[v]}}, "value of {!r} in {}: {!r}", v, cat, got)
    for bad in ("nothing", "some.thing"):
        try:
            c.query(bad)
        except Exception:
            pass
        else:
            check(False, "query {!r} is answered", bad)
    if sum(op["k"] == "update" for op in case["ops"]) > 1 and model:
        rec.non_trivial()


COLUMNS = ["Filename", "SiteName", "UserID", "Size", "DataType", "JobSuccess", "reqDay"]


def to_rows(case):
    res = []
    for i, f in enumerate(case["files"]):
        rows = []
        for r in f["rows"]:
            row = {"Filename": f"/store/{r['type']}/{r['campaign']}/{r['process']}/AOD/{r['n']}.root", "SiteName": r["site"], "UserID": r["n"], "Size": r["size"],
                   "DataType": r["type"], "JobSuccess": r["ok"], "reqDay": 1514764800 + 86400 * i}
            if case["region_column"]:
                row["Region"] = r["site"].split("_")[1].lower()
            if case["process_column"]:
                row["Process"] = r["process"] + "x"
            rows.append(row)
        res.append(rows)
    return res


def write_csv(path, rows):
    opener = gzip.open if path.endswith(".gz") else open
    with opener(path, "wt", newline="") as f:
        w = csv.DictWriter(f, list(rows[0]) if rows else ["FileName", "Size"], lineterminator="\n")
        w.writeheader()
        w.writerows(rows)


def read_rows(path):
    with (gzip.open if path.endswith(".gz") else open)(path, "rt", newline="") as f:
        return list(csv.DictReader(f))


def keep(rows, region):
    return [r for r in rows if region == "all" or f"_{region}_".lower() in r["SiteName"].lower()]


def run_converter(case, rec):
    """The command itself, run once or more over a growing folder."""
    files = to_rows(case)
    region = case["region"]
    mode = case["mode"]
    with scratch() as d, chdir(d):
        os.mkdir("data")
        os.mkdir("order")
        seen, before = {}, {}
        start = 0
        for end in sorted({min(c % len(files) + 1, len(files)) for c in case["runs"]} | {len(files)}):
            for i in range(start, end):
                name = f"results_2018-{i // 28 + 1:02d}-{i % 28 + 1:02d}"
                write_csv(f"data/{name}.csv{case['files'][i]['ext']}", files[i])
                if mode == "order":
                    names = [r["Filename"] for r in keep(files[i], region)]
                    order = sorted(range(len(names)), key=lambda j: (case["files"][i]["rows"][j]["n"] * 7 + j * 3) % 11)
                    write_csv(f"order/order_{name.replace('results_', '')}.csv", [{"FileName": names[j], "Size": j} for j in order])
            args = ["data" if not case["single"] else f"data/results_2018-{start // 28 + 1:02d}-{start % 28 + 1:02d}.csv{case['files'][start]['ext']}"]
            todo = range(start, end) if not case["single"] else [start]
            start = end
            if region != "all":
                args += ["--region", region]
            if mode == "shuffle":
                args += ["--shuffle", "true", "--seed", str(case["seed"])]
            elif mode == "order":
                args += ["--order-folder", "order"]
            command(converter, *args)
            tag = {"plain": "_", "shuffle": f"_shuffle_{case['seed']}", "order": "_avro_order_"}[mode]
            check(os.path.isfile(f"container_{region}_.pickle"), "no container of categories")
            with open(f"container_{region}_.pickle", "rb") as f:
                box = pickle.load(f)
            for name, raw in before.items():
                check(open(name, "rb").read() == raw, "{} changed in a later run", name)
            for i in todo:
                base = f"2018-{i // 28 + 1:02d}-{i % 28 + 1:02d}.csv{case['files'][i]['ext']}"
                out = f"data/results_numeric_{region}{tag}{base}"
                check(os.path.isfile(out), "{} is missing, there are {!r}", out, sorted(os.listdir("data")))
                before[out] = open(out, "rb").read()
                got = read_rows(out)
                want = []
                for r in keep(files[i], region):
                    r = dict(r)
                    r.setdefault("Region", r["SiteName"].split("_")[1].lower())
                    r.setdefault("Campain", r["Filename"].split("/")[3])
                    r.setdefault("Process", r["Filename"].split("/")[4])
                    want.append(r)
                check(len(got) == len(want), "{} has {} rows instead of {}", out, len(got), len(want))
                cats = [k for k in (want[0] if want else {}) if isinstance(want[0][k], str)]
                decoded = []
                for g in got:
                    row = {}
                    for k in want[0]:
                        check(k in g, "{}: column {} is missing", out, k)
                        if k in cats:
                            back = [v for v, n in box.get(k).items() if n == int(g[k])]
                            check(len(back) == 1, "{}: {} of column {} stands for {!r}", out, g[k], k, back)
                            row[k] = back[0]
                            check(seen.setdefault((k, back[0]), int(g[k])) == int(g[k]), "{} of {} was {} and is {}", back[0], k, seen[k, back[0]], g[k])
                        else:
                            row[k] = type(want[0][k])(float(g[k])) if not isinstance(want[0][k], bool) else g[k] == "True"
                    decoded.append(row)
                if mode == "plain":
                    check(decoded == want, "{} decodes to {!r}, written {!r}", out, decoded, want)
                elif mode == "shuffle":
                    check(sorted(map(repr, decoded)) == sorted(map(repr, want)), "{} decodes to {!r}, written {!r}", out, decoded, want)
                else:
                    names = [r["FileName"] for r in read_rows(f"order/order_{base.split('.')[0]}.csv")]
                    queues = {}
                    for r in want:
                        queues.setdefault(r["Filename"], []).append(r)
                    # the n-th record of a file stays its n-th one
                    check(decoded == [queues[n].pop(0) for n in names], "{} decodes to {!r}, the order is {!r}", out, decoded, names)
                if len(got) > 1:
                    rec.cls(mode)
            cat = "SiteName"
            one = next((v for (k, v) in seen if k == cat), None)
            if one is not None:
                out = command(inspect, f"container_{region}_.pickle", f"valueOf.{cat}.{one}")
                check(plain(out) == {cat: {one: seen[cat, one]}}, "inspect prints {!r}", out)
    if len(seen) > 10 and len(files) > 1:
        rec.non_trivial()


def run_shuffle(case, rec):
    """Another seed gives another order, the same seed the same order."""
    rows = [{"Filename": f"/store/data/Run/P{n}/AOD/{n}.root", "SiteName": "T2_US_X", "UserID": n, "Size": n, "DataType": "data", "JobSuccess": True, "reqDay": 1514764800} for n in range(case["rows"])]
    orders = {}
    for again in (False, True):
        for seed in sorted(set(case["seeds"])):
            with scratch() as d, chdir(d):
                os.mkdir("data")
                write_csv("data/results_2018-01-01.csv", rows)
                command(converter, "data", "--shuffle", "true", "--seed", str(seed))
                (out,) = [n for n in os.listdir("data") if "shuffle" in n]
                got = [int(float(r["Size"])) for r in read_rows(f"data/{out}")]
                check(sorted(got) == list(range(len(rows))), "seed {} gives {!r} of {} rows", seed, got, len(rows))
                check(orders.setdefault(seed, got) == got, "seed {} gives {!r}, earlier {!r}", seed, got, orders[seed])
    if len(orders) > 1:
        check(len({tuple(o) for o in orders.values()}) > 1, "all seeds give {!r}", orders)
        rec.non_trivial()


def frame_rows(df):
    return [tuple(r) for r in df[COLUMNS].itertuples(index=False)]


def run_loaders(case, rec):
    case = dict(case, region_column=False, process_column=False)
    files = to_rows(case)
    with scratch() as d:
        want = []
        names = []
        for i, rows in enumerate(files):
            month = case["files"][i]["month"]
            name = f"results_{'numeric_all_' if case['numeric'] else ''}2018-{month:02d}-{i + 1:02d}.csv{case['files'][i]['ext']}"
            write_csv(os.path.join(d, name), rows)
            names.append((name, month, rows))
        open(os.path.join(d, "notes.txt"), "w").close()
        kw = {}
        if case["region"] != "all" or case["named"]:
            kw["region_filter"] = case["region"]
        if case["ftype"]:
            kw["file_type_filter"] = case["ftype"]
        if case["month"] and not case["single"]:
            kw["month_filter"] = case["month"]
        for name, month, rows in sorted(names):
            if kw.get("month_filter") in (None, month):
                want.append((os.path.join(d, name), [tuple(r[c] for c in COLUMNS) for r in keep(rows, case["region"]) if not case["ftype"] or case["ftype"] == "all" or f"/{case['ftype']}/".lower() in r["Filename"].lower()]))
        source = d
        if case["single"]:
            source, want = want[0][0], want[:1]
        how = case["how"]
        if how == "gen":
            (res, _) = quiet(lambda: list(loaders.gen_csv_data(source, **kw)))
            check(res[0] == (1 if case["single"] else len(files)), "{} files announced, there are {}", res[0], len(files))
            check([p for p, _ in res[1:]] == [p for p, _ in want], "files {!r} instead of {!r}", [p for p, _ in res[1:]], [p for p, _ in want])
            got = [frame_rows(f) for _, f in res[1:]]
            check(got == [r for _, r in want], "loaded {!r}, written {!r}", got, want)
        elif not want:
            return
        elif how == "concat" or case["single"]:
            df, _ = quiet(loaders.csv_data, source, **kw)
            check(hasattr(df, "columns"), "csv_data gives {!r}", df)
            check(frame_rows(df) == [x for _, r in want for x in r], "loaded {!r}, written {!r}", frame_rows(df), want)
        else:
            res, _ = quiet(loaders.csv_data, source, concat=False, generate=how == "generate", **kw)
            got = quiet(lambda: [frame_rows(f) for f in res])[0]
            check(got == [r for _, r in want], "loaded {!r}, written {!r}", got, want)
        rec.cls(how)
        if any(len(r) > 1 for _, r in want):
            rec.non_trivial()
        try:
            quiet(loaders.csv_data, os.path.join(d, "notes.txt"))
        except Exception:
            pass
        else:
            check(False, "a text file was loaded")


def run_features(case, rec):
    days = [[] for _ in range(case["days"])]
    for r in case["reqs"]:
        days[r["day"] % len(days)].append(r)
    days = [x for x in days if x]
    start = datetime.datetime(2018, 1, 25)
    rows = [[{"Filename": f"/f{r['f']}", "Size": r["mb"] * 1024 ** 2 + r["extra"], "DataType": r["type"], "JobSuccess": r["ok"], "reqDay": int((start + datetime.timedelta(days=2 * i)).replace(tzinfo=datetime.timezone.utc).timestamp())}
             for r in x] for i, x in enumerate(days)]
    good = [[r for r in x if r["DataType"] in ("data", "mc") and r["JobSuccess"]] for x in rows]
    if not any(good) or not rows:
        return
    frames = [pd.DataFrame({k: [r[k] for r in x] for k in rows[0][0]}) for x in rows]
    concat, by = case["concat"], case["by"]
    spec = {}
    for name, f in case["spec"].items():
        spec[name] = {"feature": name, "type": "float", "buckets": True, "keys": f["keys"], "bucket_open_right": f["open"]}
    spec["other"] = {"feature": "other", "type": "string", "buckets": False, "keys": ["a"]}
    with scratch() as d:
        df = quiet(pd.concat, frames)[0] if concat else frames
        kw = {} if concat and by == "d" else {"concatenated": concat, "group_by": by}
        obj, _ = quiet(features.Features, spec, df, output_folder=os.path.join(d, "out"), **kw)
        date = lambda r: datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=r["reqDay"])  # noqa: E731
        key = {"d": lambda r: r["reqDay"], "w": lambda r: date(r).isocalendar()[1], "m": lambda r: date(r).month}[by]
        groups = {}
        for x in good:
            for r in x:
                groups.setdefault(key(r), []).append(r)
        for name in case["ask"]:
            values = []
            if name == "size":
                values = [int(r["Size"] / 1024 ** 2) for x in good for r in x]
            else:
                for k in sorted(groups):
                    last, count = {}, {}
                    for i, r in enumerate(groups[k]):
                        f = r["Filename"]
                        if name == "deltaLastRequest" and f in last:
                            values.append(i - last[f])
                        last[f] = i
                        count[f] = count.get(f, 0) + 1
                    if name == "numReq":
                        values += list(count.values())
            if not values and name not in spec:
                continue
            (counts, bins), _ = quiet(obj.check_bins_of, name)
            bins = [float(b) for b in bins]
            if name in spec:
                keys = spec[name]["keys"]
                check(bins == [float(k) for k in keys] + ([float(keys[-1]) * 2] if spec[name]["bucket_open_right"] else []), "bins {!r} of keys {!r}", bins, keys)
            want = [sum(1 for v in values if (bins[i - 1] if i else 0) < v and (v <= b or i == len(bins) - 1)) for i, b in enumerate(bins)]
            check([int(c) for c in counts] == want, "{}: {!r} in the bins {!r}, values {!r}", name, counts, bins, values)
            got = sorted(float(v) for v in inner(obj, "_features_data")._features_data[name])
            check(got == sorted(map(float, values)), "{}: values {!r} instead of {!r}", name, got, sorted(values))
            del DRAWN.calls[:], DRAWN.made[:]
            quiet(obj.plot_bins_of, name, (counts, np.array(bins)))
            bars = [k for n, a, k in DRAWN.calls if n.endswith(".bar")]
            check(len(bars) == 1, "{} bar plots", len(bars))
            total = sum(want)
            check(list(bars[0]["x"]) [-1] == "max" and len(bars[0]["x"]) == len(want) and all(abs(p - (100 * w / total if total else 0)) < 1e-9 for p, w in zip(bars[0]["y"], want)),
                  "{}: plotted {!r} of counts {!r}", name, bars[0], want)
            rec.cls(name)
            if sum(want) > 3:
                rec.non_trivial()


cats = s.sampled_from(["Filename", "SiteName", "Region", "Process"])
value = s.one_of(s.sampled_from(["", "T2_US_X", "/store/a.root", "a.b.c", "A", "a", "0"]), s.text("ab.é\"'", max_size=4))
cop = s.fixed_dictionaries({"k": s.sampled_from(["update", "update", "update", "pickle"]), "values": s.lists(s.tuples(cats, s.lists(value, max_size=5)), max_size=3)})
conv = s.fixed_dictionaries({"k": s.just("convert"), "n": s.integers(0, 9), "pick": s.lists(s.integers(0, 20), max_size=40)})
containers = s.fixed_dictionaries({"ops": s.lists(cop, max_size=8)})
converts = s.tuples(s.lists(cop, min_size=1, max_size=4), conv).map(lambda x: {"ops": x[0] + [x[1]]})
row = s.fixed_dictionaries({"type": s.sampled_from(["data", "mc", "user", "data", "hidata"]), "campaign": s.sampled_from(["Run2016B", "RunII", "Run2017"]), "process": s.sampled_from(["Jet", "TTbar", "MET"]),
                            "site": s.sampled_from(["T2_US_Vanderbilt", "T1_IT_CNAF", "T2_IT_Legnaro", "T2_us_other", "T3_USA_x", "T1_IT_CNAF_Disk", "T3_US_Merit_Lab"]), "n": s.integers(0, 5), "size": s.integers(1, 4000), "ok": s.booleans()})
cfile = s.fixed_dictionaries({"rows": s.lists(row, min_size=1, max_size=7), "ext": s.sampled_from(["", ".gz"])})
converters = s.fixed_dictionaries({"files": s.lists(cfile, min_size=1, max_size=4), "region": s.sampled_from(["all", "all", "it", "us"]), "mode": s.sampled_from(["plain", "plain", "shuffle", "order"]),
                                   "seed": s.integers(0, 50), "runs": s.lists(s.integers(0, 3), max_size=2), "single": s.sampled_from([False, False, True]),
                                   "region_column": s.booleans(), "process_column": s.booleans()})
lfile = s.fixed_dictionaries({"rows": s.lists(row, min_size=1, max_size=6), "ext": s.sampled_from(["", ".gz"]), "month": s.integers(1, 3)})
loads = s.fixed_dictionaries({"files": s.lists(lfile, min_size=1, max_size=5), "region": s.sampled_from(["all", "it", "us", "US"]), "ftype": s.sampled_from(["", "all", "data", "AOD", "RAW", "Run2016B"]),
                              "month": s.integers(0, 3), "how": s.sampled_from(["gen", "concat", "list", "generate"]), "single": s.sampled_from([False, False, False, True]), "numeric": s.booleans(), "named": s.booleans()})
freq = s.fixed_dictionaries({"day": s.integers(0, 5), "f": s.integers(0, 4), "mb": s.integers(0, 40), "extra": s.sampled_from([0, 1, 1024 ** 2 - 1]), "type": s.sampled_from(["data", "mc", "data", "user"]), "ok": s.sampled_from([True, True, False])})
keys = s.lists(s.integers(1, 30), min_size=1, max_size=4, unique=True).map(sorted)
fspec = s.dictionaries(s.sampled_from(["size", "numReq", "deltaLastRequest"]), s.fixed_dictionaries({"keys": keys, "open": s.booleans()}))
analyses = s.fixed_dictionaries({"reqs": s.lists(freq, min_size=1, max_size=40), "days": s.integers(1, 6), "concat": s.booleans(), "by": s.sampled_from(["d", "w", "m"]), "spec": fspec,
                                 "ask": s.lists(s.sampled_from(["size", "numReq", "deltaLastRequest"]), min_size=1, max_size=3, unique=True)})

main(Spec("C37", "Numbers", "random updates and pickling of the categories, asked in all ways; non-trivial: several updates", 800, 8000, containers, run_container),
     Spec("C37", "Columns", "random columns converted by worker processes; non-trivial: several updates", 25, 250, converts, run_container),
     Spec("C37", "Converter", "the converter command on random folders, run again as they grow, decoded; non-trivial: several files and more than ten different values", 8, 80, converters, run_converter),
     Spec("C37", "Shuffle", "the converter command with several seeds, twice; non-trivial: several seeds", 2, 12, s.fixed_dictionaries({"rows": s.integers(12, 30), "seeds": s.lists(s.integers(0, 10 ** 6), min_size=3, max_size=4)}), run_shuffle),
     Spec("C37", "Loaders", "random folders of files loaded with random filters in every way; non-trivial: a file with several rows left", 400, 4000, loads, run_loaders),
     Spec("C37", "Features", "random requests counted in bins; non-trivial: more than three counted values", 500, 5000, analyses, run_features))
