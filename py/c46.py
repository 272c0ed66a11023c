"""C46: preparing the traces: moving, filtering, cleaning and bounding them loses and invents nothing."""
import csv
import gzip
import importlib.util
import io
import json
import os
import shlex
import subprocess
import sys
import types
from contextlib import contextmanager, redirect_stdout
from datetime import datetime, timedelta

from hypothesis import strategies as s

import avro_standin
import pandas_standin
from common import REPO, Spec, check, driver_error, load, main, scratch, stub, stub_data_manager

stub_data_manager()
sys.modules["pandas"] = pandas_standin


class Bar:
    def __init__(self, it=None, *_, **__):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def update(self, *_):
        pass

    close = update


sys.modules["tqdm"].tqdm = Bar


class Refused(Exception):
    pass


class Store:
    """The object store; every client sees the same objects."""
    objects, refuse, log, opened = {}, None, [], []

    def __init__(self, url, access_key=None, secret_key=None, **_):
        Store.opened.append((url, access_key, secret_key))

    def ask(self, *what):
        Store.log.append(what)
        if Store.refuse is not None and Store.refuse(what):
            raise Refused(repr(what))

    def fget_object(self, bucket, name, path, *_, **__):
        self.ask("get", bucket, name)
        if (bucket, name) not in Store.objects:
            raise Refused("no such object " + name)
        with open(path, "wb") as f:
            f.write(Store.objects[bucket, name])

    def fput_object(self, bucket, name, path, *_, **__):
        self.ask("put", bucket, name)
        with open(path, "rb") as f:
            Store.objects[bucket, name] = f.read()


for name in ("minio", "minio.error"):  # the folder minio of the repository hides an absent library
    sys.modules[name] = types.ModuleType(name)
sys.modules["minio"].Minio, sys.modules["minio"].error = Store, sys.modules["minio.error"]
vars(sys.modules["minio.error"]).update(ResponseError=Refused, BucketAlreadyExists=type("BucketAlreadyExists", (Exception,), {}), BucketAlreadyOwnedByYou=type("BucketAlreadyOwnedByYou", (Exception,), {}))
stub("urllib3", exceptions=type("exceptions", (), {"InsecureRequestWarning": Warning}), disable_warnings=lambda *_: None, Timeout=type("Timeout", (), {"DEFAULT_TIMEOUT": None}),
     PoolManager=lambda *_, **__: None, Retry=lambda *_, **__: None)
load("DataManager")
api = load("DataManager.collector.api")


def script(path):
    spec = importlib.util.spec_from_file_location("script_" + os.path.basename(path)[:-3].replace("-", "_"), os.path.join(REPO, path))
    m = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(m)
    except Exception as e:
        driver_error(f"cannot import {path}: {e!r}")
    return m


ANALYSIS = script("scripts/filter_analysis_logs.py")
DATA_MC = script("scripts/filter_analysis_data-mc_logs.py")
MOVE = script("scripts/move_data_hdfs2minio.py")
CLEAN = script("scripts/DataAnalysis/clean_csv.py")
BOUND = script("datasets/add_hit_upper_bound.py")


@contextmanager
def standing_in(folder, argv=()):
    here, old = os.getcwd(), list(sys.argv)
    os.chdir(folder)
    sys.argv[:] = ["script"] + list(argv)  # in place: some import the list by name
    try:
        with redirect_stdout(io.StringIO()):
            yield
    finally:
        os.chdir(here)
        sys.argv[:] = old


def run(module, folder, argv):
    """The error the script ends with, if any."""
    with standing_in(folder, argv):
        try:
            module.main()
        except (Refused, subprocess.CalledProcessError) as e:
            return e
    return None


def avro(records):
    f = io.BytesIO()
    schema = {"type": "record", "name": "R", "fields": [{"name": "FileName", "type": "string"}, {"name": "Type", "type": "string"}, {"name": "n", "type": "long"}, {"name": "ok", "type": "boolean"}]}
    avro_standin.writer(f, avro_standin.parse_schema(schema), records)
    return f.getvalue()


def days(case):
    y, m, d = case["start"]
    return [datetime(y, m, d) + timedelta(days=i) for i in range(len(case["days"]))]


def start(case):
    return " ".join(f"{x:0{case['zeros']}d}" for x in case["start"])


def make(recs):
    return [{"FileName": r["file"], "Type": r["type"], "n": i * 7 + r["n"], "ok": bool(r["n"] % 2)} for i, r in enumerate(recs)]


def of_data_or_mc(name):
    parts = [x for x in name.split("/") if x]
    return len(parts) > 1 and parts[1] in ("data", "mc")


def run_filter(case, rec):
    module, tail = ((ANALYSIS, "-analysis"), (DATA_MC, "-analysis-data-mc"))[case["data_mc"]]
    bucket = case["bucket"]
    Store.objects, Store.log, Store.opened = {}, [], []
    names, want = [], {}
    for day, recs in zip(days(case), case["days"]):
        name = f"year{day.year}_month{day.month}_day{day.day}"
        names.append(name)
        rows = make(recs)
        Store.objects[bucket, name + ".avro"] = avro(rows)
        want[name] = [r for r in rows if r["Type"].lower() == "analysis" and (not case["data_mc"] or of_data_or_mc(r["FileName"]))]
    for extra in (-1, len(names)):  # days before and after the period
        day = days(case)[0] + timedelta(days=extra)
        Store.objects[bucket, f"year{day.year}_month{day.month}_day{day.day}.avro"] = avro(make([{"file": "/store/data/extra", "type": "analysis", "n": 1}]))
    source = dict(Store.objects)
    bad = case["refused"]
    rounds = [None] if bad is None else [bad, None]
    done = {}
    with scratch() as d:
        for r in rounds:
            at = None if r is None else (r["day"] % len(names), r["what"])
            Store.refuse = None if at is None else lambda what: what[0] == at[1] and what[2].startswith(names[at[0]] + ".")
            err = run(module, d, ["host:9000", "access", "secret", bucket, start(case), str(len(names))])
            check((err is None) == (at is None), "refused {!r}: ended with {!r}", at, err)
            done.update({n: want[n] for n in (names if at is None else names[:at[0]])})
            got = {k: v for k, v in Store.objects.items() if k not in source}
            check(set(got) == {(bucket + tail, n + ".json.gz") for n in done}, "stored {!r} for {!r}, refused {!r}", sorted(got), sorted(done), at)
            check(all(Store.objects[k] == v for k, v in source.items()), "the source data were changed")
            for (_, name), raw in got.items():
                lines = [json.loads(x) for x in gzip.decompress(raw).decode().splitlines() if x.strip()]
                check(lines == done[name.split(".")[0]], "{}: kept {!r} instead of {!r}", name, lines, done[name.split(".")[0]])
            if at is None:
                check(os.listdir(d) == [], "left behind {!r}", os.listdir(d))
    check(set(Store.opened) == {("host:9000", "access", "secret")}, "connected as {!r}", Store.opened)
    if any(0 < len(want[n]) < len(r) for n, r in zip(names, case["days"])):
        rec.non_trivial()
    if bad is not None:
        rec.cls("refused")
    if len({x.month for x in days(case)}) > 1:
        rec.cls("months")


BASE = "/project/awg/cms/jm-data-popularity/avro-snappy"


def run_move(case, rec):
    bucket = case["bucket"]
    Store.objects, Store.log, Store.opened = {}, [], []
    hdfs, names = {}, []
    for day, recs in zip(days(case), case["days"]):
        hdfs[f"{BASE}/year={day.year}/month={day.month}/day={day.day}/part-m-00000.avro"] = avro(make(recs))
        names.append(f"year{day.year}_month{day.month}_day{day.day}.avro")
    paths = list(hdfs)
    bad = case["refused"]
    at = None if bad is None else bad["day"] % len(names)
    missing = bad is not None and bad["what"] == "get"
    Store.refuse = None if bad is None or missing else lambda what: what[2] == names[at]

    def call(cmd, *_, **__):
        words = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
        check(words[:3] == ["hdfs", "dfs", "-get"] and len(words) in (4, 5), "command {!r}", cmd)
        check(words[3] in hdfs, "asked for {!r}, there are {!r}", words[3], paths)
        target = words[4] if len(words) == 5 else os.path.basename(words[3])
        if missing and words[3] == paths[at] or os.path.exists(target):
            raise subprocess.CalledProcessError(1, cmd)  # hdfs does not overwrite a file
        with open(target, "wb") as f:
            f.write(hdfs[words[3]])
        return 0

    real = {k: getattr(subprocess, k) for k in ("check_call", "call", "run", "check_output", "Popen")}
    with scratch() as d:
        try:
            for k in real:
                setattr(subprocess, k, call)
            err = run(MOVE, d, ["host:9000", "access", "secret", bucket, start(case), str(len(names))])
        finally:
            for k, v in real.items():
                setattr(subprocess, k, v)
        check((err is not None) == missing, "ended with {!r}, refused {!r} {!r}", err, bad, at)
        want = {(bucket, n): hdfs[p] for i, (n, p) in enumerate(zip(names, paths)) if i != at and not (missing and i > at)}
        check(Store.objects == want, "stored {!r} instead of {!r}, refused {!r} {!r}", {k: len(v) for k, v in Store.objects.items()}, {k: len(v) for k, v in want.items()}, bad, at)
        check(os.listdir(d) == [], "left behind {!r}", os.listdir(d))
    if len(names) > 1:
        rec.non_trivial()
    if bad is not None:
        rec.cls("missing" if missing else "refused")


def write(path, head, rows):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    opener = gzip.open if path.endswith(".gz") else open
    with opener(path, "wt", newline="") as f:
        w = csv.writer(f, lineterminator="\n")
        w.writerow(head)
        w.writerows(rows)


def cell(text):
    try:
        return float(text)
    except ValueError:
        return text


def run_clean(case, rec):
    with scratch() as d:
        src = os.path.join(d, "logs")
        os.mkdir(src)
        want = {}
        for n, t in enumerate(case["tables"]):
            head = ["Filename", "Size", "n"]
            at = t["index"]
            if at is not None:
                head.insert(at % 4, "index")
            rows = []
            for i, r in enumerate(t["rows"]):
                row = [r["file"], r["size"], i]
                if at is not None:
                    row.insert(at % 4, 100 + i)
                if r["hole"] is not None:
                    row[r["hole"] % len(row)] = ""
                rows.append(row)
            name = f"results_{n}" + (".csv.gz" if t["gz"] else ".csv")
            write(os.path.join(src, *t["folder"], name), head, rows)
            if t["gz"]:
                keep = [i for i, c in enumerate(head) if c != "index"]
                want[name] = [[head[i] for i in keep]] + [[cell(str(row[i])) for i in keep] for row in rows if "" not in row]
        before = {os.path.join(a, f): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(src) for f in fs}
        for _ in range(2 if case["twice"] else 1):
            with standing_in(d, [src if case["absolute"] else "logs"]):
                CLEAN.main()
            got = {}
            for name in os.listdir(src + "_clean"):
                with gzip.open(os.path.join(src + "_clean", name), "rt", newline="") as f:
                    lines = list(csv.reader(f))
                got[name] = lines[:1] + [[cell(x) for x in line] for line in lines[1:]]
            check(got == want, "cleaned into {!r} instead of {!r}", got, want)
        after = {os.path.join(a, f): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(src) for f in fs}
        check(after == before, "the source was changed")
        if any(len(v) > 1 and len(v) < 1 + len(t["rows"]) for t, v in zip([t for t in case["tables"] if t["gz"]], want.values())):
            rec.non_trivial()


def run_bound(case, rec):
    with scratch() as d:
        want = {}
        for n, t in enumerate(case["folders"]):
            for m, rows in enumerate(t):
                path = os.path.join(d, f"set{n}", f"results_{m}.csv.gz")
                table = [[f"f{r['f']}", 100 + 37 * r["f"], r["ok"]] for r in rows] + [["f0", 100, True]]
                write(path, ["Filename", "Size", "JobSuccess"], table)
                good = [r for r in table if r[2]]
                sizes = {r[0]: r[1] for r in good}
                total = sum(r[1] for r in good)
                want[os.path.realpath(path)] = (100 * (len(good) - len(sizes)) / len(good), 100 * (total - sum(sizes.values())) / total)
                if len(good) > len(sizes) > 1 and len(good) < len(table):
                    rec.non_trivial()
        write(os.path.join(d, "other.csv"), ["a"], [[1]])
        out = io.StringIO()
        with standing_in(d):
            with redirect_stdout(out):
                BOUND.main()
        got = {}
        for line in out.getvalue().splitlines():
            words = line.split()
            if len(words) == 3 and words[0].endswith(".csv.gz"):
                check(os.path.realpath(words[0]) not in got, "{} is given twice", words[0])
                got[os.path.realpath(words[0])] = tuple(map(float, words[1:]))
        check(set(got) == set(want), "bounds of {!r} instead of {!r}", sorted(got), sorted(want))
        for k in want:
            check(all(abs(a - b) < 1e-9 * (1 + abs(b)) for a, b in zip(got[k], want[k])), "{}: hit rate and read on hit at most {!r} instead of {!r}", k, got[k], want[k])


name = s.sampled_from(["/store/data/Run2016B/a.root", "/store/mc/RunII/b.root", "/store/user/c.root", "/store/data", "store/mc/x", "/store//data/y", "/data/store/z", "/mc", "", "/store/dataset/q", "/store/MC/w", "/store/group/data/v"])
record = s.fixed_dictionaries({"file": name, "type": s.sampled_from(["analysis", "Analysis", "ANALYSIS", "production", "analysis-test", "", " analysis"]), "n": s.integers(0, 5)})
day_of = lambda d: (d.year, d.month, d.day)
month_ends = s.builds(lambda y, m, back: day_of(datetime(y + m // 12, m % 12 + 1, 1) - timedelta(days=back)), s.sampled_from([2016, 2018, 2020]), s.integers(1, 12), s.integers(1, 3))
dates = s.one_of(s.tuples(s.sampled_from([2016, 2018, 2020]), s.integers(1, 12), s.integers(1, 28)), month_ends, s.sampled_from([(2016, 2, 28), (2018, 12, 31), (2018, 1, 9)]))
refused = s.none() | s.fixed_dictionaries({"day": s.integers(0, 4), "what": s.sampled_from(["get", "put"])})
period = {"start": dates, "zeros": s.sampled_from([1, 2]), "days": s.lists(s.lists(record, max_size=8), min_size=1, max_size=4), "bucket": s.sampled_from(["logs", "a-b"]), "refused": refused}
filters = s.fixed_dictionaries({**period, "data_mc": s.booleans()})
moves = s.fixed_dictionaries(period)
row = s.fixed_dictionaries({"file": s.sampled_from(["a", "b,c", "d e", 'q"q']), "size": s.one_of(s.integers(1, 10 ** 6), s.integers(1, 400).map(lambda x: x / 8)), "hole": s.none() | s.integers(0, 3)})
tables = s.fixed_dictionaries({"tables": s.lists(s.fixed_dictionaries({"rows": s.lists(row, max_size=8), "index": s.none() | s.integers(0, 3), "gz": s.sampled_from([True, True, True, False]),
                                                                     "folder": s.lists(s.sampled_from(["a", "b"]), max_size=2)}), min_size=1, max_size=4), "twice": s.booleans(), "absolute": s.booleans()})
bounds = s.fixed_dictionaries({"folders": s.lists(s.lists(s.lists(s.fixed_dictionaries({"f": s.integers(0, 6), "ok": s.sampled_from([True, True, False])}), max_size=12), max_size=3), min_size=1, max_size=3)})

main(Spec("C46", "Filter", "days of records filtered in the store, some refused at first; non-trivial: some but not all records kept", 250, 3000, filters, run_filter),
     Spec("C46", "Move", "days of files moved to the store; non-trivial: several days", 250, 3000, moves, run_move),
     Spec("C46", "Clean", "folders of tables with missing values; non-trivial: some but not all rows kept", 250, 3000, tables, run_clean),
     Spec("C46", "Bound", "bounds of the hit rate of folders of tables; non-trivial: repeated files and failed jobs", 250, 3000, bounds, run_bound))
