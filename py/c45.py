"""C45: the trace statistics describe the requests of each window."""
import contextlib
import csv
import gzip
import io
import json
import os
import pickle
import sqlite3
import sys
import types
from datetime import datetime, timedelta

from hypothesis import strategies as s

import pandas_standin
from common import REPO, Spec, check, main, scratch, stub, stub_data_manager

sys.modules["pandas"] = pandas_standin
Frame = pandas_standin.Frame


class Bar:
    def __init__(self, it=None, *_, **__):
        self.it, self.desc, self.total = it, "", 0

    def __iter__(self):
        return iter(self.it)

    def update(self, *_):
        pass

    write = set_description = refresh = close = update


def to_feather(self, target, **_):
    if list(self.index) != list(range(len(self))):
        raise ValueError("feather does not support serializing a non-default index for the index; you can .reset_index() to make the index into column(s)")
    raw = b"FEA1" + pickle.dumps({k: v for k, v in self.cols.items()})
    if hasattr(target, "write"):
        target.write(raw)
    else:
        with open(target, "wb") as f:
            f.write(raw)


def read_feather(source, **_):
    raw = source.read() if hasattr(source, "read") else open(source, "rb").read()
    if raw[:4] != b"FEA1":
        raise ValueError("not a feather file")
    return Frame(pickle.loads(raw[4:]))


Frame.to_feather = to_feather
pandas_standin.read_feather = read_feather


class Redis:
    """The shared cache; what other processes load arrives while this one waits."""

    store, coming, waits = {}, {}, 0

    def __init__(self, *_, **__):
        pass

    @staticmethod
    def raw(v):
        return v if isinstance(v, bytes) else str(v).encode()

    def tick(self):
        if self.coming:
            Redis.waits += 1
            if Redis.waits % 2 == 0:
                name = sorted(self.coming)[0]
                self.store.update({k: self.raw(v) for k, v in self.coming.pop(name).items()})
                self.store[name] = b"ADDED"

    def exists(self, *names):
        return sum(n in self.store for n in names)

    def get(self, name):
        self.tick()
        return self.store.get(name)

    def set(self, name, value, nx=False, **_):
        if nx and name in self.store:
            return None
        self.store[name] = self.raw(value)
        return True

    def setnx(self, name, value):
        return bool(self.set(name, value, nx=True))

    def mget(self, keys, *args):
        self.tick()
        return [self.store.get(k) for k in ([keys] if isinstance(keys, str) else list(keys)) + list(args)]

    def mset(self, mapping):
        if not mapping:
            raise ValueError("MSET requires at least one key")
        self.store.update({k: self.raw(v) for k, v in mapping.items()})
        return True


class ResponseError(Exception):
    pass


class Minio:
    objects = {}

    def __init__(self, url, access_key=None, secret_key=None, secure=True, http_client=None, **_):
        self.who = (url, access_key, secret_key)

    def fget_object(self, bucket, name, path, **_):
        if self.who != ("host:9000", "key", "secret") or (bucket, name) not in self.objects:
            raise ResponseError("{} in {} for {}".format(name, bucket, self.who))
        with open(path, "wb") as f:
            f.write(self.objects[bucket, name])


class Pool:
    """A pool of worker processes that works in this process."""

    def __init__(self, processes=None, *_, **__):
        pass

    def imap(self, f, items, chunksize=1):
        return map(f, items)

    def map(self, f, items, chunksize=None):
        return list(map(f, items))

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass

    join = terminate = close


class Figure:
    def __init__(self, **kw):
        self.options, self.bars = kw, []
        for name in ("x_range", "y_range", "xaxis", "yaxis", "xgrid", "ygrid", "legend"):
            setattr(self, name, types.SimpleNamespace())

    def vbar(self, x=None, top=None, source=None, **_):
        data = source.data if source is not None else {}
        self.bars.append((data[x] if isinstance(x, str) else x, data[top] if isinstance(top, str) else top))

    def add_layout(self, *_, **__):
        pass


class Source:
    def __init__(self, data=None, **_):
        self.data = data


SAVED = []


def flat(x):
    return [z for y in x for z in (flat(y) if isinstance(y, (list, tuple)) else [y])]


stub_data_manager()
stub("redis", Redis=Redis, BlockingConnectionPool=lambda **kw: kw)
stub("urllib3", disable_warnings=lambda *_: None, PoolManager=lambda **_: None, Timeout=type("Timeout", (), {"DEFAULT_TIMEOUT": 1}), Retry=lambda **_: None,
     exceptions=types.SimpleNamespace(InsecureRequestWarning=Warning))
for name, attrs in (("minio", {"Minio": Minio}), ("minio.error", {"ResponseError": ResponseError})):  # the folder minio of the tree is no package
    sys.modules[name] = types.ModuleType(name)
    vars(sys.modules[name]).update(attrs, __path__=[])
stub("matplotlib")
stub("matplotlib.pyplot")
stub("bokeh")
stub("bokeh.io")
stub("bokeh.layouts", column=lambda *a, **_: flat(a), row=lambda *a, **_: flat(a))
stub("bokeh.models", ColumnDataSource=Source, FactorRange=lambda *a, **_: list(a))
stub("bokeh.palettes", Accent={n: ["a{}".format(i) for i in range(n)] for n in range(3, 9)}, Category10={n: ["c{}".format(i) for i in range(n)] for n in range(3, 11)})
stub("bokeh.plotting", figure=lambda **kw: Figure(**kw), output_file=lambda *_, **__: None, save=lambda what, *_, **__: SAVED.append(flat([what])))
stub("bokeh.transform", factor_cmap=lambda *_, **__: None)
sys.path.insert(0, REPO)
SCRIPT = os.path.join(REPO, "scripts", "DataAnalysis", "statistics.py")
stats = types.ModuleType("trace_statistics")
stats.__file__ = SCRIPT
sys.modules["trace_statistics"] = stats
with open(SCRIPT) as script:
    exec(compile(script.read(), SCRIPT, "exec"), stats.__dict__)
for name, value in list(vars(stats).items()):
    if name == "tqdm":
        stats.tqdm = Bar
    elif name == "Pool":
        stats.Pool = Pool
    elif getattr(value, "__name__", "") == "multiprocessing":
        setattr(stats, name, types.SimpleNamespace(Pool=Pool, cpu_count=lambda: 4))

COLUMNS = ["day", "filename", "protocol", "task_monitor_id", "task_id", "job_id", "site_name", "job_success", "job_length_h", "job_length_m", "user", "cpu_time", "io_time", "size"]
GB = 1024.0 ** 3


def command(*args):
    old = sys.argv
    sys.argv = ["statistics.py", *map(str, args)]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            stats.main()
    finally:
        sys.argv = old


def close(a, b):
    if a is None or isinstance(a, float) and a != a:
        return b is None or b != b
    return b is not None and b == b and abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))


KINDS = ["data", "data", "mc", "mc", "user", "hidata"]


def file_name(n, sets, wide=0):
    k = n % sets
    return "/store/{}/Run{}/PD{}/AOD/v1/{}/{}.root".format(KINDS[k % len(KINDS)], k % 3, k, k % 2, n)


def set_of(name):
    return "/".join(name.split("/")[:7])


def file_size(n):
    return (n * 7919 % 9) * 397 * 1024 ** 2 + n % 2  # some sizes are equal


def record(r, sets, start):
    begin = start + timedelta(minutes=r["start"])
    return {"FileName": file_name(r["f"], sets), "UserId": "u{}".format(r["user"]), "SiteName": "T2_{}".format(r["site"]), "TaskMonitorId": "tm{}".format(r["task"]), "TaskId": "t{}".format(r["task"]),
            "JobId": "j{}".format(r["job"]), "ProtocolUsed": r["protocol"], "JobExecExitCode": r["code"], "NCores": r["cores"] if r["text"] else str(r["cores"]),
            "WrapWC": str(r["wc"]) if r["text"] else r["wc"], "WrapCPU": str(r["cpu"]) if r["text"] else r["cpu"],
            "StartedRunningTimeStamp": int(begin.timestamp() * 1000), "FinishedTimeStamp": int((begin + timedelta(seconds=r["length"])).timestamp() * 1000)}


def row_of(r, sets, start, sizes):
    name = file_name(r["f"], sets)
    cpu = r["cpu"] / r["cores"]
    return {"day": start.timestamp(), "filename": name, "protocol": r["protocol"], "task_monitor_id": "tm{}".format(r["task"]), "task_id": "t{}".format(r["task"]), "job_id": "j{}".format(r["job"]),
            "site_name": "T2_{}".format(r["site"]), "job_success": r["code"] == "0", "job_length_h": r["length"] // 3600, "job_length_m": r["length"] // 60, "user": "u{}".format(r["user"]),
            "cpu_time": cpu, "io_time": r["wc"] - cpu, "size": sizes.get(name)}


def write_sizes(d, known):
    for kind in ("mc", "data"):
        con = sqlite3.connect(os.path.join(d, kind + "_file_sizes.db"))
        con.execute("CREATE TABLE file_sizes (f_logical_file_name TEXT PRIMARY KEY, f_file_size INTEGER)")
        con.executemany("INSERT INTO file_sizes VALUES (?, ?)", [(k, v) for k, v in known.items() if "/store/{}/".format(kind) in k])
        con.commit()
        con.close()


def read_rows(path):
    with gzip.open(path, "rb") as f:
        frame = read_feather(f)
    return [dict(zip(frame.cols, r)) for r in frame.itertuples(index=False)]


def same_rows(got, want, where):
    check(len(got) == len(want), "{}: {} rows of {} records", where, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for k in COLUMNS:
            check(k in g, "{}: no column {}", where, k)
            ok = close(w[k], g[k]) if k in ("day", "cpu_time", "io_time", "size") else g[k] == w[k]
            check(ok, "{}, record {}: {} is {!r}, the record has {!r}", where, i, k, g[k], w[k])


def measures(rows):
    """What the statistics of a window are."""
    count, size = {}, {}
    for r in rows:
        count[r["filename"]] = count.get(r["filename"], 0) + 1
        if r["size"] is not None:
            size.setdefault(r["filename"], r["size"])
    many = [c for c in count.values() if c > 1]

    def distinct(by, what):
        groups = {}
        for r in rows:
            groups.setdefault(r[by], set()).add(r[what])
        return sum(map(len, groups.values())) / len(groups)

    def tally(values):
        res = {}
        for v in values:
            res[v] = res.get(v, 0) + 1
        return res

    def total(key, protocol=None):
        return sum(r[key] for r in rows if protocol in (None, r["protocol"]))
    return {
        "num_requests": len(rows), "num_files": len(count), "mean_num_req_x_file": len(rows) / len(count), "mean_num_req_x_file_gmin": sum(many) / len(many) if many else None,
        "num_req_x_file_frequencies": tally(count.values()), "size_all_files": sum(size.values()) / GB, "size_file_1req": sum(v for k, v in size.items() if count[k] == 1) / GB,
        "size_file_g1req": sum(v for k, v in size.items() if count[k] > 1) / GB,
        "desc_file_sizes": tally(v // 1024 ** 2 if v < GB else v // 1024 ** 3 * 1000 for v in size.values()),
        "sizes_x_min_num_requests": {n: sum(v for k, v in size.items() if count[k] >= n) / GB for n in range(1, 21)},
        "num_users": len({r["user"] for r in rows}), "num_sites": len({r["site_name"] for r in rows}), "num_tasks": len({r["task_id"] for r in rows}), "num_jobs": len({r["job_id"] for r in rows}),
        "protocols": tally(r["protocol"] for r in rows), "all_cpu_time": total("cpu_time"), "all_io_time": total("io_time"), "local_cpu_time": total("cpu_time", "Local"),
        "local_io_time": total("io_time", "Local"), "remote_cpu_time": total("cpu_time", "Remote"), "remote_io_time": total("io_time", "Remote"),
        "mean_num_files_x_job": distinct("job_id", "filename"), "mean_num_files_x_task": distinct("task_id", "filename"), "mean_num_files_x_user": distinct("user", "filename"),
        "mean_num_jobs_x_task": distinct("task_id", "job_id"), "mean_num_jobs_x_user": distinct("user", "job_id"), "mean_num_tasks_x_user": distinct("user", "task_id")}


FIGURES = {
    "Req. and file counts": [("Num. Requests", "num_requests"), ("Num. Files", "num_files")],
    "Mean Req. and file counts": [("Num. Request x file", "mean_num_req_x_file"), ("Num. Request x file (req > 1)", "mean_num_req_x_file_gmin")],
    "Request file stats": [("Mean Num. Files x User", "mean_num_files_x_user"), ("Mean Num. Files x Task", "mean_num_files_x_task"), ("Mean Num. Files x Job", "mean_num_files_x_job")],
    "User and task stats": [("Mean Num. Jobs x User", "mean_num_jobs_x_user"), ("Mean Num. Tasks x User", "mean_num_tasks_x_user"), ("Mean Num. Jobs x Task", "mean_num_jobs_x_task")],
    "Sizes": [("Size all files", "size_all_files"), ("Size files with 1 req", "size_file_1req"), ("Size files with req > 1", "size_file_g1req")],
    "Window stats": [("Num. users", "num_users"), ("Num. sites", "num_sites"), ("Num. tasks", "num_tasks"), ("Num. jobs", "num_jobs")]}


def same_measures(got, want, where):
    for k, w in want.items():
        check(k in got, "{}: {} is missing", where, k)
        if isinstance(w, dict):
            g = {float(a) if not isinstance(a, str) else a: b for a, b in got[k].items()}
            w = {float(a) if not isinstance(a, str) else a: b for a, b in w.items()}
            check(sorted(map(str, g)) == sorted(map(str, w)) and all(close(w[x], g[x]) for x in w), "{}: {} is {!r} instead of {!r}", where, k, g, w)
        else:
            check(close(w, got[k]), "{}: {} is {!r} instead of {!r}", where, k, got[k], w)


def run(case, rec):
    sets = case["sets"]
    start = datetime(2018, 1, 28) + timedelta(days=case["start"])
    days = [start + timedelta(days=i) for i in range(len(case["days"]))]
    names = sorted({file_name(r["f"], sets) for d in case["days"] for r in d})
    number = {file_name(r["f"], sets): r["f"] for d in case["days"] for r in d}
    known = {n: file_size(number[n]) for n in names if (number[n] + case["gaps"]) % 4}
    usable = {n: v for n, v in known.items() if n.split("/")[2] in ("data", "mc")}
    with scratch() as d:
        out = os.path.join(d, "out")
        args = []
        sizes = {}
        Redis.store, Redis.coming, Redis.waits = {}, {}, 0
        if case["db"]:
            os.mkdir(os.path.join(d, "db"))
            write_sizes(os.path.join(d, "db"), usable)
            args += ["--file-size-db-path", os.path.join(d, "db")]
            sizes = usable
            if case["redis"]:
                args += ["--redis-url", "localhost"]
                for i, name in enumerate(sorted({set_of(n) for n in names if n.split("/")[2] in ("data", "mc")})):
                    there = {n: v for n, v in usable.items() if set_of(n) == name}
                    how = (i + case["cached"]) % 4 if case["cached"] else 0
                    if how == 1:
                        Redis.store.update({k: Redis.raw(v) for k, v in there.items()})
                        Redis.store[name] = b"ADDED"
                        rec.cls("set already cached")
                    elif how == 2:
                        Redis.coming[name] = there
                        Redis.store[name] = b"PENDING"
                        rec.cls("set loaded by another process")
        Minio.objects = {}
        for day, reqs in zip(days, case["days"]):
            Minio.objects["bucket", "year{}_month{}_day{}.json.gz".format(day.year, day.month, day.day)] = gzip.compress("".join(json.dumps(record(r, sets, day)) + "\n" for r in reqs).encode())
        command("extract", "--out-folder", out, "--start-date", "{} {} {}".format(start.year, start.month, start.day), "--window-size", len(days), "--minio-config", "host:9000 key secret bucket", "-j",
                case["jobs"], *args)
        results = []
        for day, reqs in zip(days, case["days"]):
            name = "results_{:%Y-%m-%d}.feather.gz".format(day)
            check(name in os.listdir(out), "{} is missing, there are {!r}", name, sorted(os.listdir(out)))
            rows = [row_of(r, sets, day, sizes) for r in reqs]
            same_rows(read_rows(os.path.join(out, name)), rows, name)
            results.append((name, rows))
        check(sorted(os.listdir(out)) == sorted(n for n, _ in results), "the folder holds {!r}", sorted(os.listdir(out)))
        if not sizes or any(r["size"] is not None for _, x in results for r in x):
            rec.cls("redis" if case["db"] and case["redis"] else "sqlite" if case["db"] else "no sizes")
        # the windows
        if case["csv"] and case["csv"] - 1 < len(results):
            name, rows = results[case["csv"] - 1]
            os.remove(os.path.join(out, name))
            name = name.replace(".feather", ".csv")
            with gzip.open(os.path.join(out, name), "wt", newline="") as f:
                w = csv.writer(f)
                w.writerow(["index"] + COLUMNS)
                for i, r in enumerate(rows):
                    w.writerow([i] + ["" if r[c] is None else r[c] for c in COLUMNS])
            results[case["csv"] - 1] = (name, rows)
            rec.cls("csv")
        for noise in ("results_old.txt", "tmp_2018-1-1.json.gz", "statistics.html"):
            with open(os.path.join(out, noise), "w"):
                pass
        width = case["window"]
        windows = [results[i:i + width] for i in range(0, len(results), width)]
        if not all(any(r for _, r in w) for w in windows):
            return
        want = [measures([r for _, rows in w for r in rows]) for w in windows]
        for i, w in enumerate(windows):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                got = stats.make_dataframe_stats(([os.path.join(out, n) for n, _ in w], i, 0))
            same_measures(got, want[i], "window {}".format(i))
        del SAVED[:]
        command("plot", "--result-folder", out, "--window-size", width, "-j", case["jobs"])
        check(len(SAVED) == 1, "{} pages saved", len(SAVED))
        shown = {f.options["title"]: f for f in SAVED[0] if isinstance(f, Figure)}
        check(sorted(shown) == sorted(FIGURES), "the figures are {!r}", sorted(shown))
        for title, parts in FIGURES.items():
            (bar,) = shown[title].bars
            points = list(zip([tuple(x) for x in bar[0]], bar[1]))
            expected = [(("Window {}".format(i), label), w[key]) for i, w in enumerate(want) for label, key in parts]
            check(len(points) == len(expected) and [p[0] for p in points] == [e[0] for e in expected] and all(close(e[1], p[1]) for p, e in zip(points, expected)),
                  "{} shows {!r} instead of {!r}", title, points, expected)
        if len(windows) > 1 and any(m["mean_num_req_x_file_gmin"] for m in want):
            rec.non_trivial()


def run_many(case, rec):
    """More records than are buffered, of more datasets than fit in one query."""
    n, sets = case["records"], case["sets"]
    files = case["files"]
    day = datetime(2018, 3, 4)
    known = {file_name(i, sets): file_size(i) for i in range(files) if i % 5 and KINDS[i % sets % len(KINDS)] in ("data", "mc")}
    with scratch() as d:
        Redis.store, Redis.coming, Redis.waits = {}, {}, 0
        write_sizes(d, known)
        obj = stats.Statistics(d, "localhost" if case["redis"] else None)
        base = {"user": 1, "site": 2, "task": 3, "protocol": "Local", "code": "0", "cores": 2, "text": False, "wc": 4.0, "cpu": 2.0, "start": 5, "length": 3661}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for i in range(n):
                obj.add((2018, 3, 4 if i < case["look"] else 5), record(dict(base, f=i * case["step"] % files, job=i), sets, day))
                if i == case["look"] // 2:
                    check(len(obj.data) == i + 1, "{} rows of {} records", len(obj.data), i + 1)
            got = obj.data
            again = obj.data
        check(len(got) == len(again) == n, "{} rows, then {}, of {} records", len(got), len(again), n)
        names, jobs, size, days = (got[c].to_list() for c in ("filename", "job_id", "size", "day"))
        for i in range(n):
            name = file_name(i * case["step"] % files, sets)
            check(names[i] == name and jobs[i] == "j{}".format(i), "row {} is {!r} of job {!r}", i, names[i], jobs[i])
            check(days[i] == (day if i < case["look"] else day + timedelta(days=1)).timestamp(), "row {} is of day {!r}", i, days[i])
            check(close(known.get(name), size[i]), "row {}: the size of {} is {!r} instead of {!r}", i, name, size[i], known.get(name))
    rec.cls("redis" if case["redis"] else "sqlite")
    if n > 42000:
        rec.cls("several flushes")
    if min(sets, files, n) >= 3000:
        rec.non_trivial()


req = s.fixed_dictionaries({"f": s.integers(0, 25), "user": s.integers(0, 3), "site": s.integers(0, 3), "task": s.integers(0, 4), "job": s.integers(0, 9), "protocol": s.sampled_from(["Local", "Remote", "Unknown"]),
                            "code": s.sampled_from(["0", "0", "1", "", "50", "256"]), "cores": s.sampled_from([1, 2, 4, 8]), "text": s.booleans(), "wc": s.integers(0, 4000).map(lambda x: x / 4),
                            "cpu": s.integers(0, 4000).map(lambda x: x / 4), "start": s.integers(0, 1439), "length": s.one_of(s.integers(0, 400), s.sampled_from([3599, 3600, 3601, 7199, 7200, 86400]), s.integers(0, 200000))})
cases = s.fixed_dictionaries({"days": s.lists(s.one_of(s.lists(req, max_size=4), s.lists(req, min_size=3, max_size=25)), min_size=1, max_size=6), "sets": s.integers(1, 12), "start": s.integers(0, 40), "gaps": s.integers(0, 3),
                              "db": s.sampled_from([True, True, True, False]), "redis": s.booleans(), "cached": s.integers(0, 4), "jobs": s.integers(1, 4), "csv": s.integers(0, 6), "window": s.integers(1, 4)})
many = s.fixed_dictionaries({"records": s.sampled_from([42001, 3500, 45000, 42000, 6000]), "sets": s.sampled_from([3000, 4500, 2400]), "files": s.sampled_from([6000, 4000, 9000]), "step": s.sampled_from([1, 7, 13]), "look": s.integers(0, 50000), "redis": s.booleans()})

main(Spec("C45", "Windows", "random days of records extracted with sizes from the databases or the shared cache, then plotted in windows; non-trivial: several windows and a file requested more than once", 150, 2000, cases, run),
     Spec("C45", "Many", "tens of thousands of records of thousands of datasets; non-trivial: at least 3000 datasets", 2, 8, many, run_many))
