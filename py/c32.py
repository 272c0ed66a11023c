"""C32: stages, pipelines and resources of the dataset composer."""
import collections
import datetime
import gzip
import io
import json
import os
from fractions import Fraction

from hypothesis import strategies as s

from common import Spec, check, inner, load, main, scratch, stub_data_manager

stub_data_manager()
stage_mod = load("DataManager.collector.dataset.stage")
gen_mod = load("DataManager.collector.dataset.generator")
res_mod = load("DataManager.collector.dataset.resource")
utils = load("DataManager.collector.dataset.utils")
avro = load("DataManager.collector.datafile.avro")
api = load("DataManager.collector.api")
ext = load("DataManager.collector.datafeatures.extractor")

FIELDS = list(ext.CMSDataPopularityRaw.__init__.__defaults__[1])


class Spark:
    """The part of a Spark context a stage uses; it runs at once."""

    def __init__(self, n):
        self.defaultParallelism = n

    def parallelize(self, data, slices=None):
        return Spark.Data(list(data))

    class Data:
        def __init__(self, data):
            self.data = data

        def map(self, f):
            return Spark.Data([f(x) for x in self.data])

        def collect(self):
            return self.data


def raw_record(r, i):
    """A record of the raw collection with every listed field, of one type each."""
    res = {name: f"{name}{i % 3}" for name in FIELDS}
    res.update(FileName=r["name"], Type=r["type"], WrapCPU=float(r["cpu"]) / 4, WrapWC=2.5 * i, NCores=i % 8,
               FinishedTimeStamp=1514764800000 + i * 86400000, SuccessFlag=i % 2 == 0, JobExecExitCode=str(r["n"]), extra="dropped")
    return res


def parts(name):
    p = [x for x in name.split("/") if x]
    return p[1:5] if name != "unknown" and len(p) >= 5 else None


def expect_raw(recs):
    return [{"features": {k: r[k] for k in FIELDS}, "id": r["FileName"], "valid": True} for r in recs if r["Type"] == "analysis"]


def expect_featured(raws):
    res = []
    for r in raws:
        p = parts(r["features"]["FileName"])
        if p and p[0] in ("data", "mc"):
            res.append({"data": r["features"], "features": dict(zip(("store_type", "campaign", "process", "file_type"), p)), "valid": True})
    return res


def expect_test0(featured):
    groups = {}
    for r in featured:
        g = groups.setdefault(json.dumps(r["features"], sort_keys=True), {"features": r["features"], "cpu": 0.0, "n": 0})
        g["cpu"] += r["data"]["WrapCPU"]
        g["n"] += 1
    return list(groups.values())


def text(x, drop=()):
    if isinstance(x, dict):
        x = {k: v for k, v in x.items() if k not in drop}
    return json.dumps(x, sort_keys=True)


def same_bag(got, want, what, drop=()):
    g, w = collections.Counter(text(x, drop) for x in got), collections.Counter(text(x, drop) for x in want)
    check(g == w, "{}: {} records instead of {}; missing or too few {!r}, unexpected or too many {!r}", what, sum(g.values()), sum(w.values()),
          [x[:300] for x in (w - g)][:2], [x[:300] for x in (g - w)][:2])


def check_test0(got, groups):
    check(len(got) == len(groups), "{} merged records instead of {}", len(got), len(groups))
    by = {json.dumps(g["features"], sort_keys=True): g for g in groups}
    scores = {k: Fraction(g["cpu"] / g["n"]) for k, g in by.items()}
    avg = sum(scores.values()) / len(scores)
    exact = all(x.denominator < 1 << 20 for x in scores.values())
    ids = set()
    for rec in got:
        k = json.dumps(rec["features"], sort_keys=True)
        check(k in by, "unexpected record {!r}", rec)
        g = by.pop(k)
        check(rec["tot_requests"] == g["n"] and rec["tot_wrap_cpu"] == g["cpu"], "{!r}: {} requests of CPU {} expected", rec, g["n"], g["cpu"])
        check(rec["num_next_window_hits"] == 0, "hits in {!r}", rec)
        check(rec["id"] and rec["id"] not in ids, "identifier in {!r}", rec)
        ids.add(rec["id"])
        if exact or abs(scores[k] - avg) > Fraction(1, 10 ** 9):
            want = "good" if scores[k] >= avg else "bad"
            check(rec["class"] == want, "score {} with average {} gives {!r}", float(scores[k]), float(avg), rec["class"])


def split(recs, cuts):
    res, at = [], 0
    for c in cuts:
        res.append(recs[at:at + c])
        at += c
    res.append(recs[at:])
    return res


def collectors(chunks, kind):
    """The inputs a source yields: data files or plain lists."""
    res = []
    for c in chunks:
        if kind == "avro" and c:
            f = io.BytesIO()
            w = avro.AvroDataFileWriter(f, c)
            res.append(api.DataFile(io.BytesIO(f.getvalue())))
            del w
        else:
            res.append(c)
    return res


def run_stage(case, rec):
    recs = [raw_record(r, i) for i, r in enumerate(case["recs"])]
    kind = case["stage"]
    raws = expect_raw(recs)
    featured = expect_featured(raws)
    if kind == "raw":
        stage, data, want = stage_mod.CMSRawStage(batch_size=case["batch"]), collectors(split(recs, case["cuts"]), case["input"]), raws
    elif kind == "featured":
        stage, data, want = stage_mod.CMSFeaturedStage(), split(raws, case["cuts"]), featured
    else:
        stage, data, want = stage_mod.CMSRecordTest0Stage(), split(featured, case["cuts"]), expect_test0(featured)
    rec.cls(kind)
    if not want:
        return  # an empty Avro file is no file
    if case["input"] == "generator":
        data = (x for x in data)
    if case["spark"]:
        inner(stage, "_spark_context")._spark_context = Spark(case["procs"])
        out = stage.run(data, use_spark=True)
        rec.cls("spark")
    elif case["run"]:
        out = stage.run(data)
        rec.cls("run")
    else:
        out = stage.pre_output(api.DataFile(stage.task(stage.pre_input(data), num_process=case["procs"])))
        rec.cls(f"processes-{case['procs']}")
    for _ in range(2):
        got = [x for x in out]
        if kind == "test0":
            check_test0(got, want)
        else:
            same_bag(got, want, f"{kind} stage", ("id",) if kind == "featured" else ())
        check(len(out) == len(want), "length {} instead of {}", len(out), len(want))
        out = stage.output if case["spark"] or case["run"] else out
    if case["spark"] and kind == "raw":
        check([text(x) for x in out] == [text(x) for x in want], "the order changed")
    if len(case["cuts"]) >= case["procs"] and len(want) > 2:
        rec.non_trivial()


class Source(res_mod.Resource):
    def __init__(self, chunks):
        super().__init__()
        self.chunks, self.stored = chunks, []

    def get(self):
        yield from self.chunks

    def set(self, data, stage_name=""):
        self.stored.append((stage_name, [x for x in data]))


def run_pipeline(case, rec):
    recs = [raw_record(r, i) for i, r in enumerate(case["recs"])]
    raws = expect_raw(recs)
    featured = expect_featured(raws)
    wants = [raws, featured, expect_test0(featured)][:case["stages"]]
    if not all(wants):
        return
    stages = [stage_mod.CMSRawStage(batch_size=case["batch"]), stage_mod.CMSFeaturedStage(), stage_mod.CMSRecordTest0Stage()][:case["stages"]]
    for st in stages:
        if case["spark"]:
            inner(st, "_spark_context")._spark_context = Spark(case["procs"])
    with scratch() as d:
        chunks = collectors(split(recs, case["cuts"]), case["input"])
        if case["source"] == "local":
            source = local_source(d, case, recs)
            rec.cls("local")
        else:
            source = Source(chunks)
        save = case["save"]
        line = gen_mod.Pipeline("ds", stages, source, batch_size=case["batch"])
        check(line.run(save_stage=save, use_spark=case["spark"]) is line, "run does not return the pipeline")
        for _ in range(1 + len(recs) % 2):  # the second one replaces the first
            line.save(os.path.join(d, "out"))
        with gzip.open(os.path.join(d, "out", "ds.json.gz"), "rt") as f:
            saved = [json.loads(x) for x in f]
        with open(os.path.join(d, "out", "ds.stats.json")) as f:
            stats = json.load(f)
        results = [("result", [x for x in line.result]), ("saved", saved)]
        names = ["CMS-raw", "CMS-Featured", "CMS-Record-Test0"][:case["stages"]]
        for what, got in results:
            if case["stages"] == 3:
                check_test0(got, wants[2])
            else:
                same_bag(got, wants[-1], what, ("id",) if case["stages"] == 2 else ())
        check(stats["result"]["len"] == len(wants[-1]) and line.stats["result"]["len"] == len(wants[-1]), "{} instead of {} records in the statistics", stats, len(wants[-1]))
        check(sorted(stats["time"]["stages"]) == sorted(names), "stages {}", stats)
        if save:
            stored = stored_by(source, names, d)
            for name, got, want in zip(names, stored, wants):
                if name == "CMS-Record-Test0":
                    check_test0(got, want)
                else:
                    same_bag(got, want, f"saved output of {name}", ("id",) if name == "CMS-Featured" else ())
            rec.cls("save-stage")
    rec.cls(f"{case['stages']}-stages")
    if len(recs) > 3 and case["stages"] > 1:
        rec.non_trivial()


def days_of(case):
    start = datetime.date(2018, 1, 1) + datetime.timedelta(days=case["start"])
    return start, [start + datetime.timedelta(days=i) for i in range(len(case["cuts"]) + 1)]


def local_source(d, case, recs):
    start, days = days_of(case)
    for day, chunk in zip(days, split(recs, case["cuts"])):
        folder = os.path.join(d, "data", f"year={day.year}", f"month={day.month}", f"day={day.day}")
        os.makedirs(folder)
        # a day without records still has a file
        schema = inner(avro.AvroDataFileWriter(io.BytesIO(), recs[:1]), "_AvroDataFileWriter__schema")._AvroDataFileWriter__schema
        with open(os.path.join(folder, "part-m-00000.avro"), "wb") as f:
            avro.fast_writer(f, schema, chunk, "null")
    return res_mod.CMSResourceManager(f"{start.year} {start.month} {start.day}", len(days), resource={"local": {"folder": os.path.join(d, "data")}})


def stored_by(source, names, d):
    if isinstance(source, Source):
        check([n for n, _ in source.stored] == names, "outputs of {} were saved", [n for n, _ in source.stored])
        return [r for _, r in source.stored]
    res = []
    folder = os.path.join(d, "data", "cache")
    files = sorted(os.listdir(folder))
    check(len(files) == len(names), "files {} for {} stages", files, len(names))
    for name in names:
        path = [f for f in files if f.endswith(f"_stage-{name}.json.gz")]
        check(len(path) == 1, "files {} for stage {}", files, name)
        res.append([x for x in api.DataFile(os.path.join(folder, path[0]))])
    return res


def run_local(case, rec):
    """Resources on the local disk."""
    recs = [{"v": i, "t": x} for i, x in enumerate(case["texts"])]
    with scratch() as d:
        if case["kind"] == "window":
            if not recs:
                return
            case = dict(case)
            source = local_source(d, case, recs)
            check(source.type == "local", "type {}", source.type)
            got = [[x for x in f] for f in source.get()]
            check(got == split(recs, case["cuts"]), "the window gives {!r}, written {!r}", got, split(recs, case["cuts"]))
            source.set(recs, stage_name="st")
            start, days = days_of(case)
            name = f"dataset_y{start.year}-m{start.month}-d{start.day}_ws{len(days)}_stage-st.json.gz"
            got = [x for x in api.DataFile(os.path.join(d, "data", "cache", name))]
            check(got == recs, "saved {!r}, written {!r}", got, recs)
            rec.cls("window")
        else:
            path = os.path.join(d, "set.json.gz")
            with gzip.open(path, "wt") as f:
                f.write("".join(json.dumps(r) + "\n" for r in recs))
            size = case["batch"]
            source = res_mod.CMSDatasetResourceManager(path, batch_size=size)
            got = list(source.get())
            want = [recs[i:i + size] for i in range(0, len(recs), size)]
            check(got == want, "batches {!r} of {!r}", got, recs)
            source.set(recs, "copy.json.gz", os.path.join(d, "out"))
            got = [x for x in api.DataFile(os.path.join(d, "out", "copy.json.gz"))]
            check(got == recs, "saved {!r}, written {!r}", got, recs)
            rec.cls("dataset")
    if len(recs) > 2:
        rec.non_trivial()


def run_window(case, rec):
    first = datetime.date(2016, 1, 1) + datetime.timedelta(days=case["day"])
    begin = first + datetime.timedelta(days=case["size"] if case["next"] else 0)
    kw = {}
    if case["step"] != 1 or case["named"]:
        kw["step"] = case["step"]
    if case["next"] or case["named"]:
        kw["next_window"] = case["next"]
    got = []
    for x in utils.gen_window_dates(first.year, first.month, first.day, case["size"], **kw):
        got.append(tuple(x))
        check(len(got) <= case["size"], "more dates than days: {!r}", got[-3:])
    want = [begin + datetime.timedelta(days=i) for i in range(0, case["size"], case["step"])]
    check(got == [(w.year, w.month, w.day) for w in want], "{} days from {} in steps of {}: {!r}", case["size"], begin, case["step"], got)
    if len(got) > 1:
        rec.non_trivial()
    ts = case["ms"]
    at = utils.date_from_timestamp_ms(ts)
    check(abs(at.timestamp() - ts / 1000) < 1e-3, "{} ms is {}", ts, at)


def run_config(case, rec):
    """Spark settings are merged as asked."""
    obj = stage_mod.CMSRawStage(spark_conf=case["first"] or {}) if case.get("pipeline") else utils.BaseSpark(case["first"] or {})
    want = {"spark.driver.memory": "2g", "spark.executor.memory": "1g"}
    master, app = None, "SPARK"
    for i, (conf, over) in enumerate([(case["first"] or {}, True)] + case["more"]):
        if i and case.get("pipeline"):
            gen_mod.Pipeline("ds", [obj], Source([]), spark_conf=conf)  # never changes what its stages were given
            over = False
        elif i:
            obj.update_config(conf, overwrite_config=over)
        master, app = conf.get("master", master), conf.get("app_name", app)
        for k, v in conf.get("config", {}).items():
            if over or k not in want:
                want[k] = v
    inner(obj, "_spark_conf", "_spark_app_name", "_spark_master")
    check(obj._spark_conf == want, "settings {!r} instead of {!r}", obj._spark_conf, want)
    check(obj._spark_app_name == app and (master is None or obj._spark_master == master), "master {} application {}", obj._spark_master, obj._spark_app_name)
    other = utils.BaseSpark()
    check(other._spark_conf == {"spark.driver.memory": "2g", "spark.executor.memory": "1g"}, "the settings of another object changed: {!r}", other._spark_conf)
    if len(case["more"]) > 1:
        rec.non_trivial()


names = s.sampled_from(["/store/data/Run2016/Jet/AOD/1/x.root", "/store/data/Run2016/Jet/AOD/2/y.root", "/store/mc/RunII/TTbar/AODSIM/a.root",
                        "/store/mc/RunII/TTbar/MINIAODSIM/a.root", "/store/user/x/y/z/a.root", "unknown", "/store/mc", "//store//data/Run2017/MET/RAW/q.root", "/store/data/C/D/E"])
record = s.fixed_dictionaries({"name": names, "type": s.sampled_from(["analysis", "analysis", "analysis", "production"]), "cpu": s.integers(0, 400), "n": s.integers(0, 3)})
recs = s.lists(record, min_size=1, max_size=24)
cuts = s.lists(s.integers(0, 5), max_size=6)
procs = s.integers(1, 4)
spark = s.booleans()
stages = s.fixed_dictionaries({"recs": recs, "stage": s.sampled_from(["raw", "featured", "test0"]), "cuts": s.lists(s.integers(0, 4), max_size=10), "batch": s.integers(1, 7), "procs": procs,
                               "spark": spark, "run": s.sampled_from([False, False, True]), "input": s.sampled_from(["list", "avro", "generator"])})
pipes = s.fixed_dictionaries({"recs": recs, "stages": s.integers(1, 3), "cuts": cuts, "batch": s.integers(1, 7), "procs": procs, "spark": spark, "save": s.booleans(),
                              "input": s.sampled_from(["list", "avro"]), "source": s.sampled_from(["own", "local"]), "start": s.integers(0, 800)})
local = s.fixed_dictionaries({"kind": s.sampled_from(["window", "dataset"]), "texts": s.lists(s.text("ab é\n", max_size=4), max_size=12), "cuts": cuts, "start": s.integers(0, 800), "batch": s.integers(1, 6)})
window = s.fixed_dictionaries({"day": s.integers(0, 3000), "size": s.integers(0, 70), "step": s.one_of(s.just(1), s.integers(1, 12)), "next": s.booleans(), "named": s.booleans(),
                               "ms": s.one_of(s.integers(0, 2 * 10 ** 12), s.floats(0, 2e12))})
conf = s.fixed_dictionaries({}, optional={"master": s.sampled_from(["local[2]", "yarn"]), "app_name": s.sampled_from(["A", "B"]),
                                          "config": s.dictionaries(s.sampled_from(["spark.driver.memory", "spark.executor.memory", "x", "y"]), s.sampled_from(["3g", "4g", "1"]))})
configs = s.fixed_dictionaries({"pipeline": s.booleans(), "first": s.one_of(s.none(), conf), "more": s.lists(s.tuples(conf, s.booleans()), max_size=4)})

main(Spec("C32", "Stages", "random records in random inputs through one stage with worker processes or a stand-in Spark context; non-trivial: at least as many inputs as workers and more than two records", 250, 2500, stages, run_stage),
     Spec("C32", "Pipelines", "random records through one to three stages, results, saved files and statistics; non-trivial: several stages and more than three records", 250, 2500, pipes, run_pipeline),
     Spec("C32", "Resources", "random windows and datasets on disk; non-trivial: more than two records", 300, 3000, local, run_local),
     Spec("C32", "Windows", "random windows against date arithmetic; non-trivial: more than one date", 1500, 15000, window, run_window),
     Spec("C32", "Settings", "random sequences of Spark settings; non-trivial: several updates", 800, 8000, configs, run_config))
