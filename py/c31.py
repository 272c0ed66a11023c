"""C31: feature records."""
import io
import json
import pickle
from contextlib import redirect_stdout

from hypothesis import strategies as s

from common import Spec, check, load, main, stub_data_manager

stub_data_manager()
mod = load("DataManager.collector.datafeatures.extractor")

RULES = {
    "data or mc": lambda v: v in ("data", "mc"),
    "long": lambda v: len(v) > 3,
    "lower": lambda v: v == v.lower(),
    "never": lambda v: False,
    "always": lambda v: True,
}
NAMES = ["store_type", "campaign", "process", "file_type"]


def features_ok(obj, want, what):
    check(dict(obj.feature) == want and dict(obj.feature_dict) == want, "{} has the features {!r} instead of {!r}", what, obj.feature, want)
    order = sorted(want)
    check(list(obj.features) == [(k, want[k]) for k in order], "{} lists {!r}", what, list(obj.features))
    check(obj.feature_list == [(k, want[k]) for k in order], "{} lists {!r}", what, obj.feature_list)
    kinds = {type(v) for v in want.values()}
    if len(kinds) == 1:
        check([x for x in obj.features2array().tolist()] == [want[k] for k in order], "{} has the array {!r}", what, obj.features2array())


def run_popularity(case, rec):
    parts, filters = case["parts"], case["filters"]
    name = case["lead"] + case["sep"].join(parts) + case["tail"]
    data = dict(case["extra"], FileName=name)
    kept = json.dumps(data)
    args = {}
    if filters is not None:
        args["filters"] = [(f, RULES[r]) for f, r in filters]
    with redirect_stdout(io.StringIO()):
        obj = mod.CMSDataPopularity(data, **args)
    segments = [p for p in name.split("/") if p]
    want, valid = {}, False
    if name != "unknown" and len(segments) >= 5:
        want = dict(zip(NAMES, segments[1:5]))
        rules = filters if filters is not None else [("store_type", "data or mc")]
        valid = all(RULES[r](want[f]) for f, r in rules)
    check(bool(obj) == valid, "{!r} is {} with the filters {!r}", name, "valid" if obj else "not valid", filters)
    features_ok(obj, want, repr(name))
    for k, v in data.items():
        if k.isidentifier():
            check(getattr(obj, k) == v, "field {!r} is {!r} instead of {!r}", k, getattr(obj, k), v)
    check(json.dumps(data) == kept, "the data became {!r}", data)
    ident = obj.record_id
    clone = pickle.loads(pickle.dumps(obj))
    features_ok(clone, want, f"the pickled {name!r}")
    check(bool(clone) == valid, "pickling {!r} changed its validity", name)
    check(clone.record_id == ident, "pickling {!r} changed its identifier from {} to {}", name, ident, clone.record_id)
    check(clone.to_dict() == obj.to_dict() and json.loads(obj.dumps())["features"] == want, "pickling {!r} gives {!r} instead of {!r}", name, clone.to_dict(), obj.to_dict())
    for k, v in data.items():
        if k.isidentifier():
            check(getattr(clone, k) == v, "pickling changed field {!r}", k)
    # the same features from another file name
    other = mod.CMSDataPopularity({"FileName": "/".join(["", "other"] + segments[1:5] + ["x"])}, **args) if valid else None
    if other is not None:
        check(other.record_id == ident, "equal features have the identifiers {} and {}", ident, other.record_id)
        rec.cls("valid")
        rec.non_trivial()
    elif want:
        rec.cls("filtered")
        rec.non_trivial()
    else:
        rec.cls("short")


def run_raw(case, rec):
    data = {k: v for k, v in case["items"]}
    names, filters = case["names"], [(f, RULES[r]) for f, r in case["filters"]]
    data = {**{n: "dflt" for n in names + [f for f, _ in filters]}, **data}
    if case["defaults"]:
        for n in mod.CMSDataPopularityRaw.__init__.__defaults__[1]:
            data.setdefault(n, len(n))
        data["Type"] = "analysis" if case["perm"] % 3 else "production"
        obj = mod.CMSDataPopularityRaw(data)
        valid, names = data["Type"] == "analysis", list(mod.CMSDataPopularityRaw.__init__.__defaults__[1])
        rec.cls("defaults")
    else:
        obj = mod.CMSDataPopularityRaw(data, feature_list=list(names), filters=filters)
        valid = all(f(data[n]) for n, f in filters)
    want = {n: data[n] for n in names} if valid else {}
    check(bool(obj) == valid and obj.valid == valid, "the record of {!r} is {}", data, "valid" if obj else "not valid")
    features_ok(obj, want, "the raw record")
    for n in want:
        if n.isidentifier() and not hasattr(type(obj), n):
            check(getattr(obj, n) == data[n], "feature {!r} is {!r} instead of {!r}", n, getattr(obj, n), data[n])
    ident = obj.record_id
    before = obj.to_dict()
    used = mod.CMSDataPopularityRaw({"a": 1}, feature_list=["a"], filters=[])
    used.record_id
    for how, clone in (("pickling", pickle.loads(pickle.dumps(obj))), ("reloading", mod.CMSDataPopularityRaw().loads(obj.dumps())),
                       ("reloading over another", used.loads(obj.dumps()))):
        features_ok(clone, want, "the record after " + how)
        check(bool(clone) == valid and clone.valid == valid, "{} changed the validity", how)
        check(clone.record_id == ident, "{} changed the identifier from {} to {}", how, ident, clone.record_id)
        check(clone.to_dict() == before, "{} gives {!r} instead of {!r}", how, clone.to_dict(), before)
    order = list(names)
    order = order[case["perm"] % len(order):] + order[:case["perm"] % len(order)]
    if not case["defaults"]:
        twin = mod.CMSDataPopularityRaw(data, feature_list=order, filters=filters)
        check(twin.record_id == ident, "the identifier depends on the order of the features")
    if valid and len(want) > 1:
        rec.non_trivial()
    rec.cls("valid" if valid else "refused")


def run_score(case, rec):
    objs, models = [], []
    for r in case["records"]:
        src = {"features": {k: v for k, v in r["items"]}}
        cpu = 0.0
        if r["cpu"] is not None:
            src["data"] = {"WrapCPU": r["cpu"]}
            cpu = float(r["cpu"])
        objs.append(mod.CMSRecordTest0(src))
        models.append({"features": dict(src["features"]), "cpu": cpu, "req": 1, "class": "UNKNOWN", "hits": 0})
    ids = {}

    def same(obj, m, what):
        check(obj.tot_wrap_cpu == m["cpu"] and obj.tot_requests == m["req"], "{}: {} CPU in {} requests instead of {} in {}", what, obj.tot_wrap_cpu, obj.tot_requests, m["cpu"], m["req"])
        check(obj.score == m["cpu"] / m["req"], "{}: score {} instead of {}", what, obj.score, m["cpu"] / m["req"])
        check(obj.record_class == m["class"], "{}: class {!r} instead of {!r}", what, obj.record_class, m["class"])
        features_ok(obj, m["features"], what)
        d = obj.to_dict()
        check(d["num_next_window_hits"] == m["hits"], "{}: {} hits of the next window instead of {}", what, d["num_next_window_hits"], m["hits"])
        check(d["tot_wrap_cpu"] == m["cpu"] and d["tot_requests"] == m["req"] and d["class"] == m["class"] and d["features"] == m["features"], "{}: dumped as {!r}", what, d)

    def ident(i):
        key = json.dumps(models[i]["features"], sort_keys=True)
        got = objs[i].record_id
        check(ids.setdefault(key, got) == got, "equal features {} have the identifiers {} and {}", key, ids[key], got)
        for k, v in ids.items():
            check(k == key or v != got, "{} and {} have the same identifier", k, key)

    for n, op in enumerate(case["ops"]):
        i, j = op["i"] % len(objs), op["j"] % len(objs)
        what = f"record {i} after step {n} ({op['k']})"
        k = op["k"]
        if k == "add" or k == "iadd":
            if i == j:
                continue
            if k == "add":
                objs[i] = objs[i] + objs[j]
            else:
                objs[i] += objs[j]
            models[i]["cpu"] += models[j]["cpu"]
            models[i]["req"] += models[j]["req"]
            same(objs[j], models[j], f"record {j} added in step {n}")
            rec.cls("merged")
        elif k == "class":
            c = "good" if op["j"] % 2 else "bad"
            objs[i].set_class(c)
            models[i]["class"] = c
        elif k == "load":
            target = mod.CMSRecordTest0()
            if op["j"] > 1:
                # into an object with a past
                target = mod.CMSRecordTest0({"features": {"past": op["j"]}, "data": {"WrapCPU": 5}}).set_class("good" if op["j"] % 2 else "bad").inc_hits()
                target.record_id
                target += mod.CMSRecordTest0()
                rec.cls("loaded-over")
            objs[i] = target.load(json.loads(objs[i].dumps()))
            rec.cls("reloaded")
        elif k == "pickle":
            objs[i] = pickle.loads(pickle.dumps(objs[i]))
            rec.cls("pickled")
        elif k == "feature":
            objs[i].add_feature(f"new{op['j'] % 3}", n)
            models[i]["features"][f"new{op['j'] % 3}"] = n
        elif k == "hits":
            objs[i].inc_hits()
            models[i]["hits"] += 1
        elif k == "id":
            ident(i)
        elif k == "reversed":
            m = models[i]
            objs[i] = mod.CMSRecordTest0().load(dict(objs[i].to_dict(), features=dict(reversed(list(m["features"].items()))), id=None))
        same(objs[i], models[i], what)
    for i in range(len(objs)):
        ident(i)
    # neighbours of the features of a record have other identifiers
    for k, v in models[0]["features"].items():
        if isinstance(v, str) and v:
            other = {n: w for n, w in models[0]["features"].items() if n != k}
            if k + v[0] not in other:
                other[k + v[0]] = v[1:]
                check(mod.CMSRecordTest0({"features": other}).record_id != objs[0].record_id, "{!r} and {!r} have the same identifier", other, models[0]["features"])
        if isinstance(v, int) and not isinstance(v, bool):
            other = dict(models[0]["features"], **{k: str(v)})
            check(mod.CMSRecordTest0({"features": other}).record_id != objs[0].record_id, "{!r} and {!r} have the same identifier", other, models[0]["features"])
    # a popularity record becomes a score record
    with redirect_stdout(io.StringIO()):
        pop = mod.CMSDataPopularity({"FileName": "/store/mc/a/b/c/d", "WrapCPU": case["pop"]})
    score = mod.CMSRecordTest0(pop)
    same(score, {"features": dict(zip(NAMES, ["mc", "a", "b", "c"])), "cpu": float(case["pop"]), "req": 1, "class": "UNKNOWN", "hits": 0}, "the record of a file")
    check(score.record_id == pop.record_id, "equal features have the identifiers {} and {}", pop.record_id, score.record_id)
    back = mod.CMSRecordTest0(json.loads(pop.dumps()))
    check(back.to_dict() == mod.CMSRecordTest0(pop).to_dict(), "a dumped popularity record gives {!r}", back.to_dict())
    if "merged" in rec.classes and rec.classes & {"reloaded", "pickled"}:
        rec.non_trivial()


segment = s.one_of(s.sampled_from(["store", "data", "mc", "data", "mc", "user", "Run2018A", "AOD", "USER", "MINIAOD", "abc"]), s.text("abcXYZ019_-.", min_size=1, max_size=8))
filt = s.tuples(s.sampled_from(NAMES), s.sampled_from(sorted(RULES))).map(list)
extra = s.dictionaries(s.sampled_from(["WrapCPU", "SiteName", "Type", "other"]), s.one_of(s.integers(0, 1000), s.text("abc", max_size=4)), max_size=3)
pop = s.one_of(
    s.fixed_dictionaries({"parts": s.lists(segment, max_size=9), "lead": s.sampled_from(["/", "/", "", "//"]), "sep": s.sampled_from(["/", "/", "//"]),
                          "tail": s.sampled_from(["", "", "/"]), "extra": extra, "filters": s.one_of(s.none(), s.lists(filt, max_size=3))}),
    s.just({"parts": ["unknown"], "lead": "", "sep": "/", "tail": "", "extra": {}, "filters": None}))
key = s.one_of(s.sampled_from(["size", "numReq", "Type", "a", "b", "A"]), s.text("abcé_1", min_size=1, max_size=3))
val = s.one_of(s.integers(-1000, 1000), s.text("abc é", max_size=6), s.floats(-1e6, 1e6), s.booleans())
items = s.lists(s.tuples(key, val).map(list), max_size=6, unique_by=lambda p: p[0])
raw = s.fixed_dictionaries({"items": items, "names": s.lists(key, min_size=1, max_size=6, unique=True),
                            "filters": s.lists(s.tuples(s.sampled_from(["size", "Type", "a"]), s.sampled_from(["never", "always", "always", "always"])).map(list), max_size=2),
                            "perm": s.integers(0, 5), "defaults": s.sampled_from([False, False, False, True])})
num = s.one_of(s.integers(0, 10 ** 6), s.floats(0, 1e6), s.integers(0, 999).map(str))
score = s.fixed_dictionaries({
    "records": s.lists(s.fixed_dictionaries({"items": items, "cpu": s.one_of(s.none(), num)}), min_size=1, max_size=4),
    "ops": s.lists(s.fixed_dictionaries({"k": s.sampled_from(["add", "iadd", "class", "load", "pickle", "feature", "hits", "id", "reversed"]), "i": s.integers(0, 3), "j": s.integers(0, 3)}), max_size=14),
    "pop": num})

main(Spec("C31", "Popularity", "random file names, data and filters against the segments of the name; non-trivial: the name has features", 1500, 25000, pop, run_popularity),
     Spec("C31", "Raw", "random data, feature lists and filters, reloaded and pickled; non-trivial: a valid record with several features", 1200, 20000, raw, run_raw),
     Spec("C31", "Score", "random histories of merging, classifying, reloading and pickling score records against a model; non-trivial: records were merged and reloaded", 800, 15000, score, run_score))
