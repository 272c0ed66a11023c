"""C34: support tables and dataset readers."""
import gzip
import itertools
import json
import os
import pickle

import numpy as np
from hypothesis import strategies as s

from common import Spec, Spinner, check, inner, load, main, scratch, stub, stub_data_manager


class Series:
    def __init__(self, values):
        self.values = list(values)

    def __iter__(self):
        return iter(self.values)

    def astype(self, kind):
        return Series(kind(v) for v in self.values)

    def to_list(self):
        return list(self.values)

    def to_numpy(self):
        return np.array(self.values)


class Frame:
    """The part of a pandas.DataFrame the readers use."""

    def __init__(self, data, columns):
        self.columns = list(columns)
        self.rows = [list(r) for r in data]

    def __getitem__(self, name):
        if isinstance(name, list):
            at = [self.columns.index(n) for n in name]
            return Frame([[r[i] for i in at] for r in self.rows], name)
        i = self.columns.index(name)
        return Series(r[i] for r in self.rows)

    def __setitem__(self, name, values):
        i = self.columns.index(name)
        for r, v in zip(self.rows, values):
            r[i] = v

    def join(self, other, how="left"):
        if set(self.columns) & set(other.columns):
            raise ValueError("columns overlap")
        return Frame([a + b for a, b in zip(self.rows, other.rows)], self.columns + other.columns)

    def to_numpy(self):
        return np.array(self.rows)


stub_data_manager()
stub("matplotlib")
stub("matplotlib.pyplot")
stub("pandas").DataFrame = Frame
stub("yaspin.spinners", Spinners=type("Spinners", (), {"bouncingBall": None}))
utils = load("DataManager.collector.dataset.utils")
reader_mod = load("DataManager.collector.dataset.reader")


def index_model(values):
    return {v: i for i, v in enumerate(sorted(values, key=lambda x: (x.lower(), x)))}


def close(index, value):
    """The indexes a value may be given: those of the keys it begins with."""
    ok = {i for k, i in index.items() if value.startswith(k)}
    return ok or ({index["__unknown__"]} if "__unknown__" in index else set())


def check_table(t, model, tables, probes, rec):
    index = {name: {k: index_model(v) for k, v in tab.items()} for name, tab in tables.items()}
    for name, tab in tables.items():
        check(t.get_sorted_keys(name) == sorted(tab), "keys of {}: {!r}", name, t.get_sorted_keys(name))
        for k, values in tab.items():
            got = {v: t.get_value(name, k, v) for v in values}
            check(sorted(got.values()) == list(range(len(values))) and t.get_len(name, k) == len(values), "indexes of {}.{}: {!r}", name, k, got)
            order = sorted(got, key=got.get)
            check(all(a.lower() <= b.lower() for a, b in zip(order, order[1:])), "indexes of {}.{} are not in order: {!r}", name, k, got)
            for v in list(values) + probes:
                want = close(index[name][k], v)
                try:
                    i = t.get_close_value(name, k, v)
                except KeyError:
                    check(not want, "{!r} of {}.{} is not converted", v, name, k)
                else:
                    check(i in want, "{!r} of {}.{} ({!r}) is converted into {}", v, name, k, got, i)
    check(t.to_dict() == {n: {k: {v: t.get_value(n, k, v) for v in vs} for k, vs in tab.items()} for n, tab in tables.items()}, "exported {!r}", t.to_dict())
    check(sorted(t.list) == sorted(tables), "tables {!r}", t.list)
    for name, tab in tables.items():
        if all(tab.values()):
            for p in probes[:3]:
                data = {k: p for k in tab}
                if not all(close(index[name][k], p) for k in tab):
                    continue
                ids = [t.get_close_value(name, k, p) for k in sorted(tab)]
                got = t.close_conversion(name, data)
                check(len(got) == len(ids) and all(abs(g - i / len(tab[k])) < 1e-12 for g, i, k in zip(got, ids, sorted(tab))), "{!r} in {} is {!r}", data, name, got)
                got = t.close_conversion(name, data, normalized=False, one_hot=True)
                want = [1.0 if j == i else 0.0 for i, k in zip(ids, sorted(tab)) for j in range(len(tab[k]))]
                check(got == want, "{!r} in {} is {!r} instead of {!r}", data, name, got, want)
                rec.cls("converted")


def run_table(case, rec):
    t = utils.SupportTable()
    tables = {}
    order = []
    rounds = 0
    for op in case["ops"]:
        if op["k"] == "insert":
            for v in op["values"]:
                kw = {} if op["unknown"] else {"with_unknown": False}
                check(t.insert(op["table"], op["key"], v, **kw) is t, "insert does not return the table")
                vals = tables.setdefault(op["table"], {}).setdefault(op["key"], set())
                vals.add(v)
                if op["unknown"]:
                    vals.add("__unknown__")
                order.append((op["table"], op["key"], v, op["unknown"]))
        elif op["k"] == "check":
            t.gen_indexes()
            check_table(t, None, tables, op["values"] + ["Run2016x", ""], rec)
            rounds += 1
        elif op["k"] == "pickle":
            t = pickle.loads(pickle.dumps(t))
            check(t.filters.simple_split("a-b_c  d") == ["a", "b", "c", "d"], "the filter gives {!r}", t.filters.simple_split("a-b_c  d"))
            rec.cls("pickled")
        elif op["k"] == "dict":
            t.gen_indexes()
            t = utils.SupportTable(json.loads(json.dumps(t.to_dict())))
            rec.cls("from-dict")
    t.gen_indexes()
    check_table(t, None, tables, ["Run2016x", ""], rec)
    other = utils.SupportTable()
    for name, key, v, unknown in reversed(order):
        other.insert(name, key, v, with_unknown=unknown)
    other.gen_indexes()
    meta = {"support_tables": json.loads(json.dumps(t.to_dict())), **{v: i for i, v in enumerate(dict.fromkeys(o[2] for o in order))}}
    plain = json.loads(json.dumps(meta))
    view = utils.ReadableDictAsAttribute(dict(meta))
    for _ in range(2):
        got = list(itertools.islice(view, len(meta) + 1))
        check(got == sorted(meta), "metadata {!r} iterated as {!r}", sorted(meta), got)
    check(sorted(view.list) == sorted(meta) and view.to_dict() == plain and json.loads(repr(view)) == plain, "metadata {!r} of {!r}", view.to_dict(), plain)
    check(all(getattr(view, v) == plain[v] for v in plain if v != "support_tables"), "values of the metadata {!r}", plain)
    check_table(view.support_tables, None, tables, ["Run2016x", ""], rec)
    check([list(t)[i] for i in range(len(tables))] == list(t.list) == [t[i] for i in range(len(tables))], "tables {!r} in order {!r}", t.list, list(t))
    check(other.to_dict() == t.to_dict(), "the order of insertion changes the indexes: {!r} and {!r}", other.to_dict(), t.to_dict())
    if rounds > 1 and len(order) > 2:
        rec.non_trivial()


def words(v):
    return v.replace("-", " ").replace("_", " ").split()


def run_reader(case, rec):
    recs = [{"features": dict(zip(case["features"], r["values"])), "class": r["class"], "tot_wrap_cpu": r["cpu"], "tot_requests": r["req"], "id": str(i)}
            for i, r in enumerate(case["recs"])]
    n, k = len(recs), case["k"]
    with scratch() as d:
        path = os.path.join(d, "ds.json.gz")
        with gzip.open(path, "wt") as f:
            f.write("".join(json.dumps(r) + "\n" for r in recs))
        r = reader_mod.CMSDatasetTest0Reader(path)
        check(len(r) == n, "length {} of {} records", len(r), n)
        check(r.gen_support_table() is r, "gen_support_table does not return the reader")
        table = {f: index_model({words(x["features"][f])[0] for x in recs if words(x["features"][f])} | {"__unknown__"}) for f in case["features"]}
        classes = index_model({x["class"] for x in recs})
        got = r.support_table.to_dict()
        check(got == {"features": table, "classes": {"class": classes}}, "support table {!r} instead of {!r}", got, table)
        check(r.get_num_classes() == len(classes), "{} classes of {!r}", r.get_num_classes(), classes)
        scores = [x["tot_wrap_cpu"] / x["tot_requests"] for x in recs]
        check(list(r.scores) == scores, "scores {!r} instead of {!r}", list(r.scores), scores)
        for _ in range(2):
            check(abs(r.score_avg - sum(scores) / n) <= 1e-9 * (1 + sum(scores)), "average score {} of {!r}", r.score_avg, scores)
        mode = case["mode"]
        kw = {"normalized": mode == "normalized", "one_hot": mode == "one_hot"} if case["named"] or mode != "one_hot" else {}
        if case["labels"]:
            kw["one_hot_labels"] = True
            rec.cls("one-hot-labels")
        sizes = [len(table[f]) for f in sorted(case["features"])]

        def decode(vec, label, i):
            """Which encodings are right for record i."""
            x = recs[i]
            vec = [float(v) for v in vec]
            if mode == "normalized":
                got = [round(v * z) for v, z in zip(vec, sizes)]
                check(len(vec) == len(sizes) and all(abs(v - g / z) < 1e-9 for v, g, z in zip(vec, got, sizes)), "vector {!r}", vec)
            else:
                check(len(vec) == sum(sizes), "{} values instead of {}", len(vec), sum(sizes))
                got, at = [], 0
                for z in sizes:
                    part = vec[at:at + z]
                    check(sorted(part) == [0.0] * (z - 1) + [1.0], "vector {!r}", part)
                    got.append(part.index(1.0))
                    at += z
            for f, g in zip(sorted(case["features"]), got):
                check(g in close(table[f], x["features"][f]), "feature {} of {!r} is encoded as {} in {!r}", f, x, g, table[f])
            want = close(classes, x["class"])
            if case["labels"]:
                label = [float(v) for v in label]
                check(sorted(label) == [0.0] * (len(classes) - 1) + [1.0], "label {!r} of {} classes", label, len(classes))
                label = label.index(1.0)
            check(int(label) in want, "class {!r} is encoded as {!r} in {!r}", x["class"], label, classes)

        if k == 0:
            sets = list(r.train_set(**kw))
            check(len(sets) == 1 and sets[0][2] is None, "{} sets", len(sets))
            data, labels, _ = sets[0]
            check(len(data) == n and len(labels) == n, "{} records instead of {}", len(data), n)
            for i in range(n):
                decode(data[i], labels[i], i)
            rec.cls("whole")
        elif k <= n:
            whole, wl, _ = next(iter(r.train_set(**kw)))
            sets = list(r.train_set(k, **kw))
            check(len(sets) == k, "{} folds instead of {}", len(sets), k)
            allrows = sorted((list(map(float, a)), np.array(b).tolist()) for a, b in zip(whole, wl))
            at = 0
            for data, labels, (vd, vl) in sets:
                check(len(data) == len(labels) and len(vd) == len(vl) and len(vd) > 0, "sizes {} {} {} {}", len(data), len(labels), len(vd), len(vl))
                for j in range(len(vd)):  # validation sets go through the records in order
                    decode(vd[j], vl[j], at + j)
                got = sorted([(list(map(float, a)), np.array(b).tolist()) for a, b in zip(data, labels)] + [(list(map(float, a)), np.array(b).tolist()) for a, b in zip(vd, vl)])
                check(got == allrows, "train and validation of a fold are not the records: {} of {}", len(got), n)
                at += len(vd)
            check(at >= n // k * k, "only {} of {} records are validated", at, n)
            rec.cls("folds")
    if n > 3 and len(case["features"]) > 1:
        rec.non_trivial()


def near(a, b):
    return a == b if isinstance(a, str) or isinstance(b, str) else abs(a - b) < 1e-4


def run_map(case, rec):
    """Converter maps and one-hot data of tables."""
    cols = case["cols"]
    kinds = {c["name"]: c for c in cols}
    rows = case["rows"]
    frame = Frame([[r[i] for i in range(len(cols))] + [r[-1]] for r in rows], [c["name"] for c in cols] + ["label"])
    with scratch() as d:
        r = reader_mod.SimulatorDatasetReader()
        inner(r, "_df", "_data_dir")
        r._df, r._data_dir = frame, d
        types = {"int": int, "float": float, "string": str, "bool": bool}
        for group in case["groups"]:
            names = [c["name"] for c in cols if c["group"] == group["id"] and group["convert"]]
            if not names:
                continue
            kw = {"map_type": types[group["type"]], "unknown_values": group["unknown"], "sort_keys": group["sort"]}
            if group["buckets"]:
                kw["buckets"] = list(group["buckets"]) + ([] if group["closed"] else ["..."])
            given = list(kw.get("buckets", []))
            check(r.make_converter_map(names, **kw) is r, "make_converter_map does not return the reader")
            check(given == kw.get("buckets", []), "the list of buckets was changed")
        if case["labels"]:
            r.make_converter_map(["label"], map_type=float if case["scores"] else str, sort_keys=True)
        r.store_converter_map("conv")
        with gzip.open(os.path.join(d, "conv.json.gz"), "rt") as f:
            conv = json.load(f)
        use = [c["name"] for c in cols]
        cat = {}
        for c in cols:
            g = case["groups"][c["group"]]
            if not g["convert"]:
                check(c["name"] not in conv, "column {} is in the map", c["name"])
                continue
            m = conv[c["name"]]
            column = [row[cols.index(c)] for row in rows]
            keys = list(g["buckets"]) if g["buckets"] else sorted(set(column))
            open_right = bool(g["buckets"]) and not g["closed"]
            first = 1 if g["unknown"] else 0
            check(m["feature"] == c["name"] and m["type"] == g["type"] and m["unknown_values"] == g["unknown"], "map {!r}", m)
            check(m["buckets"] == open_right and m["bucket_open_right"] == open_right, "map of {} {!r}", c["name"], m)
            values = dict(m["values"])
            if open_right:
                check(values.pop("max", None) == first + len(keys), "open bucket of {!r}", m)
            if g["type"] in ("int", "float"):  # how a number is written is the map's own business
                named = {float(k): n for k, n in values.items()}
                check(len(named) == len(values), "values {!r} of keys {!r}", values, keys)
            else:
                named = values
                keys = [str(k) for k in keys]
            check(len(named) == len(keys) and all(any(near(a, k) for k in keys) for a in named) and sorted(named.values()) == list(range(first, first + len(keys))), "values {!r} of keys {!r}", values, keys)
            if g["sort"] or g["buckets"]:
                check([named[k] for k in sorted(named)] == sorted(named.values()), "values {!r} are not in order", values)
            if open_right:
                cat[c["name"]] = [next((k for k in keys if v <= k), "max") for v in column]
            else:
                cat[c["name"]] = [v if v in g["buckets"] or not g["buckets"] else "unknown" for v in column]
            if "unknown" in cat[c["name"]] and g["type"] in ("int", "float"):
                rec.cls("unknown")
            if g["type"] == "float" and any(0 < abs(a - b) < 0.01 for a in keys for b in keys):
                rec.cls("close-floats")
        check(r.make_data_and_labels(use, "label" if case["named"] else "", for_cnn=case["cnn"]) is r, "make_data_and_labels does not return the reader")
        for _ in range(2):
            data, labels = r.data
            check(data.shape[0] == len(rows) and len(labels) == len(rows), "shape {} for {} rows", data.shape, len(rows))
            check(not case["cnn"] or data.shape[2:] == (1,), "shape {}", data.shape)
            flat = data.reshape(len(rows), -1)
            at = 0
            for c in cols:
                g = case["groups"][c["group"]]
                column = [row[cols.index(c)] for row in rows]
                if not g["convert"]:
                    check([float(x) for x in flat[:, at]] == [float(v) for v in column], "column {} is {!r}", c["name"], flat[:, at])
                    at += 1
                    continue
                width = len(conv[c["name"]]["keys"]) + (1 if g["unknown"] else 0) + (1 if g["buckets"] and not g["closed"] else 0)
                part = flat[:, at:at + width]
                at += width
                seen = {}
                for i, row in enumerate(part):
                    row = [float(x) for x in row]
                    check(sorted(row) == [0.0] * (width - 1) + [1.0], "row {} of column {} is {!r}", i, c["name"], row)
                    seen.setdefault(cat[c["name"]][i], set()).add(row.index(1.0))
                check(all(len(x) == 1 for x in seen.values()) and len(set.union(*seen.values())) == len(seen), "categories of {} are encoded as {!r}", c["name"], seen)
            check(at == flat.shape[1], "{} columns instead of {}", flat.shape[1], at)
            if case["labels"]:
                classes = sorted(set(row[-1] for row in rows))
                check([list(x) for x in labels] == [[1 if row[-1] == k else 0 for k in classes] for row in rows], "labels {!r}", labels)
            else:
                check(list(labels) == [row[-1] for row in rows], "labels {!r}", labels)
            r.save_data_and_labels("out")
            r = reader_mod.SimulatorDatasetReader().load_data_and_labels(os.path.join(d, "out.npz"))
    if len(rows) > 2 and len(cols) > 1:
        rec.non_trivial()


vocab = s.one_of(s.sampled_from(["Run2016", "run2016", "Run2016B", "Run", "AOD", "MINIAOD", "aod", "", "_x", "é"]), s.text("abAB", max_size=3))
top = s.fixed_dictionaries({"k": s.sampled_from(["insert", "insert", "insert", "check", "check", "pickle", "dict"]), "table": s.sampled_from(["features", "classes", "t"]),
                            "key": s.sampled_from(["class", "a", "b"]), "values": s.lists(vocab, min_size=1, max_size=4), "unknown": s.booleans()})
tables = s.fixed_dictionaries({"ops": s.lists(top, max_size=10)})
process = s.one_of(s.sampled_from(["TTbar-x_y", "TTbar_z", "QCD", "QCD-Pt", "-QCD", "DoubleEG", "Run2016B-v1", "Run2016", "_", "a b-c"]), s.text("ab-_", min_size=1, max_size=5))


@s.composite
def readers(draw):
    features = draw(s.lists(s.sampled_from(["process", "campaign", "store_type", "Zeta"]), min_size=1, max_size=3, unique=True))
    rec = s.fixed_dictionaries({"values": s.lists(process, min_size=len(features), max_size=len(features)), "class": s.sampled_from(["good", "bad", "UNKNOWN"]),
                                "cpu": s.integers(0, 1000).map(lambda x: x / 4), "req": s.integers(1, 9)})
    return {"features": features, "recs": draw(s.lists(rec, min_size=1, max_size=14)), "k": draw(s.sampled_from([0, 1, 2, 2, 3, 3, 4, 5])),
            "mode": draw(s.sampled_from(["normalized", "one_hot"])), "named": draw(s.booleans()), "labels": draw(s.booleans())}


@s.composite
def maps(draw):
    groups = []
    for i in range(2):
        kind = draw(s.sampled_from(["int", "float", "string", "bool"]))
        convert = kind in ("string", "bool") or draw(s.booleans())
        buckets = draw(s.lists(s.integers(-3, 9), max_size=4, unique=True).map(sorted)) if kind in ("int", "float") and convert else []
        unknown = draw(s.booleans())
        closed = bool(buckets) and unknown and draw(s.booleans())  # without unknown values any other value is an error
        if kind == "float":
            buckets = [b / draw(s.sampled_from([2, 2, 400])) for b in buckets] if not closed else [b / 2 for b in buckets]
            buckets = sorted(set(buckets))
        groups.append({"id": i, "type": kind, "convert": convert, "unknown": unknown, "sort": draw(s.booleans()), "buckets": buckets, "closed": closed})
    cols = [{"name": n, "group": draw(s.integers(0, 1))} for n in draw(s.lists(s.sampled_from(["size", "numReq", "site", "x"]), min_size=1, max_size=4, unique=True))]
    value = {"int": s.integers(-5, 12), "float": s.one_of(s.integers(-10, 24).map(lambda x: x / 4), s.integers(-6, 12).map(lambda x: x / 800)), "string": s.sampled_from(["T1_IT", "T2_US", "t2_us", "", "max"]), "bool": s.booleans()}
    scores = draw(s.booleans())
    row = s.tuples(*[value[groups[c["group"]]["type"]] for c in cols], s.sampled_from([0.5, 0.25, 0.251, 1.0] if scores else ["keep", "drop", "zero"]))
    return {"groups": groups, "cols": cols, "rows": draw(s.lists(row, min_size=1, max_size=8)), "labels": draw(s.booleans()), "scores": scores, "named": draw(s.booleans()), "cnn": draw(s.booleans())}


main(Spec("C34", "Tables", "random insertions with indexes generated again, pickling and reloading against sorted sets; non-trivial: indexes generated more than once", 1200, 12000, tables, run_table),
     Spec("C34", "Readers", "random datasets encoded for training, whole and in folds, and decoded again; non-trivial: more than three records of several features", 500, 5000, readers(), run_reader),
     Spec("C34", "Maps", "random tables of several column types converted to one-hot data and decoded again; non-trivial: several rows and columns", 600, 6000, maps(), run_map))
