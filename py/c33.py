"""C33: Avro data files and the choice of a reader by DataFile."""
import bz2
import gzip
import io
import json
import os
import pickle
import tempfile

from hypothesis import strategies as s

from common import Spec, check, load, main, scratch, stub_data_manager

stub_data_manager()
mod = load("DataManager.collector.datafile.avro")
api = load("DataManager.collector.api")
utils = load("DataManager.collector.datafile.utils")
jsonmod = load("DataManager.collector.datafile.json")


def plain(v):
    """The value a generated case stands for (bytes are not JSON)."""
    if isinstance(v, dict):
        if set(v) == {"$bytes"}:
            return bytes.fromhex(v["$bytes"])
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


NAMES = {"bool": "boolean", "int": "long", "float": "double", "str": "string", "bytes": "bytes", "null": "null"}


def schema_of(shape, path="top"):
    if isinstance(shape, str):
        return {"nolist": {"type": "array", "items": "null"}, "nomap": {"type": "map", "values": "null"}}.get(shape) or NAMES[shape]
    if shape[0] == "list":
        return {"type": "array", "items": schema_of(shape[1], path + "_l")}
    if shape[0] == "map":
        return {"type": "map", "values": schema_of(shape[1], path + "_m")}
    return {"type": "record", "name": path, "fields": [{"name": n, "type": schema_of(x, path + "__" + n)} for n, x in shape[1]]}


def drain(it, limit):
    res = []
    for x in it:
        res.append(x)
        if len(res) >= limit:
            break
    return res


def read(reader, ops, model, wrapped, rec):
    n = len(model)
    for op in ops:
        k, a, b, c = op["k"], op["a"], op["b"], op["c"]
        if k == "len":
            check(len(reader) == n, "the length is {}, {} records were written", len(reader), n)
        elif k == "iter":
            got = drain(reader, 2 * n + 5)
            check(same(got, model), "iteration gives {!r}, written {!r}", got, model)
        elif k == "list":
            got = list(reader)
            check(same(got, model), "list() gives {!r}, written {!r}", got, model)
        elif k == "progress":
            got = []
            for x in reader:
                got.append(x)
                if len(got) % (a % 3 + 1) == 0:
                    check(len(reader) == n, "the length is {}, {} records were written", len(reader), n)
                if len(got) > 2 * n + 5:
                    break
            check(same(got, model), "iteration with len() in its middle gives {!r}, written {!r}", got, model)
        elif k == "index":
            i = a % n
            got = reader[i]
            check(same(got, model[i]), "[{}] gives {!r}, record is {!r}", i, got, model[i])
        elif k == "beyond":
            try:
                got = reader[n + a]
            except IndexError:
                pass
            else:
                raise AssertionError(f"[{n + a}] of {n} records gives {got!r}")
        elif k == "slice":
            lo, hi = a % n, b % (n + 1)
            if lo > hi:
                got = reader[lo:hi]
                want = [model[i] for i in range(lo, hi, -1)]
            else:
                step = [None, 1, 2, 3, 7][c % 5]
                got = reader[None if lo == 0 and c % 2 else lo:hi:step]
                want = model[lo:hi:step]
            check(same(got, want), "[{}:{}:{}] gives {!r}, expected {!r}", lo, hi, c % 5, got, want)
        elif k == "chunks" and wrapped:
            size = a % 5 + 1
            got = drain(reader.get_chunks(size), 2 * n + 5)
            check(same(got, [model[i:i + size] for i in range(0, n, size)]), "chunks of {} give {!r}", size, got)
        elif k == "pickle" and wrapped == "again":
            reader = pickle.loads(pickle.dumps(reader))
        elif k == "raw":
            raw = reader.raw_data
            got = list(mod.AvroDataFileReader(io.BytesIO(raw)))
            check(same(got, model), "the raw data hold {!r}, written {!r}", got, model)
        else:
            continue
        rec.cls(k)
    return reader


def run(case, rec):
    model = []
    with scratch() as d:
        path = os.path.join(d, "data.avro")
        kw = {}
        if case["schema"]:
            kw["schema"] = schema_of(case["shape"])
            rec.cls("schema")
        if case["codec"]:
            kw["codec"] = case["codec"]
        where = case["where"]
        target = path if where == "path" else io.BytesIO() if where == "memory" else tempfile.TemporaryFile(dir=d)
        if case["initial"] is not None:
            initial = plain(case["initial"])
            kw["data"] = initial
            model.extend(initial if isinstance(initial, list) else [initial])
        w = mod.AvroDataFileWriter(target, **kw)
        for op in case["writes"]:
            recs = plain(op["recs"])
            if op["k"] == "one":
                for r in recs:
                    check(w.append(r) is w, "append does not return the writer")
                    model.append(r)
            elif op["k"] == "list":
                w.append(recs)
                model.extend(recs)
            elif op["k"] == "raw" and model:
                got = list(mod.AvroDataFileReader(io.BytesIO(w.raw_data)))
                check(same(got, model), "the raw data hold {!r}, written {!r}", got, model)
            elif op["k"] == "bad":
                bad = [17, "text", None, recs + ["x"], [1] + recs, [recs]][op["bad"] % 6]
                try:
                    w.append(bad)
                except Exception:
                    rec.cls("refused")
                else:
                    raise AssertionError(f"{bad!r} was accepted")
        if not model:
            return
        rec.cls(where)
        source, wrapped = case["source"], False
        if source == "writer":
            reader, wrapped = api.DataFile(w), True
        elif source == "content":
            reader, wrapped = api.DataFile(io.BytesIO(w.raw_data)), "again"
        elif where == "path":
            with w:
                pass
            check(os.path.exists(path), "no file")
            reader, wrapped = (api.DataFile(path), "again") if source == "wrapped" else (mod.AvroDataFileReader(path), False)
        else:
            target.seek(0)
            reader = mod.AvroDataFileReader(target)
        reader = read(reader, case["reads"], model, wrapped, rec)
        got = drain(reader, 2 * len(model) + 5)
        check(same(got, model), "iteration gives {!r}, written {!r}", got, model)
        del reader, w
    if case["schema"] is False and len(model) > 2 and isinstance(case["shape"], list):
        rec.non_trivial()


text = s.text(s.characters(blacklist_categories=["Cs"]), max_size=6)
VALUES = {
    "bool": s.booleans(),
    "int": s.one_of(s.integers(-100, 100), s.integers(-2 ** 63, 2 ** 63 - 1), s.integers(10 ** 12, 2 * 10 ** 12)),
    "float": s.floats(allow_nan=False, allow_infinity=False),
    "str": text,
    "bytes": s.binary(max_size=4).map(lambda b: {"$bytes": b.hex()}),
    "null": s.none(),
    "nolist": s.just([]),
    "nomap": s.just({}),
}
primitive = s.sampled_from(["bool", "int", "int", "float", "float", "str", "str", "bytes", "null"])
fields = s.sampled_from(["a", "b", "c", "id", "Data", "features", "x1", "_y"])
deeper = s.recursive(
    s.one_of(primitive, primitive, primitive, s.sampled_from(["nolist", "nomap"])),
    lambda x: s.one_of(s.tuples(s.just("list"), x), s.tuples(s.just("map"), x),
                       s.tuples(s.just("rec"), s.lists(s.tuples(fields, x), min_size=1, max_size=4, unique_by=lambda f: f[0]))), max_leaves=8)
top = s.tuples(s.just("rec"), s.lists(s.tuples(fields, deeper), min_size=1, max_size=5, unique_by=lambda f: f[0]))


def value_of(shape):
    if isinstance(shape, str):
        return VALUES[shape]
    if shape[0] == "list":
        return s.lists(value_of(shape[1]), min_size=1, max_size=3)
    if shape[0] == "map":
        return s.dictionaries(s.text("abc $é", max_size=3), value_of(shape[1]), min_size=1, max_size=3).filter(lambda v: "$bytes" not in v)
    return s.fixed_dictionaries({n: value_of(x) for n, x in shape[1]})


rop = s.fixed_dictionaries({"k": s.sampled_from(["len", "iter", "list", "progress", "index", "index", "beyond", "slice", "slice", "chunks", "pickle", "raw"]),
                            "a": s.integers(0, 40), "b": s.integers(0, 40), "c": s.integers(0, 9)})


@s.composite
def cases(draw):
    shape = draw(top)
    record = value_of(shape)
    wop = s.fixed_dictionaries({"k": s.sampled_from(["one", "one", "list", "list", "raw", "bad"]), "recs": s.lists(record, max_size=4), "bad": s.integers(0, 5)})
    return {"shape": shape, "schema": draw(s.sampled_from([False, False, False, True])), "codec": draw(s.sampled_from(["", "", "null", "deflate"])),
            "where": draw(s.sampled_from(["path", "path", "memory", "temp"])), "initial": draw(s.one_of(s.none(), record, s.lists(record, max_size=3))),
            "writes": draw(s.lists(wop, max_size=6)), "source": draw(s.sampled_from(["own", "wrapped", "content", "writer"])),
            "reads": draw(s.lists(rop, max_size=10))}


def run_dispatch(case, rec):
    recs = case["recs"]
    lines = "".join(json.dumps(r) + "\n" for r in recs).encode()
    kind = case["kind"]
    rec.cls(kind)
    with scratch() as d:
        path = os.path.join(d, case["name"] + case["ext"])
        if kind == "memory":
            source = io.BytesIO()
            source.write(lines)
            source.seek(case["at"] % (len(lines) + 1) if case["at"] else 0)
            got = list(api.DataFile(source))
            check(same(got, recs), "in-memory JSON gives {!r}, written {!r}", got, recs)
            rec.non_trivial()
        elif kind == "avro":
            source = io.BytesIO()
            writer = mod.AvroDataFileWriter(source, [{"text": json.dumps(r), "n": i} for i, r in enumerate(recs)])
            keep = io.BytesIO(source.getvalue())
            keep.seek(case["at"] % (len(keep.getvalue()) + 1) if case["at"] else 0)
            got = [json.loads(r["text"]) for r in api.DataFile(keep)]
            check(same(got, recs), "in-memory Avro gives {!r}, written {!r}", got, recs)
            rec.non_trivial()
            del writer
        elif kind == "file":
            ok = path.endswith((".json.gz", ".json.bz2"))
            opener = (gzip.open if path.endswith(".gz") else bz2.open) if ok else open
            with opener(path, "wb") as f:
                f.write(lines)
            try:
                got = list(api.DataFile(path))
            except Exception as err:
                check(not ok, "{} is refused: {!r}", path, err)
            else:
                check(ok, "{} is accepted: {!r}", path, got)
                check(same(got, recs), "{} gives {!r}, written {!r}", path, got, recs)
                rec.non_trivial()
        elif kind == "missing":
            try:
                api.DataFile(path)
            except FileNotFoundError:
                pass
            else:
                raise AssertionError(f"{path} does not exist but is opened")
        elif kind == "folder":
            os.mkdir(path)
            try:
                api.DataFile(path)
            except Exception:
                pass
            else:
                raise AssertionError(f"the folder {path} is opened")


word = s.one_of(text, s.sampled_from(["avro.schema", "Obj\x01", "avro.codec", "Obj"]))
dispatch = s.fixed_dictionaries({
    "kind": s.sampled_from(["memory", "memory", "avro", "file", "file", "missing", "folder"]), "recs": s.lists(s.dictionaries(word, s.one_of(word, s.integers(-9, 9)), max_size=3), min_size=1, max_size=4),
    "name": s.sampled_from(["data", "a.b", "x.json", "y.avro", "z.gz"]), "ext": s.sampled_from([".json.gz", ".json.bz2", ".csv.gz", ".txt", ".gz", ""]), "at": s.integers(0, 60)})

main(Spec("C33", "Avro", "random record shapes and records of them written to Avro files in random sessions and read by a random sequence of accesses; non-trivial: a deduced schema and more than two records", 1200, 8000, cases(), run),
     Spec("C33", "Dispatch", "JSON and Avro sources of many names and contents opened through DataFile; non-trivial: records were read", 1000, 6000, dispatch, run_dispatch))
