"""C28: JSON data files."""
import bz2
import gzip
import io
import json
import os

from hypothesis import strategies as s

from common import Spec, check, load, main, scratch, stub_data_manager

stub_data_manager()
mod = load("DataManager.collector.datafile.json")
api = load("DataManager.collector.api")

GARBAGE = ["", "{", "{'a': 1}", "[1,", "nope", "{\"a\": }", "1 2", "\"x", "{} {}"]


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) and a == b


def text_of(rec, style):
    if style == 1:
        return json.dumps(rec, indent=2)
    if style == 2:
        return "  " + json.dumps(rec, separators=(",", ":"), ensure_ascii=False) + "\n"
    return json.dumps(rec)


def write(writer, op, model, rec):
    kind, recs, bad = op["k"], op["recs"], op["bad"]
    if kind == "str":
        for r in recs:
            writer.append(text_of(r, op["style"]))
            model.append(r)
    elif kind == "dict":
        for r in recs:
            r = r if isinstance(r, dict) else {"v": r}
            writer.append(r)
            model.append(r)
    elif kind in ("list", "gen"):
        elems = []
        for i, r in enumerate(recs):
            elems.append(r if isinstance(r, dict) and i % 2 == 0 else text_of(r, op["style"]))
        model.extend(recs)
        writer.append(elems if kind == "list" else (e for e in elems))
    elif kind == "bad":
        what = [GARBAGE[bad % len(GARBAGE)]]
        what = what[0] if op["style"] == 0 else (what if op["style"] == 1 else 17)
        try:
            writer.append(what)
        except Exception:
            rec.cls("refused")
        else:
            raise AssertionError(f"{what!r} was accepted")


def drain(it, limit=None):
    res = []
    for x in it:
        res.append(x)
        if limit is not None and len(res) >= limit:
            break
    return res


def read(reader, ops, model, offsets, wrapped, rec):
    n = len(model)

    def is_at(got, i, how):
        check(same(got, model[i]), "{} gives {!r}, record {} is {!r}", how, got, i, model[i])

    for op in ops:
        k, a, b, c = op["k"], op["a"], op["b"], op["c"]
        if k == "len":
            check(len(reader) == n, "the length is {}, {} records were written", len(reader), n)
        elif k == "iter":
            got = drain(reader, 2 * n + 5)
            check(same(got, model), "iteration gives {!r}, written {!r}", got, model)
        elif k == "list":
            got = list(reader)
            check(same(got, model), "list() gives {!r}, written {!r}", got, model)
            rec.cls("list")
        elif k == "progress":
            got = []
            for x in reader:
                got.append(x)
                check(len(reader) == n, "the length is {}, {} records were written", len(reader), n)
                if len(got) > 2 * n + 5:
                    break
            check(same(got, model), "iteration with len() in its middle gives {!r}, written {!r}", got, model)
            rec.cls("progress")
        elif k == "index" and n:
            i = a % (2 * n) - n
            is_at(reader[i], i, f"[{i}]")
            rec.cls("negative" if i < 0 else "index")
        elif k == "beyond":
            i = n + a if b % 2 == 0 else -n - 1 - a
            try:
                got = reader[i]
            except IndexError:
                rec.cls("beyond")
            else:
                raise AssertionError(f"[{i}] of {n} records gives {got!r}")
        elif k == "slice":
            lo, hi = a % (n + 2), b % (n + 4)
            if lo > hi:
                # decreasing: from lo down to the record after hi
                got = reader[lo:hi]
                want = [model[i] for i in range(lo, hi, -1) if i < n]
                rec.cls("decreasing")
            else:
                step = [None, 1, 2, 3, 7][c % 5]
                start = None if lo == 0 and c % 2 else lo
                got = reader[start:hi:step]
                want = model[lo:hi:step]
                rec.cls("slice")
            check(same(got, want), "[{}:{}:{}] gives {!r}, expected {!r}", lo, hi, c % 5, got, want)
        elif k == "start" and not wrapped:
            i = a % (n + 2)
            limit = None if b % 2 else b + 1
            got = drain(reader.start_from(i), limit if limit is not None else 2 * n + 5)
            want = model[i:] if limit is None else model[i:i + limit]
            check(same(got, want), "start_from({}) gives {!r}, expected {!r}", i, got, want)
            rec.cls("start_from")
        elif k == "check" and not wrapped and n:
            i = a % n
            reader.add_checkpoint(i, offsets[i])
            rec.cls("checkpoint")
        elif k == "chunks" and wrapped:
            size = a % 5 + 1
            got = drain(reader.get_chunks(size), 2 * n + 5)
            check(same(got, [model[i:i + size] for i in range(0, n, size)]), "chunks of {} give {!r}", size, got)
            rec.cls("chunks")


def run(case, rec):
    model = []
    kind = case["kind"]
    with scratch() as d:
        path = os.path.join(d, {"plain": "data.json", "gz": "data.json.gz", "bz2": "data.json.bz2", "stream": "data.json"}[kind])
        keep = []
        stream = io.BytesIO()
        for i, session in enumerate(case["sessions"]):
            append = i > 0 or session["append"]
            kw = {"append": True} if append else {}
            if kind == "stream":
                if append and len(session["ops"]) % 2:
                    stream.seek(0)  # appending writes at the end wherever the stream is
                w = mod.JSONDataFileWriter(descriptor=stream, **kw)
                keep.append(w)
                for op in session["ops"]:
                    write(w, op, model, rec)
                check(kind != "stream" or not stream.closed, "the stream was closed")
                continue
            if session["initial"] is not None:
                kw["data"] = session["initial"]
                model.extend(session["initial"] if isinstance(session["initial"], list) else [session["initial"]])
            with mod.JSONDataFileWriter(path, **kw) as w:
                for op in session["ops"]:
                    write(w, op, model, rec)
        if kind == "stream":
            content = stream.getvalue()
            source = case["source"]
        else:
            opener = {"plain": open, "gz": gzip.open, "bz2": bz2.open}[kind]
            with opener(path, "rb") as f:
                content = f.read()
            source = case["source"]
        offsets, pos = [], 0
        for line in content.split(b"\n"):
            if line.strip():
                offsets.append(pos)
            pos += len(line) + 1
        check(len(offsets) == len(model), "{} lines were written for {} records: {!r}", len(offsets), len(model), content[:500])
        wrapped = False
        if source == "wrapped" and kind in ("gz", "bz2"):
            reader, wrapped = api.DataFile(path), True
        elif source == "wrapped" and kind == "stream" and keep:
            reader, wrapped = api.DataFile(keep[-1]), True
        elif source == "wrapped":
            reader, wrapped = api.DataFile(io.BytesIO(content)), True
        elif source == "memory":
            reader = mod.JSONDataFileReader(descriptor=io.BytesIO(content))
        elif kind == "stream":
            reader = mod.JSONDataFileReader(descriptor=stream)
        else:
            reader = mod.JSONDataFileReader(path)
        if wrapped:
            rec.cls("DataFile")
        read(reader, case["reads"], model, offsets, wrapped, rec)
        # every access again, on a reader with a past
        got = drain(reader, 2 * len(model) + 5)
        check(same(got, model), "iteration gives {!r}, written {!r}", got, model)
        check(len(reader) == len(model), "the length is {}, {} records were written", len(reader), len(model))
        del reader
    rec.cls(kind)
    if len(model) > 2 and len(case["reads"]) > 2:
        rec.non_trivial()


leaf = s.one_of(s.integers(-10 ** 12, 10 ** 12), s.booleans(), s.none(), s.text(max_size=8), s.floats(allow_nan=False, allow_infinity=False))
val = s.one_of(leaf, s.lists(leaf, max_size=3), s.dictionaries(s.text("abé\n\"{}", max_size=3), leaf, max_size=3))
record = s.dictionaries(s.text("abcdé \n\"", max_size=4), val, max_size=4)
anyrec = s.one_of(record, record, record, leaf, s.lists(leaf, max_size=3))


@s.composite
def wop(draw):
    k = draw(s.sampled_from(["str", "dict", "dict", "list", "list", "gen", "bad"]))
    return {"k": k, "recs": draw(s.lists(anyrec if k != "dict" else record, min_size=0 if k in ("list", "gen") else 1, max_size=4)),
            "style": draw(s.integers(0, 2)), "bad": draw(s.integers(0, 8))}


rop = s.fixed_dictionaries({"k": s.sampled_from(["len", "iter", "list", "progress", "index", "index", "index", "beyond", "slice", "slice", "start", "check", "chunks"]),
                            "a": s.integers(0, 40), "b": s.integers(0, 40), "c": s.integers(0, 9)})
session = s.fixed_dictionaries({"append": s.booleans(), "initial": s.one_of(s.none(), record, s.lists(record, max_size=3)), "ops": s.lists(wop(), max_size=6)})
cases = s.fixed_dictionaries({"kind": s.sampled_from(["plain", "gz", "bz2", "stream"]), "sessions": s.lists(session, min_size=1, max_size=3),
                              "source": s.sampled_from(["own", "own", "memory", "wrapped"]), "reads": s.lists(rop, max_size=14)})

main(Spec("C28", "Files", "random records written in random ways and sessions, then read by a random sequence of accesses against the list of records; non-trivial: more than two records and two accesses", 1200, 8000, cases, run))
