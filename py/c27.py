"""C27: row converters."""
import copy

from hypothesis import strategies as s

from common import Spec, check, load, main, stub_data_manager

stub_data_manager()
csv = load("DataManager.agent.converter.csv")
svm = load("DataManager.agent.converter.libSVM")


def in_order(names):
    """Selection sort by code points."""
    left, res = list(names), []
    while left:
        best = left[0]
        for n in left:
            if [ord(c) for c in n] < [ord(c) for c in best]:
                best = n
        left.remove(best)
        res.append(best)
    return res


def run(case, rec):
    items, label = case["items"], case["label"]
    names = [k for k, _ in items]
    data = {k: v for k, v in items}
    other = {k: data[k] for k in sorted(names, key=lambda n: case["perm"][names.index(n)])}
    order = in_order(names)
    want = ",".join(str(data[k]) for k in order)
    for record in (data, other, dict(reversed(list(data.items())))):
        before = copy.deepcopy(list(record.items()))
        got = csv.CSVConverter().row(record)
        check(got == want, "the row of {!r} is {!r}, expected {!r}", record, got, want)
        check(list(record.items()) == before, "the record became {!r}", record)
    values = [v for _, v in items]
    for seq in (values, tuple(values)):
        got = csv.CSVConverter().row(seq)
        check(got == ",".join(str(v) for v in values), "the row of {!r} is {!r}", seq, got)
    if items:
        chosen = names[label % len(names)]
        rest = [n for n in order if n != chosen]
        want = " ".join([str(data[chosen])] + [f"{i + 1}:{data[n]}" for i, n in enumerate(rest)])
        for record in (data, other):
            before = copy.deepcopy(list(record.items()))
            conv = svm.LibSVMConverter()
            for _ in range(2):
                got = conv.labeled_row(record, chosen)
                check(got.rstrip(" ") == want.rstrip(" ") if not rest else got == want, "the libSVM row of {!r} with label {!r} is {!r}, expected {!r}", record, chosen, got, want)
            check(list(record.items()) == before, "the record became {!r}", record)
        if "label" in data:
            got = svm.LibSVMConverter().labeled_row(data)
            rest = [n for n in order if n != "label"]
            want = " ".join([str(data["label"])] + [f"{i + 1}:{data[n]}" for i, n in enumerate(rest)])
            check(got.rstrip(" ") == want.rstrip(" ") if not rest else got == want, "the libSVM row of {!r} is {!r}, expected {!r}", data, got, want)
            rec.cls("default-label")
    if len(items) > 9:
        rec.cls("two-digit-index")
    if len(items) > 2 and order != names:
        rec.non_trivial()


name = s.one_of(s.sampled_from(["label", "feature_1", "feature_2", "feature_10", "feature_3", "Size", "size", "numReq", "", "a b", "é", "1", "10", "2"]), s.text("abcXYZ_019é", max_size=4))
value = s.one_of(s.integers(-10 ** 6, 10 ** 6), s.floats(allow_nan=False, allow_infinity=False), s.booleans(), s.none(), s.text("abc .-", max_size=5))


@s.composite
def cases(draw):
    items = draw(s.lists(s.tuples(name, value).map(list), max_size=14, unique_by=lambda p: p[0]))
    return {"items": items, "label": draw(s.integers(0, 13)), "perm": draw(s.permutations(list(range(len(items)))))}


main(Spec("C27", "Rows", "random records in several insertion orders against rows built from a selection sort; non-trivial: more than two features inserted out of order", 2500, 40000, cases(), run))
