"""C36: the caches and models the AI evaluation compares."""
import datetime
import gzip
import json
import os
import types

import numpy as np
from hypothesis import strategies as s

from common import Spec, check, inner, load, main, scratch, stub

PLOTS = []
LINES = []


class Axes:
    def axvline(self, x):
        LINES.append(x)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plt(Axes):
    """Records what is drawn instead of drawing it."""

    def subplot(self, *a):
        PLOTS.append([])
        return Axes()

    def plot(self, x, y, **k):
        PLOTS[-1].append((list(x), list(y)))


class Layer:
    def __init__(self, kind, *args, **kw):
        self.kind, self.args, self.kw = kind, args, kw


class Keras(types.ModuleType):
    """The part of keras that builds, fits and inspects a dense model; nothing is learnt."""
    made = []

    class layers:
        Dense = staticmethod(lambda *a, **k: Layer("dense", *a, **k))
        Flatten = staticmethod(lambda *a, **k: Layer("flatten", *a, **k))

    class optimizers:
        Nadam = staticmethod(lambda *a, **k: "nadam")

    class models:
        pass

    class Sequential:
        def __init__(self, layers):
            self.layers, self.fits, self.compiled = layers, [], None
            Keras.made.append(self)

        def compile(self, **kw):
            self.compiled = kw

        def summary(self):
            pass

        def fit(self, data, labels, **kw):
            self.fits.append((np.array(data).tolist(), np.array(labels).tolist(), kw))


plt = Plt()
stub("matplotlib", pyplot=plt)
import sys  # noqa: E402
sys.modules.setdefault("matplotlib.pyplot", plt)
stub("tqdm", tqdm=lambda it=None, **_: it)
stub("grpc")
stub("tensorflow", keras=Keras("keras"))
try:
    import SmartCache.ai.service.ai_pb2_grpc  # noqa: F401
except Exception:
    for n in ("ai_pb2", "ai_pb2_grpc"):
        sys.modules.pop("SmartCache.ai.service." + n, None)
    service = load("SmartCache.ai.service")
    service.ai_pb2 = stub("SmartCache.ai.service.ai_pb2_", StorePrediction=lambda store=False: types.SimpleNamespace(store=store))
    service.ai_pb2_grpc = stub("SmartCache.ai.service.ai_pb2_grpc_", AIServiceServicer=object, add_AIServiceServicer_to_server=None)
    sys.modules["SmartCache.ai.service.ai_pb2"], sys.modules["SmartCache.ai.service.ai_pb2_grpc"] = service.ai_pb2, service.ai_pb2_grpc
ev = load("SmartCache.ai.models.evaluator")
gen = load("SmartCache.ai.models.generator")


class Model:
    """What each cache is documented to be."""

    def __init__(self, kind, size):
        self.kind, self.size, self.files, self.hit, self.miss, self.sizes, self.rates = kind, size, [], 0, 0, [], []

    def update(self, f, insert=True):
        hit = f in self.files
        if hit:
            self.hit += 1
            if self.kind == "lru":
                self.files.remove(f)
                self.files.append(f)
        else:
            self.miss += 1
            if insert:
                if self.kind != "simple" and len(self.files) == self.size:
                    self.files.pop(0)
                self.files.append(f)
        self.sizes.append(len(self.files))
        self.rates.append(100 * self.hit / (self.hit + self.miss))
        return hit


def same_cache(cache, model, universe, where):
    check(len(cache) == len(model.files), "{}: {} files instead of {}", where, len(cache), model.files)
    got = [f for f in universe if cache.check(f)]
    check(got == [f for f in universe if f in model.files], "{}: the cache holds {!r} instead of {!r}", where, got, sorted(model.files))
    check(list(cache.size_history) == model.sizes, "{}: sizes {!r} instead of {!r}", where, cache.size_history, model.sizes)
    check(len(cache.hit_rate_history) == len(model.rates) and all(abs(a - b) < 1e-9 for a, b in zip(cache.hit_rate_history, model.rates)),
          "{}: hit rates {!r} instead of {!r}", where, cache.hit_rate_history, model.rates)
    if model.rates:
        check(abs(cache.hit_rate - model.rates[-1]) < 1e-9, "{}: hit rate {} instead of {}", where, cache.hit_rate, model.rates[-1])
    check(list(cache.history) == list(zip(cache.size_history, cache.hit_rate_history)), "{}: history {!r}", where, cache.history)


CLASSES = {"simple": ev.SimpleCache, "fifo": ev.FIFOCache, "lru": ev.LRUCache}


def run_cache(case, rec):
    kind, size = case["kind"], case["size"]
    kw = {} if kind == "simple" else {"max_size": size}
    cache, model = CLASSES[kind](**kw), Model(kind, size)
    other, twin = CLASSES[kind](**kw), None
    universe = [f"f{i}" for i in range(case["files"])]
    full = False
    for n, op in enumerate(case["ops"]):
        f = universe[op["f"] % len(universe)]
        if op["k"] == "restore":
            state = cache.state
            if op["insert"]:
                state = json.loads(json.dumps(state))
            old, cache = cache, CLASSES[kind](state, **kw) if op["f"] % 2 else CLASSES[kind](init_state=state, **kw)
            same_cache(cache, model, universe, f"step {n}, restored")
            twin = (old, [list(old.size_history), list(old.hit_rate_history), [x for x in universe if old.check(x)]])
            rec.cls("restore")
            continue
        got = cache.update(f, **({} if op["insert"] else {"insert": False}))
        want = model.update(f, op["insert"])
        check(bool(got) == want, "step {}: {} gives {!r}, expected {}", n, f, got, want)
        same_cache(cache, model, universe, f"step {n} ({f}, insert {op['insert']})")
        full = full or kind != "simple" and len(model.files) == size and n > size
        if twin:
            check([list(twin[0].size_history), list(twin[0].hit_rate_history), [x for x in universe if twin[0].check(x)]] == twin[1], "step {}: the cache it was restored from changed", n)
    check(len(other) == 0 and list(other.size_history) == [], "a fresh cache changed")
    rec.cls(kind)
    if full:
        rec.non_trivial()


class Table:
    def close_conversion(self, table, features, normalized=False, one_hot=True):
        check(table == "features" and one_hot and not normalized, "conversion of {} normalised {} one hot {}", table, normalized, one_hot)
        return [1 if features["want"] == i else 0 for i in range(3)]


class Predictor:
    def __init__(self):
        self.batches = []

    def predict(self, data):
        self.batches.append(len(data))
        check(data.shape[1:] == (3,), "shape {}", data.shape)
        return np.array([1 if row[1] == 1 else 2 if row[2] == 1 else 0 for row in data])


def run_compare(case, rec):
    day = datetime.datetime(2018, 1, 1)
    data, hours = [], 0
    for r in case["reqs"]:
        hours += r["hours"]
        d = {"FileName": f"f{r['f']}", "WrapCPU": r["cpu"] if r["n"] else str(r["cpu"])}
        if case["times"]:
            d["StartedRunningTimeStamp"] = int((day + datetime.timedelta(hours=hours)).timestamp() * 1000)
        data.append({"data": d, "features": {"want": r["want"]}, "hours": hours})
    kinds = (case["kind"], case["ai"])
    settings = {} if "simple" in kinds else {"max_size": case["size"]}
    size = case["size"] if settings else 1000
    models = [Model(kinds[0], size), Model(kinds[1], size)]
    cpu = [[], []]
    for r, o in zip(case["reqs"], data):
        for i, m in enumerate(models):
            hit = m.update(o["data"]["FileName"], insert=i == 0 or r["want"] != 0)
            cpu[i].append(r["cpu"] if hit else 0)
    seps, last = [], None
    for i, o in enumerate(data):
        if case["times"] and (last is None or o["hours"] - last > 24):
            seps.append(i)
            last = o["hours"]
    spell = (lambda x: x.upper()) if case["upper"] else (lambda x: x)
    universe = sorted({o["data"]["FileName"] for o in data})

    def one(parts):
        """The whole data in parts, each continuing the one before it."""
        result = None
        for p in parts:
            pred = Predictor()
            e = ev.Evaluator(p, pred, Table(), cache_type=spell(kinds[0]), ai_cache_type=spell(kinds[1]), cache_settings=settings, ai_stride=case["stride"])
            result = inner(e, "_compare")._compare(**({"initial_values": result} if result else {}))
            check(sum(pred.batches) == len(p) and all(b <= case["stride"] for b in pred.batches), "predictions {} of {} requests", pred.batches, len(p))
        return result

    cut = case["cut"] % (len(data) + 1)
    parts = [p for p in (data[:cut], data[cut:]) if p]
    result = one(parts)
    same_cache(result["cache"], models[0], universe, "cache")
    same_cache(result["ai_cache"], models[1], universe, "AI cache")
    del PLOTS[:], LINES[:]
    e = ev.Evaluator(data if case["cut"] % 2 else iter(data), Predictor(), Table(), cache_type=spell(kinds[0]), ai_cache_type=spell(kinds[1]), cache_settings=settings, ai_stride=case["stride"])
    e.compare(show=True)
    check([len(p) for p in PLOTS] == [2, 2, 2], "{} plots", [len(p) for p in PLOTS])
    check(LINES == seps * 3, "days end at {!r}, separators {!r}", seps, LINES)
    for i, name in enumerate(("cache", "AI cache")):
        m = models[i]
        for p in PLOTS:
            check(p[i][0] == list(range(len(data))), "{}: positions {!r}", name, p[i][0])
        check(PLOTS[0][i][1] == m.sizes, "{}: sizes {!r} instead of {!r}", name, PLOTS[0][i][1], m.sizes)
        check(all(abs(a - b) < 1e-9 for a, b in zip(PLOTS[1][i][1], m.rates)), "{}: hit rates {!r} instead of {!r}", name, PLOTS[1][i][1], m.rates)
        got = PLOTS[2][i][1]
        want = [sum(cpu[i][1:n + 1]) for n in range(len(data))]  # the value of the first request is the base
        check(all(abs(g - got[0] - w) < 1e-6 for g, w in zip(got, want)), "{}: CPU {!r}, growth {!r}", name, got, want)
    rec.cls(f"{kinds[0]}/{kinds[1]}")
    if len(parts) > 1:
        rec.cls("continued")
    if len(data) > case["stride"] and any(a != b for a, b in zip(models[0].sizes, models[1].sizes)):
        rec.non_trivial()


class Dense:
    """A dense model as keras gives it to the exporter."""

    def __init__(self, layers):
        self.w = [(np.array(x["w"], dtype=np.float32), np.array(x["b"], dtype=np.float32)) for x in layers]
        self.act = [x["act"] for x in layers]
        self.calls = []

    def get_config(self):
        return {"name": "m", "layers": [{"class_name": "Dense", "config": {"name": f"dense_{i}", "activation": a, "units": len(self.w[i][1])}} for i, a in enumerate(self.act)]}

    def get_layer(self, name):
        return types.SimpleNamespace(get_weights=lambda: [np.array(x) for x in self.w[int(name.split("_")[1])]])

    def predict(self, data):
        self.calls.append(np.array(data).shape)
        return np.array([run_layers([(w.tolist(), b.tolist(), a) for (w, b), a in zip(self.w, self.act)], list(map(float, row))) for row in np.array(data)])


def run_layers(layers, x):
    for w, b, act in layers:
        y = [sum(x[i] * w[i][j] for i in range(len(x))) + b[j] for j in range(len(b))]
        if act == "softmax":
            m = max(y)
            e = [float(np.exp(v - m)) for v in y]
            x = [v / sum(e) for v in e]
        elif act == "sigmoid":
            x = [float(1 / (1 + np.exp(-v))) for v in y]
        else:
            x = [min(1.0, max(0.0, 0.2 * v + 0.5)) for v in y]
    return x


def run_model(case, rec):
    for cls in (gen.DonkeyModel, gen.CMSTest0ModelGenerator):
        m = cls()
        inner(m, "_model")._model = Dense(case["layers"])
        want = [run_layers([(x["w"], x["b"], x["act"]) for x in case["layers"]], v) for v in case["inputs"]]
        want = [[i for i, y in enumerate(w) if y >= max(w) - 1e-5] for w in want]
        got = m.predict(np.array(case["inputs"]))
        check(len(got) == len(want) and all(int(g) in w for g, w in zip(got, want)), "classes {!r}, largest outputs {!r}", list(got), want)
        for v, w in zip(case["inputs"], want):
            one = m.predict_one if cls is gen.DonkeyModel else m.predict_single
            g = one(np.array(v))
            check(int(g) in w, "class {} alone, largest outputs {}", g, w)
            if cls is gen.DonkeyModel:
                r = m.AIPredictOne(types.SimpleNamespace(inputVector=v), None)
                check(r.store == (int(g) == 1), "class {} is answered with store {}", g, r.store)
    m = gen.DonkeyModel()
    inner(m, "_model")._model = Dense(case["layers"])
    with scratch() as d:
        m.export_weights(os.path.join(d, "out"))
        with gzip.open(os.path.join(d, "out.dump.json.gz"), "rt") as f:
            out = json.load(f)
    check(len(out["layers"]) == len(case["layers"]), "{} layers", len(out["layers"]))
    for i, (l, x) in enumerate(zip(out["layers"], case["layers"])):
        w, b = np.array(x["w"], dtype=np.float32), np.array(x["b"], dtype=np.float32)
        check(l["name"] == f"dense_{i}" and l["activation_function"] == x["act"], "layer {!r}", l)
        check(l["weights"]["shape"] == list(w.shape) and l["bias"]["shape"] == list(b.shape), "shapes {!r}", l)
        check(l["weights"]["values"] == w.tolist() and l["bias"]["values"] == b.tolist(), "layer {} is exported as {!r}, it has {!r} {!r}", i, l, w, b)
    rec.cls(f"{len(case['layers'])}-layers")
    if len(case["layers"]) > 1:
        rec.non_trivial()


class Dataset:
    def __init__(self, case):
        self.case, self.asked = case, []

    def get_num_classes(self):
        return self.case["classes"]

    def train_set(self, normalized=None, one_hot=None, one_hot_labels=None, k_fold=None):
        self.asked.append((normalized, one_hot, one_hot_labels, k_fold))
        for x in self.case["sets"]:
            yield np.array(x["data"]), np.array(x["labels"]), (np.array(x["data"][:1]), np.array(x["labels"][:1])) if k_fold else None


def run_train(case, rec):
    width = len(case["sets"][0]["data"][0])
    del Keras.made[:]
    ds = Dataset(case)
    kw = {k: v for k, v in (("normalized", case["normalized"]), ("one_hot", not case["normalized"]), ("k_fold", case["fold"])) if v or case["normalized"]}
    gen.CMSTest0ModelGenerator(**({"epochs": case["epochs"]} if case["epochs"] != 100 else {})).train(ds, **kw)
    check(ds.asked == [(case["normalized"], not case["normalized"], False, case["fold"])], "asked the dataset for {!r}", ds.asked)
    check(len(Keras.made) == 1 and Keras.made[0].compiled is not None, "{} models", len(Keras.made))
    m = Keras.made[0]
    check(m.layers[0].kw.get("input_shape") == (width,), "input {!r} of {} features", m.layers[0].kw, width)
    check(m.layers[-1].args[0] == case["classes"] and m.layers[-1].kw.get("activation") == "softmax", "output {!r} of {} classes", m.layers[-1].args, case["classes"])
    check([(a, b) for a, b, _ in m.fits] == [(x["data"], x["labels"]) for x in case["sets"]], "fitted to {!r}", m.fits)
    for (_, _, k), x in zip(m.fits, case["sets"]):
        check(k.get("epochs") == case["epochs"], "epochs {!r}", k)
        v = k.get("validation_data")
        check((v is not None) == bool(case["fold"]), "validation {!r} in {} folds", v, case["fold"])
        if v is not None:
            check(np.array(v[0]).tolist() == x["data"][:1] and np.array(v[1]).tolist() == x["labels"][:1], "validation {!r}", v)
    del Keras.made[:]
    x = case["sets"][0]
    gen.DonkeyModel(epochs=case["epochs"], batch_size=case["classes"] * 3).train(np.array(x["data"]), np.array(x["labels"]), **({"num_classes": case["classes"]} if case["classes"] != 2 else {}))
    m = Keras.made[0]
    check(len(Keras.made) == 1 and len(m.fits) == 1 and m.fits[0][:2] == (x["data"], x["labels"]), "fitted to {!r}", m.fits)
    check(m.layers[0].kw.get("input_shape") == (width,) and m.layers[-1].args[0] == case["classes"], "model {!r} {!r}", m.layers[0].kw, m.layers[-1].args)
    check(m.fits[0][2].get("epochs") == case["epochs"] and m.fits[0][2].get("batch_size") == case["classes"] * 3, "settings {!r}", m.fits[0][2])
    if len(case["sets"]) > 1:
        rec.non_trivial()


op = s.fixed_dictionaries({"k": s.sampled_from(["get"] * 12 + ["restore"]), "f": s.integers(0, 11), "insert": s.sampled_from([True, True, True, False])})
caches = s.fixed_dictionaries({"kind": s.sampled_from(["simple", "fifo", "fifo", "lru", "lru"]), "size": s.integers(1, 5), "files": s.integers(1, 9), "ops": s.lists(op, max_size=40)})
req = s.fixed_dictionaries({"f": s.integers(0, 7), "cpu": s.integers(0, 40).map(lambda x: x / 4), "n": s.booleans(), "want": s.integers(0, 2), "hours": s.sampled_from([0, 1, 5, 12, 24, 25, 60])})
kinds = s.sampled_from(["simple", "fifo", "lru"])
compares = s.fixed_dictionaries({"reqs": s.lists(req, min_size=1, max_size=30), "kind": kinds, "ai": kinds, "size": s.integers(1, 5), "stride": s.one_of(s.integers(1, 8), s.just(100)),
                                 "cut": s.integers(0, 40), "times": s.booleans(), "upper": s.booleans()})
num = s.one_of(s.integers(-64, 64).map(lambda x: x / 16), s.integers(-10 ** 8, 10 ** 8).map(lambda x: x / 29e6))


@s.composite
def models(draw):
    dims = draw(s.lists(s.integers(1, 4), min_size=2, max_size=4))
    layers = []
    for i, (a, b) in enumerate(zip(dims, dims[1:])):
        layers.append({"w": draw(s.lists(s.lists(num, min_size=b, max_size=b), min_size=a, max_size=a)), "b": draw(s.lists(num, min_size=b, max_size=b)),
                       "act": "softmax" if i == len(dims) - 2 else draw(s.sampled_from(["sigmoid", "hard_sigmoid"]))})
    return {"layers": layers, "inputs": draw(s.lists(s.lists(num, min_size=dims[0], max_size=dims[0]), min_size=1, max_size=4))}


@s.composite
def trains(draw):
    width, fold = draw(s.integers(1, 4)), draw(s.sampled_from([0, 2, 3]))
    row = s.lists(s.integers(0, 5), min_size=width, max_size=width)
    sets = []
    for _ in range(fold or 1):
        data = draw(s.lists(row, min_size=1, max_size=4))
        sets.append({"data": data, "labels": [draw(s.integers(0, 1)) for _ in data]})
    return {"sets": sets, "fold": fold, "classes": draw(s.integers(2, 4)), "epochs": draw(s.sampled_from([100, 1, 7])), "normalized": draw(s.booleans())}


main(Spec("C36", "Caches", "random requests with and without insertion on each cache, saved and restored in between, against a model; non-trivial: a bounded cache was full", 1500, 20000, caches, run_cache),
     Spec("C36", "Compare", "random requests compared between a plain and a predicted cache, in one and two parts; non-trivial: several batches of predictions and different sizes", 800, 10000, compares, run_compare),
     Spec("C36", "Models", "random dense models asked for classes and exported; non-trivial: several layers", 500, 6000, models(), run_model),
     Spec("C36", "Training", "random train sets in folds handed to a model; non-trivial: several folds", 300, 3000, trains(), run_train))
