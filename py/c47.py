"""C47: the scripts around the studies: configurations written, variants compared."""
import importlib.util
import io
import itertools
import math
import os
import re
import sys
from contextlib import contextmanager, redirect_stdout

import numpy as np
import yaml
from hypothesis import strategies as s

import pandas_standin
from common import REPO, Finding, Spec, check, driver_error, main, scratch

sys.modules["pandas"] = pandas_standin
LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


def script(path):
    spec = importlib.util.spec_from_file_location("script_" + os.path.basename(path)[:-3], os.path.join(REPO, path))
    m = sys.modules[spec.name] = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(m)
    except Exception as e:
        driver_error(f"cannot import {path}: {e!r}")
    return m


STUDY = script("scripts/tests/generator.py")
WEIGHTS = script("config/simulations/weight_function_italian_dataset/100T/make_configs.py")


@contextmanager
def started_in(folder, argv=()):
    here, old = os.getcwd(), list(sys.argv)
    os.chdir(folder)
    sys.argv[:] = ["script"] + list(argv)  # in place: some import the list by name
    out = io.StringIO()
    try:
        with redirect_stdout(out):
            yield out
    finally:
        os.chdir(here)
        sys.argv[:] = old


# --- configurations ----------------------------------------------------------

def flat(d, at=""):
    """The settings of a configuration by their dotted names, as the simulator asks for them."""
    res = {}
    for k, v in d.items():
        if isinstance(v, dict):
            res.update(flat(v, at + str(k).lower() + "."))
        else:
            res[at + str(k).lower()] = "" if v is None else v
    return res


def frozen(d):
    """Settings that can be compared; the last digit of a number may have another form."""
    return frozenset((k, v if isinstance(v, (bool, str)) else float(v)) for k, v in d.items())


def target(d):
    """Where the simulator writes the results of a configuration."""
    kind = d["sim.cache.type"]
    if kind == "weightFunLRU":
        name = "_".join([kind, d["sim.weightfunc.name"]] + ["%0.2f" % d["sim.weightfunc." + k] for k in ("alpha", "beta", "gamma")])
    else:
        sub = []
        if kind == "aiRL":
            sub = [d.get("sim.ai.rl.type", "SCDL2")]
            if sub[0] == "SCDL2":
                sub[0] += "-" + d.get("sim.ai.rl.eviction.type", "onK")
        name = "_".join([kind] + sub + ["%0.0f%s" % (d["sim.cache.size.value"], d["sim.cache.size.unit"].upper()), "%0.0fGbit" % d["sim.cache.bandwidth.value"], d["sim.region"]])
    return os.path.normpath(os.path.join(d["sim.outputfolder"], "run_full_normal", name))


MONTHS = [(i, i + 4) for i in range(0, 52, 4)]
WINDOWS = sorted(set(MONTHS + [(i, i + 12) for i in range(0, 48, 12)] + [(0, 16), (16, 32), (32, 48)]))
EPS = [0.1, 0.001, 0.0001]
KS = [1024, 2048, 4096]


def study(data, maps):
    """Every combination of the study, by its settings."""
    res = set()
    for region, (start, stop), marks, size in itertools.product(("it", "us"), WINDOWS, (True, False), (100, 200)):
        base = {"sim.data": f"{data}/source2018_numeric_{region}_with_avro_order", "sim.type": "normal", "sim.overwrite": True, "sim.window.start": start, "sim.window.stop": stop, "sim.region": region, "sim.cache.watermarks": marks,
                "sim.cache.size.value": size, "sim.cache.size.unit": "T", "sim.cache.bandwidth.value": 10, "sim.cache.bandwidth.redirect": True}
        for kind in ("lru", "lfu", "sizeBig", "sizeSmall"):
            res.add(frozen({**base, "sim.cache.type": kind}))
        base["sim.cache.type"] = "aiRL"
        for e in EPS:
            res.add(frozen({**base, "sim.ai.rl.type": "SCDL", "sim.ai.rl.epsilon.decay": e, "sim.ai.rl.epsilon.unleash": False, "sim.ai.rl.addition.featuremap": maps[0]}))
        base.update({"sim.ai.rl.type": "SCDL2", "sim.ai.rl.epsilon.unleash": False, "sim.ai.rl.addition.featuremap": maps[1], "sim.ai.rl.eviction.featuremap": maps[2]})
        for e, kind in itertools.product(EPS, ("onK", "onFree", "NoEviction")):
            for v, k in itertools.product(EPS if kind != "NoEviction" else [None], KS if kind == "onK" else [None]):
                # without an agent of that kind its settings mean nothing
                one = {**base, "sim.ai.rl.addition.epsilon.decay": e, "sim.ai.rl.eviction.type": kind}
                if v is not None:
                    one["sim.ai.rl.eviction.epsilon.decay"] = v
                if k is not None:
                    one["sim.ai.rl.eviction.k"] = k
                res.add(frozen(one))
    return res


def meant(d):
    """The settings of a configuration without those that mean nothing in it."""
    d = {k: v for k, v in d.items() if k != "sim.outputfolder"}
    kind = d.get("sim.ai.rl.eviction.type", "")
    if kind != "onK":
        d.pop("sim.ai.rl.eviction.k", None)
    if kind == "NoEviction":
        d.pop("sim.ai.rl.eviction.epsilon.decay", None)
    return frozen(d)


def written(folder):
    res = {}
    for name in os.listdir(folder):
        with open(os.path.join(folder, name)) as f:
            docs = list(yaml.load_all(f, LOADER))
        check(len(docs) == 1 and isinstance(docs[0], dict), "{} holds {!r}", name, docs)
        res[name] = flat(docs[0])
    return res


EVICTION = {"sim.ai.rl.eviction.epsilon.decay", "sim.ai.rl.eviction.k"}


def check_targets(configs):
    """Results of different simulations do not meet; returns those that differ only in how they learn to evict."""
    taken, shared = {}, []
    for name, d in sorted(configs.items()):
        here = target(d)
        what = meant(d)
        first = taken.setdefault(here, (name, what))
        differ = first[1] ^ what
        if differ and d.get("sim.ai.rl.type") == "SCDL2" and {k for k, _ in differ} <= EVICTION:
            shared.append(f"{first[0]} and {name}, differing in {sorted(map(str, differ))}, both write their results to {here}")
            continue
        check(not differ, "{} and {} differ in {!r} and both write their results to {}", first[0], name, sorted(map(str, differ)), here)
    return shared


def run_generator(case, rec):
    with scratch() as d:
        if case["weights"]:
            with started_in(d):
                WEIGHTS.main()
            configs = written(d)
            want = set()
            values = [0, 0.33, 0.5, 0.67, 1, 2, 4, 8, 16, 32, 64]
            for f in ("FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"):
                for a, b, g in itertools.product(values, values, values):
                    want.add((f, float(a), float(b), float(g)))
            got = [(c["sim.weightfunc.name"],) + tuple(float(c["sim.weightfunc." + k]) for k in ("alpha", "beta", "gamma")) for c in configs.values()]
            check(len(got) == len(want) and set(got) == want, "{} configurations of {} combinations; missing {!r}, further {!r}", len(got), len(want), sorted(want - set(got))[:5], sorted(set(got) - want)[:5])
            check(all(c["sim.cache.type"] == "weightFunLRU" for c in configs.values()), "a configuration of another cache")
            shared = check_targets(configs)
            check(not shared, "{}", shared[:1])
            rec.cls("weights")
            return
        data = os.path.join(*case["data"])
        os.makedirs(os.path.join(d, data))
        argv = [("./" if case["dot"] else "") + data + ("/" if case["slash"] else "")]
        for opt, m in zip(("--featureMap", "--additionFeatureMap", "--evictionFeatureMap"), case["maps"]):
            if m:
                argv += [opt, m]
        before = None
        for again in range(2 if case["old"] else 1):
            with started_in(d, argv):
                STUDY.main()
            configs = written(os.path.join(d, "configs"))
            want = study(data, case["maps"])
            got = {meant(c) for c in configs.values()}
            check(got == want, "missing {!r}, further {!r}", sorted(map(sorted_text, want - got))[:2], sorted(map(sorted_text, got - want))[:2])
            for name, c in configs.items():
                path = os.path.normpath(c["sim.outputfolder"]).split(os.sep)
                start = ["results", c["sim.region"], f"{c['sim.window.start']}_{c['sim.window.stop']}", "watermarks" if c["sim.cache.watermarks"] else "noWatermarks", str(c["sim.cache.size.value"])]
                check(path[:5] == start, "{}: results in {!r}, its settings are {!r}", name, c["sim.outputfolder"], start)
            shared = check_targets(configs)
            check(before is None or before == configs, "the second run writes other configurations")
            before = configs
            if again == 0:
                with open(os.path.join(d, "configs", case["old"] or "it_999999.yml"), "w") as f:
                    f.write("--- # of an older study\nsim:\n  region: it\n")
        check(sorted(os.listdir(d)) == sorted({"configs", data.split(os.sep)[0]}), "left {!r}", os.listdir(d))
        if any(case["maps"]):
            rec.non_trivial()
        if case["old"]:
            rec.cls("again")
        if shared:
            raise Finding("eviction-settings", shared[0])


def sorted_text(settings):
    return str(sorted(map(str, settings)))


word = s.text("abcdefgxyzAZ0189_-", min_size=1, max_size=8).map(lambda x: "m" + x)
feature_map = s.one_of(s.just(""), s.lists(word, min_size=1, max_size=3).map(lambda x: "./" + "/".join(x) + ".json"))
generator_case = s.fixed_dictionaries({"weights": s.integers(0, 5).map(lambda x: x == 5), "data": s.lists(word, min_size=1, max_size=3), "dot": s.booleans(), "slash": s.booleans(), "maps": s.tuples(feature_map, feature_map, feature_map).map(list),
                                       "old": s.sampled_from(["", "it_999999.yml", "us_1.yml.bak"])})

# --- composing ---------------------------------------------------------------

FIELDS = {"region": s.sampled_from(["it", "us", "de"]), "w_start": s.integers(0, 5), "w_stop": s.integers(6, 52), "cache_type": s.sampled_from(["lru", "lfu", "aiRL"]), "cache_watermark": s.booleans(), "cache_size": s.integers(1, 300),
          "epsilonDecay": s.sampled_from([0.1, 0.5, 0.001, 0.00001]), "additionEpsilonDecay": s.sampled_from([0.1, 0.5, 0.001, 0.00001]), "evictionEpsilonDecay": s.sampled_from([0.1, 0.5, 0.001, 0.00001]), "k": s.integers(1, 4096),
          "ai_type": s.sampled_from(["SCDL", "SCDL2"]), "evictionType": s.sampled_from(["onK", "onFree", "NoEviction"])}


def key(elm):
    return tuple((n, getattr(elm, n)) for n in sorted(FIELDS))


def run_compose(case, rec):
    base = [STUDY.ConfigParameters(data_path="d", **b) for b in case["base"]]
    for step in case["steps"]:
        names = step["names"]
        values = [tuple(v[n] for n in names) for v in step["values"]]
        on, limit = step["on"], step["limit"]
        cond = {"all": None, "ai": lambda e: e.is_AI, "large": lambda e: e.cache_size > limit, "none": lambda e: False}[on]
        before = [key(b) for b in base]
        got = STUDY.compose(list(base), names if len(names) > 1 else names[0], [v if len(names) > 1 else v[0] for v in values], *([] if cond is None else [cond]))
        check([key(b) for b in base] == before, "composing {!r} changes its bases", names)
        want = []
        for b in base:
            if cond is not None and not cond(b):
                want.append(key(b))
                continue
            for v in values:
                one = dict(key(b))
                one.update(zip(names, v))
                want.append(tuple(sorted(one.items())))
        check(sorted(map(key, got), key=str) == sorted(want, key=str), "composing {!r} with {!r} where {}: {!r} instead of {!r}", names, values, on, sorted(map(key, got), key=str), sorted(want, key=str))
        check(len({id(e) for e in got}) == len(got), "two combinations are the same object")
        if 0 < sum(1 for b in base if cond is None or cond(b)) < len(base) and len(values) > 1:
            rec.non_trivial()
        base = got[:24]


step = s.fixed_dictionaries({"names": s.lists(s.sampled_from(sorted(FIELDS)), min_size=1, max_size=3, unique=True), "values": s.lists(s.fixed_dictionaries(FIELDS), min_size=0, max_size=4),
                             "on": s.sampled_from(["all", "ai", "large", "none"]), "limit": s.integers(1, 300)})
compose_case = s.fixed_dictionaries({"base": s.lists(s.fixed_dictionaries(FIELDS), min_size=1, max_size=5), "steps": s.lists(step, min_size=1, max_size=3)})

# --- differences -------------------------------------------------------------

FIGURES = ["Throughput", "Cost", "Read on hit ratio", "Bandwidth"]
PRINTED = ["throughput", "cost", "readOnHitRatio", "bandwidth"]
SCRIPTS = {"epsilon": ("scripts/resultAnalysis/epsilon_diff_calc.py", ["fast", "slow"], "[epsilon {}] ", ["fast", "slow"]), "noSize": ("scripts/resultAnalysis/noSize_diff_calc.py", ["no size"], "[NO_{}_feature] ", ["size"])}
CODE = {}
for which, parts in SCRIPTS.items():
    try:
        with open(os.path.join(REPO, parts[0])) as f:
            CODE[which] = compile(f.read(), parts[0], "exec")
    except (OSError, SyntaxError) as e:
        driver_error(f"cannot read {parts[0]}: {e!r}")


def difference(normal, variant):
    return (variant - normal) / ((normal + variant) / 2) * 100


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9) or math.isnan(a) and math.isnan(b)


def run_differences(case, rec):
    path, labels, prefix, variants = SCRIPTS[case["script"]]
    rows, values = [], {}
    for e in case["entries"]:
        name = f"{e['method']}_{e['size']}T_10Gbit_it"
        if (e["method"], e["size"]) in values:
            continue
        mine = values[e["method"], e["size"]] = {}
        for v, at in (("", "normal"),) + tuple((prefix.format(v), v) for v in variants):
            if at == "normal" or e["has"][variants.index(at)]:
                mine[at] = e["figures"]["normal" if at == "normal" else str(variants.index(at))]
                rows.append((v + ("aiRL_" if e["method"].startswith("SCDL") else "") + name, mine[at]))
        if e["other"] and case["script"] == "noSize":
            rows.append((prefix.format("delta") + "aiRL_" + name, e["figures"]["1"]))
    rows = [rows[i] for i in sorted(range(len(rows)), key=lambda i: (case["order"][i % len(case["order"])], i))]
    with scratch() as d:
        name = case["file"] or "table.csv"
        with open(os.path.join(d, name), "w") as f:
            f.write(",".join(["", "file"] + FIGURES + ["CPU"]) + "\n")
            for i, (n, x) in enumerate(rows):
                f.write(",".join([str(i), n] + [repr(float(v)) for v in x] + ["1.0"]) + "\n")
        with started_in(d, [name] if case["file"] else []) as out, np.errstate(all="ignore"):
            exec(CODE[case["script"]], {"__name__": "__main__"})
    text = out.getvalue()
    got, number = {}, r"(?:np\.float64\()?([-+.\deE]+|nan|inf|-inf)\)?"
    pattern = r"\|(\S+) (\S+) (\w+) diff\s*\|->" + "".join(r"\s+" + l + r":\s*" + number for l in labels)
    for m in re.finditer(pattern, text):
        k = (m[2], m[1], m[3])
        check(k not in got, "{!r} printed twice", k)
        got[k] = [float(x) for x in m.groups()[3:]]
    want = {}
    for (method, size), mine in values.items():
        if all(v in mine for v in variants):
            for i, p in enumerate(PRINTED):
                want[method, f"{size}T", p] = [difference(mine["normal"][i], mine[v][i]) for v in variants]
    check(set(got) == set(want), "{}: differences of {!r} instead of {!r}", case["script"], sorted(got), sorted(want))
    for k in want:
        check(all(map(close, got[k], want[k])), "{}: {!r} is {!r} instead of {!r}", case["script"], k, got[k], want[k])
    for j, l in enumerate(labels):
        for p in PRINTED:
            m = re.findall(l + " " + p + r" mean diff %\s+" + number, text)
            all_ = [v[j] for k, v in want.items() if k[2] == p]
            check(len(m) == 1 and close(float(m[0]), sum(all_) / len(all_) if all_ else float("nan")), "{}: mean {} of {} is {!r}, the values are {!r}", case["script"], p, l, m, all_)
    if len(want) > 4 and len(values) > len(want) // 4:
        rec.non_trivial()
    rec.cls(case["script"])


figures = s.lists(s.one_of(s.integers(1, 200).map(float), s.floats(0.01, 1e6)), min_size=4, max_size=4)
entry = s.fixed_dictionaries({"method": s.sampled_from(["SCDL", "SCDL2-onK", "SCDL2-onFree", "SCDL2-NoEviction", "lru", "lfu", "sizeBig"]), "size": s.sampled_from([10, 100, 200]), "has": s.lists(s.sampled_from([True, True, True, False]), min_size=2, max_size=2),
                              "figures": s.fixed_dictionaries({"normal": figures, "0": figures, "1": figures}), "other": s.booleans()})
differences_case = s.fixed_dictionaries({"script": s.sampled_from(sorted(SCRIPTS)), "entries": s.lists(entry, min_size=1, max_size=7), "order": s.lists(s.integers(0, 9), min_size=1, max_size=12), "file": s.sampled_from(["", "t.csv", "other table.csv"])})

main(Spec("C47", "Generator", "whole studies written for generated data and maps; non-trivial: a feature map is given", 4, 60, generator_case, run_generator),
     Spec("C47", "Compose", "steps of composing over generated bases; non-trivial: some bases are excluded, several values", 1200, 30000, compose_case, run_compose),
     Spec("C47", "Differences", "tables of results with variants; non-trivial: two pairs or more and one without", 800, 15000, differences_case, run_differences))
