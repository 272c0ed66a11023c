"""C30: the Python LRU cache against a reference model."""
from hypothesis import strategies as s

from common import Spec, check, load, main

mod = load("SmartCache.pySim.cache")


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(case, rec):
    cap, sizes = case["cap"], case["sizes"]
    cache = mod.LRU(cap)
    order = []  # least recently used first
    hits = misses = 0
    written = deleted = read = 0.0
    per = {}
    for n, f in enumerate(case["reqs"]):
        name, size = f"file{f}", sizes[f]
        at = f"request {n} of {name} ({size} of {cap})"
        hit = name in order
        check(cache.check(name) == hit, "{}: check says {}, the model holds {}", at, cache.check(name), order)
        cache.get(name, size)
        h, m = per.get(name, (0, 0))
        read += size
        if hit:
            hits += 1
            h += 1
            order.remove(name)
            order.append(name)
            rec.cls("hit")
        else:
            misses += 1
            m += 1
            if size > cap:
                rec.cls("too-big")
            else:
                while sum(sizes[int(o[4:])] for o in order) + size > cap:
                    victim = order.pop(0)
                    deleted += sizes[int(victim[4:])]
                    rec.cls("evicted")
                order.append(name)
                written += size
        per[name] = (h, m)
        for i in range(len(sizes)):
            other = f"file{i}"
            check(cache.check(other) == (other in order), "{}: {} is {}held, the model holds {}", at, other, "" if cache.check(other) else "not ", order)
        want = hits / (hits + misses)
        check(near(cache.hit_rate(), want), "{}: hit rate {} instead of {}", at, cache.hit_rate(), want)
        used = sum(sizes[int(o[4:])] for o in order)
        if not all(hasattr(cache, x) for x in ("_size", "_hit", "_miss", "_written_data", "_deleted_data", "_read_data", "_stats")):
            rec.cls("figures not judged")  # they have other names now
            continue
        check(near(cache._size, used) and cache._size <= cap + 1e-9, "{}: the size is {}, the files held take {}", at, cache._size, used)
        check(cache._hit == hits and cache._miss == misses, "{}: {} hits and {} misses instead of {} and {}", at, cache._hit, cache._miss, hits, misses)
        for label, got, exp in (("written", cache._written_data, written), ("deleted", cache._deleted_data, deleted), ("read", cache._read_data, read)):
            check(near(got, exp), "{}: {} data {} instead of {}", at, label, got, exp)
        st = cache._stats.get_or_set(name, size)
        check((st.hit, st.miss, st.tot_requests, st.size) == (h, m, h + m, size), "{}: the file counts {} hits, {} misses, {} requests, size {} instead of {}, {}, {}", at, st.hit, st.miss, st.tot_requests, st.size, h, m, size)
    if "hit" in rec.classes and "evicted" in rec.classes:
        rec.non_trivial()


@s.composite
def cases(draw):
    n = draw(s.sampled_from([2, 4, 8, 15]))
    size = s.one_of(s.integers(1, 60).map(float), s.integers(1, 640).map(lambda i: i / 16))
    return {"cap": draw(s.sampled_from([10.0, 20.0, 50.0, 100.0, 33.5])), "sizes": draw(s.lists(size, min_size=n, max_size=n)),
            "reqs": draw(s.lists(s.integers(0, n - 1), min_size=draw(s.sampled_from([1, 10, 30])), max_size=80))}


main(Spec("C30", "LRU", "random capacities, sizes and request sequences, every figure compared after every request; non-trivial: at least one hit and one eviction", 2000, 12000, cases(), run))
