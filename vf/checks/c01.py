"""C01: a combined dataset interleaves its datasets' own streams as its options promise (all of them; or in the given ratio until one ends)."""
from vf import combined

RATIO = [dict(sizes=[150, 150], weights=[1, 1]), dict(sizes=[150, 100, 200], weights=[3, 1, 2]), dict(sizes=[200, 50], weights=[9, 1]),
         dict(sizes=[120, 120, 120], weights=[1, 0, 4])]


def run(chk):
    cases = chk.generate("CombinedGen", "CombinedGen.cfg", chk.n(200, 2500), 80)
    for i, c in enumerate(cases):
        c["len"] = i % 2 == 0
    for x, r in enumerate(RATIO):
        for per in (False, True):
            cases.append({"conf": {"R": 1, "rank": 0, "W": 0, "B": 2, "drop": False, "shuffle": x % 2 == 0, "per": per, "seed": x + 7,
                                   "ratio": True, **r}, "ops": [], "epochs": 2})
    traces = combined.record(chk, cases)
    chk.validate("CombinedTrace", "CombinedTrace.cfg", [
        {"cfg": combined.mkcfg(c["conf"], ["same", "per_stream"]), "trace": t} for c, t in zip(cases, traces)], extra=cases)
