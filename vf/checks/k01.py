"""K01: remote data is delivered complete and intact, and without stalling, whatever the cache limit, the timing and the other readers."""
from vf import cache


def run(chk):
    for cfg in ("Good", "Cached", "Pre1", "Pre4") + (("Large",) if chk.thorough else ()):
        chk.model_check("CacheDesignMC", f"CacheDesign{cfg}.cfg")
    for cfg in ("BadPre1", "BadEvict", "BadLock", "BadRemove"):
        chk.model_refutes("CacheDesignMC", f"CacheDesign{cfg}.cfg")
    cases = chk.generate("CacheGen", "CacheGenMixed.cfg", chk.n(80, 1000), 90)
    for c in cases:
        c["enforce"] = ["data"]
    # known finding: see known_findings.json
    cases.append({"conf": {"W": 0, "R": 1, "sizes": [2] * 8, "pre": 2, "max": "tiny", "kind": "plain", "via": "slow", "shuffle": False,
                           "B": 1, "slow": 0, "jitter": 0, "litter": "none", "seed": 1, "pace": 0}, "enforce": ["data"],
                  "key": "W=0:read_by_number_after_unfinished_epoch", "ops": [{"op": "part", "n": 2}, {"op": "get", "ix": [15]}]})
    out, kept = cache.record(chk, cases, "data")
    chk.validate("CacheTrace", "CacheTrace.cfg", out, extra=kept)
