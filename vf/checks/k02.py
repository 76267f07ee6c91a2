"""K02: the cache keeps to its limit and gives everything back, and it keeps what fits."""
from vf import cache


def run(chk):
    for cfg in ("Good", "Cached", "Pre4", "One") + (("Large",) if chk.thorough else ()):
        chk.model_check("CacheDesignMC", f"CacheDesign{cfg}.cfg")
    for cfg in ("BadEarly", "BadEager"):
        chk.model_refutes("CacheDesignMC", f"CacheDesign{cfg}.cfg")
    cases = chk.generate("CacheGen", "CacheGenPlain.cfg", chk.n(80, 1000), 90)
    for c in cases:
        c["enforce"] = ["cache"]
    out, kept = cache.record(chk, cases, "cache")
    chk.validate("CacheTrace", "CacheTrace.cfg", out, extra=kept)
