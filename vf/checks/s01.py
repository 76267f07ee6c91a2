"""S01: every epoch delivers every item exactly once over all processes and workers."""
from vf import streams

KEY = "nodes>1,shuffle,epoch>1"


def key(c):
    return KEY if c["nodes"] > 1 and c["shuffle"] else ""


def run(chk):
    chk.model_check("StreamsDesignMC", "StreamsDesignSmall.cfg")
    chk.model_check("StreamsDesignMC", "StreamsDesignLarge.cfg")
    if chk.thorough:
        chk.model_check("StreamsDesignMC", "StreamsDesignDedup.cfg")
    cases = chk.enumerate("StreamsGen", "StreamsGen.cfg")
    if not chk.thorough:
        chk.rng.shuffle(cases)
        cases = cases[:900]
    cases += [streams.rand_case(chk.rng) for _ in range(chk.n(300, 6000))]
    traces = streams.record_all(chk, cases, epochs=(1, 2, 3), with_len=False)
    chk.validate("StreamsTrace", "StreamsTrace.cfg", [
        {"cfg": streams.mkcfg(c, ["coverage"], key=key(c)), "trace": t} for c, t in zip(cases, traces)])
