"""S02: processes and workers receive equal shares, and the announced lengths are the delivered ones."""
from vf import streams


def run(chk):
    chk.model_check("StreamsDesignMC", "StreamsDesignLarge.cfg")
    cases = chk.enumerate("StreamsGen", "StreamsGen.cfg")
    if not chk.thorough:
        chk.rng.shuffle(cases)
        cases = cases[:900]
    cases += [streams.rand_case(chk.rng, max_chunks=9, max_size=7, R=(1, 2, 3, 4, 5, 6, 8)) for _ in range(chk.n(300, 6000))]
    traces = streams.record_all(chk, cases, epochs=(1, 2), with_len=True)
    chk.validate("StreamsTrace", "StreamsTrace.cfg", [
        {"cfg": streams.mkcfg(c, ["balance", "len"]), "trace": t} for c, t in zip(cases, traces)])
