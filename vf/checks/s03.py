"""S03: the order is sequential without shuffling, and with it a chunk-wise permutation fixed by seed, epoch and topology."""
from vf import streams


def run(chk):
    chk.model_check("StreamsDesignMC", "StreamsDesignSmall.cfg")
    chk.model_check("StreamsDesignMC", "StreamsDesignLarge.cfg")
    cases = chk.enumerate("StreamsGen", "StreamsGen.cfg")
    if not chk.thorough:
        chk.rng.shuffle(cases)
        cases = cases[:500]
    cases += [streams.rand_case(chk.rng) for _ in range(chk.n(200, 4000))]
    big = []
    for _ in range(chk.n(60, 800)):
        c = streams.rand_case(chk.rng, R=(1, 2, 4), W=(1, 2), B=(1, 2, 4), shuffle=True)
        # every stream holds a dozen items or more: two equal orders by chance are out of the question
        k = chk.rng.randint(2, 6)
        c["sizes"] = [chk.rng.randint(3, 9) + 12 * c["R"] * c["W"] // k for _ in range(k)]
        big.append(c)
    kw = dict(epochs=(1, 2, 3), replay=(2, 1, 3), with_len=False)
    t1 = streams.record_all(chk, cases, **kw)
    t2 = streams.record_all(chk, big, otherseed=(1, 2), **kw)
    groups = ["order", "chunkwise", "shuffle", "determinism"]
    chk.validate("StreamsTrace", "StreamsTrace.cfg", [
        {"cfg": streams.mkcfg(c, groups), "trace": t} for c, t in zip(cases, t1)] + [
        {"cfg": streams.mkcfg(c, groups, big=True), "trace": t} for c, t in zip(big, t2)])
