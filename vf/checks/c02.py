"""C02: a combined loader resumed from its state goes on with exactly the batches still to come."""
from vf import combined


def run(chk):
    chk.model_check("CombinedDesign", "CombinedDesignLarge.cfg" if chk.thorough else "CombinedDesignGood.cfg", workers=8)
    chk.model_refutes("CombinedDesign", "CombinedDesignBad.cfg", workers=8)
    cases = chk.generate("CombinedGen", "CombinedGenResume.cfg", chk.n(200, 2500), 80)
    traces = combined.record(chk, cases)
    chk.validate("CombinedTrace", "CombinedTrace.cfg", [
        {"cfg": combined.mkcfg(c["conf"], ["resume"]), "trace": t} for c, t in zip(cases, traces)], extra=cases)
