"""V02: subsamples and splits are what they say: sizes, disjointness, determinism, sharing."""
from vf import view


def run(chk):
    chk.model_check("SplitDesign", "SplitDesignSmall.cfg")
    chk.model_refutes("SplitDesign", "SplitDesignBad.cfg")
    if chk.thorough:
        chk.model_check("SplitDesign", "SplitDesign.cfg")
    view.check(chk, "ViewGenSplit.cfg", chk.n(300, 4000))
