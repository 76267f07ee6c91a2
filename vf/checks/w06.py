"""W06: nodes which share the work store what one machine would."""
from vf import nodes


def run(chk):
    for c in ("Good", "Live") + (("Large",) if chk.thorough else ()):
        chk.model_check("NodesDesign", f"NodesDesign{c}.cfg", workers=8)
    for c in ("Stale", "Wait", "First"):
        chk.model_refutes("NodesDesign", f"NodesDesignBad{c}.cfg", workers=8)
    cases = chk.generate("NodesGen", "NodesGen.cfg", chk.n(80, 1200), 60)
    chk.validate("NodesTrace", "NodesTrace.cfg", nodes.record(chk, cases), extra=cases)
