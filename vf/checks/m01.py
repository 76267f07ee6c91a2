"""M01: map processes every input once and publishes exactly what was written."""
from vf import mapping


def run(chk):
    for c in ("Good", "Two") + (("Large",) if chk.thorough else ()):
        chk.model_check("MapDesign", f"MapDesign{c}.cfg", workers=8)
    for c in ("Atomic", "Shared", "Order", "Up", "Down"):
        chk.model_refutes("MapDesign", f"MapDesignBad{c}.cfg", workers=8)
    cases = chk.generate("MapGen", "MapGen.cfg", chk.n(300, 4000), 40)
    chk.validate("MapTrace", "MapTrace.cfg", mapping.record(chk, cases), extra=cases)
