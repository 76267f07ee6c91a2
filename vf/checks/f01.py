"""F01: every value of a dataset is read back as it was stored, or refused when it is stored."""
from vf import items


def run(chk):
    chk.model_check("FormatDesign", "FormatDesignLarge.cfg" if chk.thorough else "FormatDesignGood.cfg")
    chk.model_refutes("FormatDesign", "FormatDesignBad.cfg")
    cases = chk.generate("ItemsGen", "ItemsGen.cfg", chk.n(500, 6000), 60)
    chk.validate("ItemsTrace", "ItemsTrace.cfg", items.record(chk, cases), extra=cases)
