"""R01: what is read from a remote dataset is what it holds now."""
from vf import remote


def run(chk):
    chk.model_check("CacheDirDesign", "CacheDirDesignGood.cfg", workers=8)
    chk.model_refutes("CacheDirDesign", "CacheDirDesignBad.cfg", workers=8)
    cases = chk.generate("RemoteGen", "RemoteGen.cfg", chk.n(150, 2000), 40)
    chk.validate("RemoteTrace", "RemoteTrace.cfg", remote.record(chk, cases), extra=cases)
