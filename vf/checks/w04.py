"""W04: failures are reported, nothing incomplete is published, nothing hangs."""
from vf import store


def run(chk):
    chk.model_check("RunDesign", "RunDesignGood.cfg" if chk.thorough else "RunDesignSmall.cfg", workers=8)
    chk.model_check("RunDesign", "RunDesignZero.cfg", workers=8)
    chk.model_refutes("RunDesign", "RunDesignBadNoCheck.cfg", workers=8)
    chk.model_refutes("RunDesign", "RunDesignBadReport.cfg", workers=8)
    chk.model_refutes("RunDesign", "RunDesignBadOneRound.cfg", workers=8)
    store.check(chk, "StoreGen", "StoreGenFail.cfg", chk.n(420, 5000), 120, ["failure", "content", "lifecycle"], share=3)
