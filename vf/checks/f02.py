"""F02: Parquet files and MosaicML shards are read row for row, through every option."""
from vf import foreign


def run(chk):
    chk.model_check("ForeignDesign", "ForeignDesignLarge.cfg" if chk.thorough else "ForeignDesignGood.cfg")
    chk.model_check("ForeignDesign", "ForeignDesignSeq.cfg")
    chk.model_refutes("ForeignDesign", "ForeignDesignBad.cfg")
    cases = chk.generate("ForeignGen", "ForeignGen.cfg", chk.n(240, 4000), 60)
    chk.validate("ForeignTrace", "ForeignTrace.cfg", foreign.record(chk, cases), extra=cases)
