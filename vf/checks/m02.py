"""M02: map and optimize see every item of a streaming dataloader or of Parquet files once."""
from vf import mapping


def run(chk):
    cases = [c for c in chk.generate("SourceGen", "SourceGen.cfg", chk.n(240, 3000), 40) if sum(c["sizes"])]
    out = mapping.record(chk, cases, mapping.run_source, mapping.source_cfg, timeout=150)
    chk.validate("MapTrace", "MapTrace.cfg", out, extra=cases)
