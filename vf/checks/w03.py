"""W03: what a directory contains after any sequence of runs (none / append / overwrite) and merges."""
from vf import store

# an interrupted run, then an append of compressed chunks with the same numbers
MIXED = [store.run_op(nw=1, fail="raise", at=6, size=2), store.run_op(nw=1, mode="append", comp="zstd", size=2)]


def run(chk):
    store.check(chk, "StoreGen", "StoreGenLife.cfg", chk.n(190, 2500), 200, ["lifecycle", "content", "order"], share=2, more=[MIXED])
    store.check(chk, "StoreGenMerge", "StoreGenMerge.cfg", chk.n(90, 1000), 30, ["lifecycle", "content", "order"], share=3)
