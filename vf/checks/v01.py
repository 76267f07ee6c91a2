"""V01: indexing, slicing, len, iteration and sharing of a dataset, a subsample or a split agree."""
from vf import view


def run(chk):
    view.check(chk, "ViewGen.cfg", chk.n(300, 4000))
