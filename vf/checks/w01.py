"""W01: chunks respect their limits and index.json describes exactly the files."""
from vf import store


def run(chk):
    store.check(chk, "StoreGen", "StoreGenOne.cfg", chk.n(420, 5000), 80, ["chunks"], share=6)
