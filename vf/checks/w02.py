"""W02: optimize stores every item of every input once, in order."""
from vf import store


def run(chk):
    store.check(chk, "StoreGen", "StoreGenOne.cfg", chk.n(420, 5000), 80, ["calls", "content", "order"], share=6)
