"""S06: a state goes on where it was taken, or it is refused."""
from vf import state


def run(chk):
    cases = chk.generate("StateGen", "StateGen.cfg", chk.n(300, 4000), 40)
    chk.validate("StateTrace", "StateTrace.cfg", state.record(chk, cases), extra=cases)
