"""S05: a loader can be iterated again and again - complete, abandoned or resumed epochs - and every epoch is whole."""
from vf import loader
from vf.checks.s04 import histories

KEY = "persistent_workers+abandoned_epoch"


def run(chk):
    chk.model_check("LoaderDesignMC", "LoaderDesign.cfg", workers=8)
    cases = histories(chk, chk.n(260, 3000))
    known = {"conf": {"sizes": [7, 6, 5, 7], "R": 1, "rank": 0, "W": 1, "B": 2, "drop": False, "shuffle": True, "persistent": True},
             "ops": [{"op": "new"}, {"op": "start"}, {"op": "next", "n": 1}, {"op": "leave"}, {"op": "start"}, {"op": "finish"}]}
    cases.append(known)
    traces = loader.record(chk, cases)
    chk.validate("LoaderTrace", "LoaderTrace.cfg", [
        {"cfg": loader.mkcfg(c["conf"], ["reiterate", "len"], key=KEY if c is known else ""), "trace": t}
        for c, t in zip(cases, traces)], extra=cases)
