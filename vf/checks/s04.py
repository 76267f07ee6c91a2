"""S04: state_dict / load_state_dict continue with exactly the batches that were still to come, in every later epoch too."""
from vf import loader


def histories(chk, n, **over):
    cases = chk.generate("LoaderGen", "LoaderGen.cfg", n, 80)
    for i, c in enumerate(cases):
        c["conf"].update(over)
        if i % 4 == 3 and not over:
            # the dataset alone, without any loader: resumed on new objects only
            c["conf"].update(bare=True, W=0, B=1, persistent=False)
            swap = {"load": "renew", "leave": "finish"}
            c["ops"] = [{**o, "op": swap.get(o["op"], o["op"])} for o in c["ops"]]
    return cases


def run(chk):
    chk.model_check("LoaderDesignMC", "LoaderDesign.cfg", workers=8)
    cases = histories(chk, chk.n(260, 3000))
    traces = loader.record(chk, cases)
    chk.validate("LoaderTrace", "LoaderTrace.cfg", [
        {"cfg": loader.mkcfg(c["conf"], ["resume"]), "trace": t} for c, t in zip(cases, traces)], extra=cases)
