"""W05: an interrupted checkpointed run, started again, completes to the dataset of an uninterrupted run."""
from vf import store


def run(chk):
    chk.model_check("CkptDesign", "CkptDesignLarge.cfg" if chk.thorough else "CkptDesignGood.cfg", workers=8)
    for bad in ("Queues", "Count", "Atomic"):
        chk.model_refutes("CkptDesign", f"CkptDesignBad{bad}.cfg", workers=8)
    store.check(chk, "StoreGenCkpt", "StoreGenCkpt.cfg", chk.n(110, 1200), 80, ["content", "order", "chunks", "calls", "lifecycle"], share=3)
