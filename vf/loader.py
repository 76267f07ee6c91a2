"""Drives the real StreamingDataLoader through usage histories (spec: Loader)."""
import copy
import gc
import os
import pickle

from vf import ds, streams


def mkcfg(conf, enforce, key=""):
    return {"enforce": list(enforce), "key": key, "conf": {k: conf[k] for k in ("sizes", "R", "rank", "W", "B", "drop", "shuffle")} | {"bare": bool(conf.get("bare"))}}


def dec_batch(b):
    return [ds.dec(x) for x in b]


def make_loader(conf, path):
    from litdata import StreamingDataLoader

    case = {**conf, "nodes": 1}
    d = streams.new_dataset(case, path)
    return StreamingDataLoader(d, batch_size=conf["B"], num_workers=conf["W"], persistent_workers=bool(conf.get("persistent") and conf["W"]))


class BareDataset:
    """A StreamingDataset iterated without any loader, seen through the loader protocol (batches of one item)."""

    def __init__(self, conf, path):
        self.d = streams.new_dataset({**conf, "nodes": 1}, path)
        self.n, self.total = 0, None

    def __iter__(self):
        pending = self.d._state_dict is not None
        if not pending:
            self.n = 0
        it = iter(self.d)

        class It:
            def __next__(_):
                try:
                    x = next(it)
                except StopIteration:
                    self.n = 0
                    raise
                self.n += 1
                return [x]

        return It()

    def __len__(self):
        return len(self.d)

    def state_dict(self):
        return self.d.state_dict(num_samples_yielded=self.n, num_workers=0, batch_size=1)

    def load_state_dict(self, s):
        self.d.load_state_dict(s)
        self.n = s["num_samples_yielded"]


def run_history(case, wd, make=make_loader, path=None):
    ds.import_litdata()
    conf, ops = case["conf"], case["ops"]
    path = path or streams.dataset_for(conf, wd)
    tr, slots = [], []
    loader = it = None

    if conf.get("bare"):
        make = BareDataset

    def drain(limit=None):
        """Take `limit` batches (or all); returns False when the loader stopped."""
        n = 0
        while limit is None or n < limit:
            try:
                b = next(it)
            except StopIteration:
                tr.append({"ev": "end"})
                return False
            tr.append({"ev": "batch", "b": dec_batch(b)})
            n += 1
            if len(tr) > 5000:
                raise RuntimeError("endless iteration")
        return True

    with ds.ranks(conf["R"], conf["rank"], 1):
        try:
            # reference: complete epochs of one loader
            tr.append({"ev": "new"})
            loader = make(conf, path)
            for _ in range(case.get("epochs", 6)):
                tr.append({"ev": "start"})
                it = iter(loader)
                drain()
            tr.append({"ev": "len", "n": len(loader)})
            loader = it = None
            for o in ops:
                op = o["op"]
                if op in ("new", "renew"):
                    if it is not None:
                        it = None
                        tr.append({"ev": "leave"})
                    loader = None
                    tr.append({"ev": "new"})
                    loader = make(conf, path)
                    if op == "renew":
                        tr.append({"ev": "load", "slot": o["slot"]})
                        st = slots[o["slot"] - 1]
                        loader.load_state_dict(pickle.loads(st["disk"]) if len(ops) % 2 else st["mem"])
                elif op == "start":
                    tr.append({"ev": "start"})
                    it = iter(loader)
                elif op == "next":
                    if it is not None and not drain(o["n"]):
                        it = None
                elif op == "finish":
                    if it is not None:
                        drain()
                        it = None
                elif op == "leave":
                    if it is not None:
                        it = None
                        gc.collect()
                        tr.append({"ev": "leave"})
                elif op == "save":
                    if conf.get("bare") and it is not None and loader.n >= len(loader):
                        drain()  # a bare dataset only knows that its epoch is over once it said so
                        it = None
                    s = loader.state_dict()
                    slots.append({"mem": s, "disk": pickle.dumps(s)})
                    tr.append({"ev": "save", "slot": len(slots)})
                elif op == "load":
                    if it is not None:
                        it = None
                        tr.append({"ev": "leave"})
                    tr.append({"ev": "load", "slot": o["slot"]})
                    st = slots[o["slot"] - 1]
                    loader.load_state_dict(pickle.loads(st["disk"]) if len(ops) % 2 else st["mem"])
        except Exception as ex:  # noqa: BLE001
            import traceback
            tr.append({"ev": "error", "what": f"{type(ex).__name__}: {ex}"[-300:], "tb": traceback.format_exc()[-1500:]})
        it = loader = None
    return tr


def record(chk, cases, fn=run_history, timeout=200):
    from vf import core

    ds.import_litdata()
    res = core.run_cases(fn, cases, timeout=timeout)
    out = []
    for r in res:
        if "ok" in r:
            out.append(r["ok"])
        else:
            if r.get("exc", {}).get("type") == "MachineryError":
                raise core.MachineryError(r["exc"]["msg"])
            out.append([{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:500]}])
    return out
