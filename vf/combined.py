"""Drives the real CombinedStreamingDataset under a StreamingDataLoader through usage histories (spec: Combined)."""
import gc
import os
import pickle

from vf import core, ds

OFFSET = 1000  # item = dataset * OFFSET + number


def mkcfg(conf, enforce, key=""):
    return {"enforce": list(enforce), "key": key, "D": len(conf["sizes"]), "W": max(1, conf["W"]), "B": conf["B"],
            "weights": conf["weights"], "per": conf["per"], "ratio": bool(conf.get("ratio")), "legal": True,
            "conf": {k: conf[k] for k in ("sizes", "R", "rank", "drop", "shuffle", "seed")}}


def layout(n, d):
    """Chunk sizes of dataset d."""
    out, k = [], d
    while n:
        c = min(n, 1 + (k * 5 + n) % 4 if n < 50 else 20)
        out.append(c)
        n -= c
        k += 1
    return out


def dataset_for(n, d, root):
    p = os.path.join(root, f"c{d}_{n}")
    if not os.path.exists(os.path.join(p, "index.json")):
        sizes = layout(n, d)
        if ds.make_dataset(p, sizes, start=d * OFFSET) != sizes:
            raise core.MachineryError("chunk sizes")
    return p


def children(conf, wd):
    from litdata import StreamingDataset

    return [StreamingDataset(dataset_for(n, d + 1, wd), shuffle=conf["shuffle"], drop_last=conf["drop"], seed=conf["seed"] % 3)
            for d, n in enumerate(conf["sizes"])]


def make_loader(conf, wd):
    from litdata import CombinedStreamingDataset, StreamingDataLoader

    c = CombinedStreamingDataset(children(conf, wd), seed=conf["seed"], weights=conf["weights"] or None,
                                 iterate_over_all=not conf["weights"],
                                 batching_method="per_stream" if conf["per"] else "stratified")
    return StreamingDataLoader(c, batch_size=conf["B"], num_workers=conf["W"])


def item(x):
    v = ds.dec(x)
    return [v // OFFSET, v % OFFSET]


def refs(conf, wd, epochs):
    """What every dataset alone delivers to every worker."""
    tr = []
    W = max(1, conf["W"])
    for e in epochs:
        for w in range(W):
            for d, c in enumerate(children(conf, wd)):
                c.set_batch_size(conf["B"])
                c.set_num_workers(conf["W"])
                c.set_epoch(e)
                with ds.worker(w, W):
                    tr.append({"ev": "ref", "e": e, "d": d + 1, "w": w + 1, "items": [item(x)[1] for x in c]})
    return tr


def run_history(case, wd):
    ds.import_litdata()
    conf, ops = case["conf"], case["ops"]
    slots = []
    loader = it = None
    nepochs = case.get("epochs", 4)
    tr = []

    def drain(limit=None):
        n = 0
        while limit is None or n < limit:
            try:
                b = next(it)
            except StopIteration:
                tr.append({"ev": "end"})
                return False
            tr.append({"ev": "batch", "b": [item(x) for x in b]})
            n += 1
            if len(tr) > 5000:
                raise RuntimeError("endless iteration")
        return True

    for d, n in enumerate(conf["sizes"]):
        dataset_for(n, d + 1, wd)
    with ds.ranks(conf["R"], conf["rank"], 1):
        try:
            tr.extend(refs(conf, wd, range(1, nepochs + 1)))
            tr.append({"ev": "new"})
            loader = make_loader(conf, wd)
            if case.get("len"):
                n = loader.dataset.get_len(conf["W"], conf["B"])
                tr.append({"ev": "len", "n": -1 if n is None else n})
            for _ in range(min(nepochs, case.get("seen", nepochs))):
                tr.append({"ev": "start"})
                it = iter(loader)
                drain()
            loader = it = None
            for o in ops:
                op = o["op"]
                if op in ("new", "renew"):
                    if it is not None:
                        it = None
                        tr.append({"ev": "leave"})
                    loader = None
                    tr.append({"ev": "new"})
                    loader = make_loader(conf, wd)
                    if op == "renew":
                        tr.append({"ev": "load", "slot": o["slot"]})
                        loader.load_state_dict(slots[o["slot"] - 1]["mem"] if len(ops) % 2 else pickle.loads(slots[o["slot"] - 1]["disk"]))
                elif op == "start":
                    tr.append({"ev": "start"})
                    it = iter(loader)
                elif op == "next":
                    if it is not None and not drain(o["n"]):
                        it = None
                elif op == "finish":
                    if it is not None:
                        drain()
                        it = None
                elif op == "leave":
                    if it is not None:
                        it = None
                        gc.collect()
                        tr.append({"ev": "leave"})
                elif op == "save":
                    st = loader.state_dict()
                    slots.append({"mem": st, "disk": pickle.dumps(st)})
                    tr.append({"ev": "save", "slot": len(slots)})
                elif op == "load":
                    if it is not None:
                        it = None
                        tr.append({"ev": "leave"})
                    tr.append({"ev": "load", "slot": o["slot"]})
                    loader.load_state_dict(slots[o["slot"] - 1]["mem"] if len(ops) % 2 else pickle.loads(slots[o["slot"] - 1]["disk"]))
        except Exception as ex:  # noqa: BLE001
            import traceback
            tr.append({"ev": "error", "what": f"{type(ex).__name__}: {ex}"[-300:], "tb": traceback.format_exc()[-1500:]})
        it = loader = None
    return tr


def record(chk, cases, timeout=200):
    ds.import_litdata()
    out = []
    for r in core.run_cases(run_history, cases, timeout=timeout):
        if "ok" in r:
            out.append(r["ok"])
        else:
            if r.get("exc", {}).get("type") == "MachineryError":
                raise core.MachineryError(r["exc"]["msg"])
            out.append([{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:500]}])
    return out
