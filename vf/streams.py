"""Records what every (rank, worker) stream of the real StreamingDataset yields (spec: Streams)."""
import os
import random

import numpy as np

from vf import core, ds


def mkcfg(case, enforce, items=None, big=False, key=None):
    sizes = case["sizes"]
    chunk = [k + 1 for k, n in enumerate(sizes) for _ in range(n)]
    R = case["R"]
    drop = case["drop"]
    return {"items": list(range(len(chunk))) if items is None else items, "chunk": chunk, "R": R, "W": case["W"], "B": case["B"],
            "nodes": case["nodes"], "drop": drop, "shuffle": case["shuffle"], "big": big, "enforce": list(enforce),
            "key": key or "", "sizes": sizes, "seed": case.get("seed", 42)}


def dataset_for(case, root):
    name = "d" + "_".join(map(str, case["sizes"])) + str(case.get("compression") or "")
    p = os.path.join(root, name)
    if not os.path.exists(os.path.join(p, "index.json")):
        got = ds.make_dataset(p, case["sizes"], compression=case.get("compression"))
        if got != case["sizes"]:
            raise core.MachineryError(f"chunk sizes {got} instead of {case['sizes']}")
    return p


def new_dataset(case, path, **kw):
    from litdata import StreamingDataset

    drop = case["drop"]
    if case["R"] > 1 and drop and case.get("drop_default", True):
        drop = None  # documented default in a distributed setting: True
    a = dict(shuffle=case["shuffle"], drop_last=drop, seed=case.get("seed", 42))
    a.update(kw)
    return StreamingDataset(path, **a)


def record(case, root, epochs=(1, 2), replay=(), with_len=True, otherseed=()):
    """One training run of the given topology: a list of events of the Streams specification."""
    path = dataset_for(case, root)
    tr = []
    R, W, B = case["R"], case["W"], case["B"]
    W0 = case.get("W0", W)  # what the loader announces (0 or 1 worker process look the same)

    def one_epoch(e, kind, case=case):
        tr.append({"ev": kind, "e": e})
        # the order must not depend on the state of the global random generators
        random.seed(len(tr))
        np.random.seed(len(tr))
        for r in range(R):
            with ds.ranks(R, r, case["nodes"]):
                if with_len and kind == "epoch":
                    d = new_dataset(case, path)
                    if (sum(case["sizes"]) + e + r) % 2:
                        d.get_len(W0 + 1, B + 2)  # another loader uses the dataset as well
                    d.set_batch_size(B)
                    d.set_num_workers(W0)
                    d.set_epoch(e)
                    tr.append({"ev": "len", "r": r, "n": len(d)})
                for w in range(W):
                    g = r * W + w + 1
                    d = new_dataset(case, path)
                    d.set_batch_size(B)
                    d.set_num_workers(W0)
                    d.set_epoch(e)
                    with ds.worker(w, W):
                        try:
                            for x in d:
                                tr.append({"ev": "item", "g": g, "i": ds.dec(x)})
                        except Exception as ex:  # noqa: BLE001
                            tr.append({"ev": "error", "g": g, "what": f"{type(ex).__name__}: {ex}"[:300]})
                            return False
                        tr.append({"ev": "done", "g": g})
        tr.append({"ev": "endepoch"})
        return True

    for e in epochs:
        if not one_epoch(e, "epoch"):
            return tr
    for e in replay:
        if not one_epoch(e, "replay"):
            return tr
    for e in otherseed:
        if not one_epoch(e, "otherseed", {**case, "seed": case.get("seed", 42) + 1}):
            return tr
    return tr


def rand_case(rng, max_chunks=7, max_size=6, R=(1, 2, 3, 4), W=(1, 2, 3, 4), B=(1, 2, 3, 4, 5), nodes=(1, 2), shuffle=None):
    R_ = rng.choice(R)
    return {"sizes": [rng.randint(1, max_size) for _ in range(rng.randint(1, max_chunks))], "R": R_, "W": rng.choice(W),
            "B": rng.choice(B), "nodes": rng.choice([n for n in nodes if R_ % n == 0]),
            "drop": rng.random() < 0.5, "shuffle": rng.random() < 0.6 if shuffle is None else shuffle,
            "seed": rng.choice([42, 0, 7, rng.randint(1, 10**6)]), "drop_default": rng.random() < 0.5}


def run_group(args, wd):
    """args: {"cases": [...], kwargs}; one dataset folder per distinct sizes."""
    ds.import_litdata()
    out = []
    for c in args["cases"]:
        out.append(record(c, wd, **args["kw"]))
    return out


def record_all(chk, cases, timeout=300, per=12, **kw):
    """Record all cases in forked groups; returns traces aligned with cases."""
    ds.import_litdata()
    order = sorted(range(len(cases)), key=lambda i: cases[i]["sizes"])
    groups = [order[i:i + per] for i in range(0, len(order), per)]
    res = core.run_cases(run_group, [{"cases": [cases[i] for i in g], "kw": kw} for g in groups], timeout=timeout)
    traces = [None] * len(cases)
    for g, r in zip(groups, res):
        if "ok" in r:
            for i, t in zip(g, r["ok"]):
                traces[i] = t
        elif "hang" in r or "exc" in r or "died" in r:
            # isolate the culprit: one case per process
            single = core.run_cases(run_group, [{"cases": [cases[i]], "kw": kw} for i in g], timeout=30)
            for i, s in zip(g, single):
                if "ok" in s:
                    traces[i] = s["ok"][0]
                else:
                    what = "hang" if "hang" in s else (s.get("exc", {}).get("type", "died") + ": " + s.get("exc", {}).get("msg", ""))
                    if s.get("exc", {}).get("type") == "MachineryError":
                        raise core.MachineryError(what)
                    traces[i] = [{"ev": "error", "what": what[:300]}]
    return traces
