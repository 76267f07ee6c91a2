"""Loads the state of one run into another one (spec: State)."""
import copy
import os
import pickle

from vf import core, ds


def make_data(c, r, wd, name):
    p = os.path.join(wd, name)
    sizes = c["sizes"] if r["data"] == 1 else [*reversed(c["sizes"]), 3]
    if os.path.exists(p):
        return p
    if r["block"]:
        import torch

        from litdata.streaming.cache import Cache
        from litdata.streaming.item_loader import TokensLoader

        w = Cache(p, chunk_size=8, item_loader=TokensLoader(block_size=r["block"]))
        for k in range(len(sizes)):
            w[k] = torch.arange(8 * k, 8 * k + 8)
        w.done()
        w.merge()
    else:
        ds.make_dataset(p, sizes, start=1)
    return p


def count(c, r):
    sizes = c["sizes"] if r["data"] == 1 else [*c["sizes"], 3]
    return 8 * len(sizes) // r["block"] if r["block"] else sum(sizes)


class Run:
    def __init__(self, c, r, wd, force):
        import litdata
        from litdata.streaming.item_loader import TokensLoader

        self.c, self.r = c, r
        p = make_data(c, r, wd, f"d{r['data']}")
        kw = dict(shuffle=r["shuffle"], drop_last=r["drop"], seed=r["seed"])
        if r["block"]:
            kw["item_loader"] = TokensLoader(block_size=r["block"])
        if c["remote"]:
            kw["cache_dir"] = os.path.join(wd, "cache")
            p = "local:" + p
        self.d = litdata.StreamingDataset(p, force_override_state_dict=force, **kw)
        self.loader = None if c["bare"] else litdata.StreamingDataLoader(self.d, batch_size=c["B"], num_workers=r["W"], collate_fn=list)
        self.n = 0

    def number(self, x):
        return int(x[0]) // self.r["block"] + 1 if self.r["block"] else ds.dec(x)

    def items(self, limit=None):
        """Items of the next epoch: those of the first `limit` batches, or all."""
        out = []
        if self.loader is None:
            for x in self.d:
                out.append(self.number(x))
                if limit == len(out):
                    break
            self.n = len(out)
            return out
        for k, b in enumerate(self.loader):
            out += [self.number(x) for x in b]
            if limit == k + 1:
                break
        return out

    def state(self):
        return self.d.state_dict(self.n, 0, 1) if self.loader is None else self.loader.state_dict()

    def load(self, s):
        (self.d if self.loader is None else self.loader).load_state_dict(s)


def steps(c, wd):
    """Batches (or items, without a loader) in the epoch the state is taken from."""
    twin = Run(c, c["a"], wd, False)
    for _ in range(c["epoch"] - 1):
        twin.items()
    if twin.loader is None:
        return len(twin.items())
    return sum(1 for _ in twin.loader)


def run_case(c, wd):
    ds.import_litdata()
    tr = []
    n = steps(c, wd)
    if n < 2:
        return tr
    a = Run(c, c["a"], wd, False)
    for _ in range(c["epoch"] - 1):
        a.items()
    at = 1 + c["at"] % (n - 1)     # not at the end of the epoch
    tr.append({"ev": "before", "items": a.items(at)})
    s = a.state()
    if c["disk"]:
        s = pickle.loads(pickle.dumps(s))
    before = copy.deepcopy(s)
    del a
    try:
        b = Run(c, c["b"], wd, c["force"])
        refused = False
        try:
            b.load(s)
            items = b.items()
        except ValueError:
            refused = True
        tr.append({"ev": "refused"} if refused else {"ev": "after", "items": items})
        if not refused:
            tr.append({"ev": "next", "items": b.items()})
    except Exception as ex:  # noqa: BLE001
        import traceback
        tr.append({"ev": "error", "what": f"{type(ex).__name__}: {ex}"[-400:], "tb": traceback.format_exc()[-1500:]})
    tr.append({"ev": "state", "same": s == before})
    return tr


def mkcfg(c):
    keep = lambda r: {**r, "W": max(1, r["W"])}  # noqa: E731
    return {"a": keep(c["a"]), "b": keep(c["b"]), "force": c["force"], "n": count(c, c["b"]), "key": ""}


def record(chk, cases):
    ds.import_litdata()
    out = []
    for c, r in zip(cases, core.run_cases(run_case, cases, timeout=90)):
        tr = r["ok"] if "ok" in r else [{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:800]}]
        cfg = mkcfg(c)
        if not c["bare"] and tr and len(tr[0].get("items", [])) >= cfg["n"]:
            cfg["key"] = "past_end"     # the state lies past the end of the dataset it is loaded into
        out.append({"cfg": cfg, "trace": tr})
    return out
