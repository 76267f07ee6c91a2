"""Drives StreamingDataset views: subsample, split, index, slice, len, iterate, share (spec: View)."""
import copy
import os

from vf import core, ds, fakes3

NONE = 999


def _encryption(store):
    if not store.startswith("enc"):
        return None
    from litdata.utilities.encryption import FernetEncryption

    return FernetEncryption(password="pw", level=store.split("_")[1])


def run_case(case, wd):
    ds.import_litdata()
    from litdata import StreamingDataset, train_test_split
    from litdata.streaming.item_loader import TokensLoader

    base, store = case["base"], case["base"]["store"]
    sizes, n = base["sizes"], sum(base["sizes"])
    fakes3.install(os.path.join(wd, "s3"))
    data = os.path.join(wd, "s3", "bucket", "data") if ("remote" in store) else os.path.join(wd, "data")
    encryption = _encryption(store)
    tokens = "tokens" in store
    got = sizes
    if tokens:
        ds.make_tokens(data, sizes, compression="zstd" if "zstd" in store else None)
    else:
        got = ds.make_dataset(data, sizes, compression="zstd" if "zstd" in store else None, encryption=encryption)
    if got != sizes and not encryption:
        raise core.MachineryError(f"chunk sizes {got} instead of {sizes}")

    def new(o):
        kw = {}
        if ("remote" in store):
            kw = {"cache_dir": os.path.join(wd, "cache")}
            if "small" in store:
                kw["max_cache_size"] = 160 if tokens else 13000
        if tokens:
            kw["item_loader"] = TokensLoader(block_size=ds.BLOCK)
        return StreamingDataset("s3://bucket/data" if ("remote" in store) else data, shuffle=o["shuf"], seed=o["seed"],
                                subsample=o["num"] / o["den"], encryption=encryption, **kw)

    def contents(d):
        m = len(d)
        return [ds.dec_any(d[i]) for i in range(m)]

    tr, hs = [], []

    def observed(d, twin):
        return contents(copy.deepcopy(d) if twin and d.cache is None else d)

    def step(o):
        op = o["op"]
        if op == "open":
            d = new(o)
            items = observed(d, o["twin"])
            hs.append(d)
            tr.append({"ev": "open", "num": o["num"], "den": o["den"], "shuf": o["shuf"], "seed": o["seed"], "items": items, "len": len(d)})
            return
        h = (o["h"] - 1) % len(hs)
        d = hs[h]
        e = {"h": h + 1}
        if op == "split":
            e.update(fr=o["fr"], seed=o["seed"])
            try:
                parts = train_test_split(d, [a / b for a, b in o["fr"]], seed=o["seed"])
            except ValueError as ex:
                tr.append({"ev": "refused", **e, "what": str(ex)[:200]})
                return
            items = [observed(p, o["twin"]) for p in parts]
            hs.extend(parts)
            tr.append({"ev": "split", **e, "parts": items, "lens": [len(p) for p in parts]})
        elif op == "get":
            try:
                v = ds.dec_any(d[o["i"]])
            except Exception:  # noqa: BLE001
                v = -1
            tr.append({"ev": "get", **e, "i": o["i"], "v": v})
        elif op == "slice":
            p = [None if o[k] == NONE else o[k] for k in "abc"]
            tr.append({"ev": "slice", **e, "a": o["a"], "b": o["b"], "c": o["c"], "items": [ds.dec_any(x) for x in d[p[0]:p[1]:p[2]]]})
        elif op == "len":
            tr.append({"ev": "len", **e, "n": len(d)})
        elif op == "iter":
            out, full = [], True
            for x in d:
                if o["k"] != NONE and len(out) >= o["k"]:
                    full = False
                    break
                out.append(x)
            tr.append({"ev": "iter", **e, "items": [ds.dec_any(x) for x in out], "full": full})
        elif op == "streams":
            out, lens = [], []
            for r in range(o["r"]):
                with ds.ranks(o["r"], r):
                    from litdata.utilities.env import _DistributedEnv

                    def mine():
                        c = copy_of(d)
                        c.distributed_env = _DistributedEnv.detect()
                        c.set_drop_last(o["drop"])
                        c.set_batch_size(o["b"])
                        c.set_num_workers(o["w"])
                        c.set_epoch(1)
                        return c

                    lens.append(len(mine()))
                    for w in range(o["w"]):
                        c = mine()
                        with ds.worker(w, o["w"]):
                            out.append([ds.dec_any(x) for x in c])
            tr.append({"ev": "streams", **e, "r": o["r"], "w": o["w"], "b": o["b"], "drop": o["drop"], "out": out, "lens": lens})

    def copy_of(d):
        from litdata.utilities.train_test_split import deepcopy_dataset

        c = deepcopy_dataset(d)
        c.reset()
        return c

    for o in case["ops"]:
        try:
            step(o)
        except Exception as ex:  # noqa: BLE001
            import traceback

            tr.append({"ev": "error", "op": o, "what": f"{type(ex).__name__}: {ex}"[:300], "tb": traceback.format_exc()[-1200:]})
            break
    return tr


def check(chk, cfg, num, depth=40, label=None, more=()):
    os.environ["FORCE_DOWNLOAD_TIME"] = "1"
    ds.import_litdata()
    cases = list(more) + chk.generate("ViewGen", cfg, num * 2, depth)
    cases = cases[:num + len(more)]
    res = core.run_cases(run_case, cases, timeout=120)
    traces = []
    for c, r in zip(cases, res):
        if "ok" in r:
            tr = r["ok"]
        elif r.get("exc", {}).get("type") == "MachineryError":
            raise core.MachineryError(r["exc"]["msg"])
        else:
            tr = [{"ev": "error", "what": str(r)[:600]}]
        traces.append({"cfg": {"n": sum(c["base"]["sizes"]), "base": c["base"], "ops": c["ops"], "key": ""}, "trace": tr})
    chk.validate("ViewTrace", "ViewTrace.cfg", traces, label=label)
