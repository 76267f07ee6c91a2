"""Reads datasets written by other tools: Parquet files and MosaicML shards (spec: Foreign)."""
import datetime
import decimal
import fnmatch
import hashlib
import os
import random
from fractions import Fraction

from vf import core, ds, fakes3

DIRS = ["data", "data.zstd", "my data", "a.parquet.d"]
PAT = ["*.parquet", "*[0-9b]*.parquet", "?.parquet", "part-0*.parquet"]


def canon(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}={canon(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(canon, x)) + "]"
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, int):
        return f"i{x}"
    if isinstance(x, float):
        return "f" + (str(Fraction(x)) if abs(x) < 1e300 else str(x))
    if isinstance(x, str):
        return "s" + hashlib.sha1(x.encode()).hexdigest()[:10]
    if isinstance(x, (bytes, bytearray)):
        return "b" + hashlib.sha1(bytes(x)).hexdigest()[:10]
    if isinstance(x, decimal.Decimal):
        return f"d{Fraction(x)}"
    if isinstance(x, datetime.date):
        return f"{type(x).__name__}{x}"
    if hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        return canon(x.item())
    if hasattr(x, "getpalette"):
        return f"pil{x.mode}{x.size}" + hashlib.sha1(x.tobytes()).hexdigest()[:10]
    return f"{type(x).__name__}{tuple(x.shape)}{x.dtype}" + hashlib.sha1(x.contiguous().numpy().tobytes()).hexdigest()[:10]


def row(conf, i, wd):
    """What is written for row i and what has to be read."""
    import numpy as np

    r = random.Random(i)
    w, e = {"id": i}, {"id": i}
    for k, c in enumerate(conf["cols"]):
        name = f"{'zyx'[k]}_{c}"
        if c in ("pil", "jpeg"):
            from PIL import Image

            x = Image.fromarray(np.random.RandomState(i).randint(0, 255, (4 + i % 3, 5, 3), dtype=np.uint8))
            if c == "jpeg":
                import io

                import torch
                from torchvision.io import decode_jpeg

                f = io.BytesIO()
                x.save(f, "JPEG")
                p = os.path.join(wd, f"{i}-{k}.jpg")  # stored as it is in its file
                with open(p, "wb") as g:
                    g.write(f.getvalue())
                x = Image.open(p)
                w[name], e[name] = x, decode_jpeg(torch.frombuffer(bytearray(f.getvalue()), dtype=torch.uint8))
            else:
                w[name] = e[name] = x
            continue
        v = {"int": lambda: r.choice([0, -1, 2**62, -(2**63), r.randint(-999, 999)]), "float": lambda: r.choice([0.0, 1.5, -1e200, r.random()]),
             "str": lambda: "" if i % 7 == 0 else "\u00e9" * (i % 4) + "x" * r.randint(1, 90), "bytes": lambda: bytes(range(r.randint(0, 80))),
             "bool": lambda: i % 2 == 0, "list": lambda: list(range(i % 4)), "struct": lambda: {"a": i, "b": f"s{i}"},
             "time": lambda: datetime.datetime(2020, 1, 1, 0, 0, i % 60, i), "date": lambda: datetime.date(2020, 1, 1 + i % 28),
             "u64": lambda: 2**64 - 1 - i, "i8": lambda: i % 128 - 64, "f32": lambda: i + 0.5, "cat": lambda: f"c{i % 3}",
             "dec": lambda: decimal.Decimal(i) / 100}[c]()
        if conf["kind"] == "parquet" and i % 5 == 3:
            v = None
        w[name] = e[name] = v
    return w, canon(e)


def write_parquet(d, conf, files, rows):
    import pyarrow as pa
    import pyarrow.parquet as pq

    T = {"int": pa.int64(), "float": pa.float64(), "str": pa.string(), "bytes": pa.binary(), "bool": pa.bool_(), "list": pa.list_(pa.int64()),
         "struct": pa.struct([("a", pa.int64()), ("b", pa.string())]), "time": pa.timestamp("us"), "date": pa.date32(), "u64": pa.uint64(),
         "i8": pa.int8(), "f32": pa.float32(), "cat": pa.dictionary(pa.int32(), pa.string()), "dec": pa.decimal128(12, 2)}
    schema = pa.schema([("id", pa.int64())] + [(f"{'zyx'[k]}_{c}", T[c]) for k, c in enumerate(conf["cols"])])
    rows = iter(rows)
    for name, groups in files:
        with pq.ParquetWriter(os.path.join(d, name), schema, compression="zstd" if conf["comp"] != "none" else "snappy") as w:
            for g in groups:
                q = [next(rows) for _ in range(g)]
                w.write_table(pa.table({f.name: pa.array([x[f.name] for x in q], f.type) for f in schema}, schema=schema), row_group_size=max(g, 1))


def write_mds(d, conf, rows):
    from streaming import MDSWriter

    cols = {"id": "int", **{f"{'zyx'[k]}_{c}": c for k, c in enumerate(conf["cols"])}}
    comp = None if conf["comp"] == "none" else conf["comp"]
    with MDSWriter(out=d, columns=cols, compression=comp, size_limit=[500, 1200, 1 << 20][conf["limit"] - 1]) as w:
        for x in rows:
            w.write(x)


def shuffled_listdir(seed):
    """os.listdir gives the entries in any order."""
    real = os.listdir

    def f(*a):
        q = sorted(real(*a))
        random.Random(seed).shuffle(q)
        return q

    os.listdir = f
    return real


def run_case(case, wd):
    ld = ds.import_litdata()
    import torch

    torch.utils.data._utils.pin_memory = None
    from litdata.streaming.item_loader import ParquetLoader
    from litdata.streaming.resolver import Dir

    conf, ops = case["conf"], case["ops"]
    if conf["kind"] == "parquet" and conf["workers"]:
        # Polars doesn't work in forked processes once it was used in their parent
        ops = [{"op": "loader"}] * min(3, len(ops))
    mds = conf["kind"] == "mds"
    base = os.path.join(wd, DIRS[conf["dirname"]])
    os.makedirs(base)
    src = base if mds else os.path.join(base, "pq")
    names = [f"part-{k:05d}.parquet" for k in range(4)]
    if conf["names"] == 2:
        names = ["a.parquet", "b-x.parquet", "b.parquet", "c.parquet"]
    if conf["names"] == 3:
        names = sorted(f"{k}.parquet" for k in (2, 9, 10, 11))
    files = [(n, g) for n, g in zip(names, case["files"])]
    total = sum(sum(g) for _, g in files)
    if total == 0:
        files[0][1].append(2)
        total = 2
    made = [row(conf, i, wd) for i in range(total)]
    rows = [e for _, e in made]
    pattern = None
    if mds:
        write_mds(src, conf, [w for w, _ in made])
    else:
        os.makedirs(src)
        write_parquet(src, conf, files, [w for w, _ in made])
        if conf["via"] == "wildcard":
            pattern = PAT[conf["limit"] % 4]
            shown, at = [], 0
            for n, g in files:
                if fnmatch.fnmatch(n, pattern):
                    shown += rows[at:at + sum(g)]
                at += sum(g)
            if shown:
                rows = shown
            else:
                pattern = "*.parquet"
    n = len(rows)
    sub = conf["sub"] and n >= 2
    cfg = {"rows": rows, "n": n // 2 if sub else n, "exact": not sub}
    tr = []
    kw = {"shuffle": conf["shuffle"], "subsample": 0.5 if sub else 1.0, "drop_last": False}
    url = src
    if not mds:
        kw["item_loader"] = ParquetLoader(pre_load_chunk=conf["pre"], low_memory=conf["low"])
    cache = os.path.join(wd, "cache")
    real = shuffled_listdir(len(rows))
    try:
        if not mds:
            ld.index_parquet_dataset(src)
        if conf["via"] in ("remote", "small"):
            url = Dir(cache, "local:" + src)
            os.makedirs(cache)
        if conf["via"] == "small":
            kw["max_cache_size"] = 2500
        if conf["via"] == "index":
            url = Dir(cache, "local:" + src)
            os.makedirs(cache)
            ix = os.path.join(wd, "ix")
            os.makedirs(ix)
            os.rename(os.path.join(src, "index.json"), os.path.join(ix, "index.json"))
            kw["index_path"] = ix
        if pattern:
            url = os.path.join(src, pattern)
        d = ld.StreamingDataset(url, **kw)
        tr.append({"ev": "length", "n": len(d)})
        for o in ops:
            if o["op"] == "get":
                i = o["i"] % cfg["n"]
                tr.append({"ev": "got", "i": i, "c": canon(d[i])})
            elif o["op"] == "pass":
                tr.append({"ev": "pass", "cs": [canon(x) for x in d], "order": not conf["shuffle"]})
            elif o["op"] == "pickle":
                import pickle

                d = pickle.loads(pickle.dumps(d))
            elif o["op"] == "split":
                parts = ld.train_test_split(d, [0.5, 0.5])
                tr.append({"ev": "split", "parts": [[canon(x) for x in p] for p in parts]})
            else:
                dl = ld.StreamingDataLoader(d, batch_size=conf["bs"], num_workers=conf["workers"], collate_fn=lambda b: [canon(x) for x in b])
                tr.append({"ev": "pass", "cs": [c for b in dl for c in b], "order": not conf["shuffle"] and conf["workers"] == 0})
    except Exception as e:  # noqa: BLE001
        import traceback

        tr.append({"ev": "unread", "note": f"{type(e).__name__}: {e}"[:200] + traceback.format_exc()[-700:]})
    finally:
        os.listdir = real
    return {"trace": tr, "cfg": cfg}


def record(chk, cases):
    ds.import_litdata()
    import pyarrow.parquet  # noqa: F401
    import polars  # noqa: F401

    try:
        import streaming  # noqa: F401
    except ImportError:
        cases[:] = [c for c in cases if c["conf"]["kind"] != "mds"]
    out = []
    for c, r in zip(cases, core.run_cases(run_case, cases, timeout=40)):
        if "ok" in r:
            out.append(r["ok"])
        else:
            if "MachineryError" in str(r):
                raise core.MachineryError(str(r))
            out.append({"trace": [{"ev": "error", "what": str(r)[:1500]}], "cfg": {"rows": [], "n": 0, "exact": True}})
    return out
