"""Writes remote datasets again and again, and reads them through caches (spec: Remote)."""
import json
import os
import random
import shutil
import signal
import time

from vf import core, ds, fakes3

URLS = {"apart": ["alpha", "beta", "gamma"], "prefix": ["data", "data/sub", "data2"], "base": ["x/data", "y/data", "data"]}


def place(c, wd, u):
    """(directory, url) of source u"""
    name = URLS[c["names"]][u - 1]
    d = os.path.join(wd, "s3", "bucket", name)
    return d, ("s3://bucket/" + name if c["store"][u - 1] == "s3" else "local:" + d)


def write(c, wd, u, ids, per):
    import litdata

    kind = c["kind"][u - 1]
    d, _ = place(c, wd, u)
    tmp = os.path.join(wd, "new")
    os.makedirs(tmp)
    sizes = [per] * (len(ids) // per) + ([len(ids) % per] if len(ids) % per else [])
    if kind in ("optimize", "zstd"):
        ds.make_dataset(tmp, sizes, start=ids[0], compression="zstd" if kind == "zstd" else None)
    elif kind == "merge":
        h = (len(ids) + 1) // 2
        for k, part in enumerate((ids[:h], ids[h:])):
            ds.make_dataset(os.path.join(wd, f"part{k}"), [len(part)], start=part[0])
        litdata.merge_datasets([os.path.join(wd, "part0"), os.path.join(wd, "part1")], tmp)
        shutil.rmtree(os.path.join(wd, "part0"))
        shutil.rmtree(os.path.join(wd, "part1"))
    elif kind == "parquet":
        import pyarrow as pa
        import pyarrow.parquet as pq

        for k in range(len(sizes)):
            part = ids[per * k: per * (k + 1)]
            pq.write_table(pa.table({"id": part, "s": [f"{i}|" for i in part]}), os.path.join(tmp, f"{k}.parquet"))
        litdata.index_parquet_dataset(tmp)
    else:
        from streaming import MDSWriter

        with MDSWriter(out=tmp, columns={"id": "int", "s": "str"}, size_limit=60 * per) as w:
            for i in ids:
                w.write({"id": i, "s": "x" * (ids[0] // 100)})
    # files only: a source may lie inside of another one
    for f in os.listdir(d) if os.path.isdir(d) else ():
        if os.path.isfile(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(tmp):
        os.rename(os.path.join(tmp, f), os.path.join(d, f))
    shutil.rmtree(tmp)


def value(x):
    return int(x["id"]) if isinstance(x, dict) else int(x[0]) if isinstance(x, (tuple, list)) else ds.dec(x)


def caches(wd):
    return [os.path.join(wd, "home"), os.path.join(wd, "cache")]


def use(c, wd, o, die, rng):
    """Open a source and read it; returns the events."""
    import litdata
    from litdata.streaming.item_loader import ParquetLoader
    from litdata.utilities import dataset_utilities as du

    u = o["u"]
    pause = core_pause(rng, c["lag"])
    for mod, name in ((os, "makedirs"), (shutil, "rmtree"), (du, "_read_updated_at")):
        setattr(mod, name, slowed(getattr(mod, name), pause))
    kw = {"item_loader": ParquetLoader()} if c["kind"][u - 1] == "parquet" else {}
    if o["k"]:
        kw["cache_dir"] = caches(wd)[1]
    d = litdata.StreamingDataset(place(c, wd, u)[1], **kw)
    how = "all" if die else o["how"]
    tr = [{"ev": "size", "u": u, "n": len(d)}]
    if how == "all":
        items = []
        for x in d:
            items.append(value(x))
            if die and len(items) == 2:
                os.kill(os.getpid(), signal.SIGKILL)
    elif how == "byindex":
        items = [value(d[i]) for i in range(len(d))]
    elif how == "slice":
        items = [value(x) for x in d[0: len(d)]]
    else:
        items = sorted(value(x) for b in litdata.StreamingDataLoader(d, batch_size=2, num_workers=2, collate_fn=list) for x in b)
    return [*tr, {"ev": "read", "u": u, "items": items}]


def core_pause(rng, lag):
    def pause():
        if lag and rng.random() < 0.7:
            ds._real_sleep(rng.random() * lag / 1000)
    return pause


def slowed(f, pause):
    def g(*a, **kw):
        pause()
        r = f(*a, **kw)
        pause()
        return r
    return g


def child(fn, out):
    pid = os.fork()
    if pid == 0:
        try:
            try:
                tr = fn()
            except Exception as ex:  # noqa: BLE001
                tr = [{"ev": "error", "what": f"{type(ex).__name__}: {ex}"[:400]}]
            with open(out, "w") as f:
                json.dump(tr, f)
        finally:
            os._exit(0)
    return pid


def versions(c, wd):
    """How many versions of each source the caches hold (each in a directory of its own)."""
    tr = []
    for root in caches(wd):
        for d in sorted(os.listdir(root)) if os.path.isdir(root) else ():
            tr.append({"ev": "kept", "u": 0, "n": len(os.listdir(os.path.join(root, d)))})
    return tr


def damage(wd, n):
    """Somebody cleans up half of a cache."""
    files = sorted(os.path.join(d, f) for root in caches(wd) for d, _, fs in os.walk(root) for f in fs)
    for p in files[n % 2:: 2]:
        os.remove(p)


def run_case(c, wd):
    ds.import_litdata()
    from litdata.utilities import dataset_utilities as du

    du._DEFAULT_CACHE_DIR = caches(wd)[0]
    fakes3.install(os.path.join(wd, "s3"))
    tr, base, written = [], 100, set()
    for n, o in enumerate(c["ops"]):
        if o["op"] == "write":
            ids = list(range(base, base + o["n"]))
            base += 100
            write(c, wd, o["u"], ids, o["k"])
            written.add(o["u"])
            tr.append({"ev": "write", "u": o["u"], "items": ids})
            continue
        if o["op"] == "damage":
            damage(wd, n)
        outs = [os.path.join(wd, f"out{n}.{k}") for k in range(3 if o["op"] in ("both", "mix") else 1)]
        us = sorted(written) if o["op"] == "mix" else [o["u"]]
        pids = [child(lambda k=k: use(c, wd, {**o, "u": us[k % len(us)]}, o["op"] == "kill", random.Random(f"{n}/{k}/{c['lag']}")), p) for k, p in enumerate(outs)]
        for pid in pids:
            os.waitpid(pid, 0)
        for p in outs:
            if os.path.exists(p):
                with open(p) as f:
                    tr += json.load(f)
            elif o["op"] != "kill":
                tr.append({"ev": "error", "what": "died"})
        tr += versions(c, wd)
    return tr


def record(chk, cases):
    # writes and reads follow each other as fast as on a fast machine: litdata sees a slow clock
    real, t0 = time.time, time.time()
    time.time = lambda: t0 + (real() - t0) / 200
    try:
        ds.import_litdata()
        import litdata.streaming.writer  # noqa: F401
        import litdata.utilities.parquet  # noqa: F401
    finally:
        time.time = real
    out = []
    for c, r in zip(cases, core.run_cases(run_case, cases, timeout=90)):
        tr = r["ok"] if "ok" in r else [{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:800]}]
        out.append({"cfg": {"n": len(c["kind"]), "key": ""}, "trace": tr})
    return out
