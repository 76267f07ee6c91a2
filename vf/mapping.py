"""Drives litdata.map, and optimize over other sources than lists (spec: Map)."""
import functools
import json
import os
import signal

from vf import core, ds, fakes3, store

LIMIT = 40


def rel(c, x, k):
    """Where the k-th file of input x is written."""
    return [f"{x}_{k}.txt", f"d{x}/{k}", f"common/deep/{x}-{k}.json", f"run.checkpoints/state-{x}-{k}-0123456789.bin",
            f".hidden-{x}.{k}", f".d {x}/\u00e9 {k}%.chunk-0-{x}.bin"][c["style"][x - 1]]


def content(c, x, k):
    return (f"{x}.{k};" * 1000)[: c["sz"][x - 1]].encode()


class Fn:
    def __init__(self, c, log):
        self.c, self.log = c, log

    def number(self, inp):
        """Which input is this?  0 when it isn't any of the inputs of the run (any more)."""
        if self.c["kind"] in ("files", "shared"):
            if not isinstance(inp, tuple) or len(inp) != 2 or type(inp[1]) is not int:
                return 0
            with open(inp[0]) as f:
                x = int(f.read().split()[0])
            return inp[1] if x == file_of(self.c, inp[1]) else 0
        return inp if type(inp) is int else 0

    def run(self, inp, output_dir, last):
        c = self.c
        xs = [self.number(one) for one in (inp if isinstance(inp, list) else [inp])]
        for x in xs:
            for k in range(1, c["out"][x - 1] + 1) if x else ():
                p = os.path.join(output_dir, rel(c, x, k))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(content(c, x, k))
        note(self.log, {"ev": "call", "xs": xs, "w": os.environ.get("DATA_OPTIMIZER_GLOBAL_RANK", "?"), "last": last})
        if c["at"] in xs:
            if c["fail"] == "raise":
                raise ValueError("planned failure")
            if c["fail"] == "exit":
                os._exit(3)
            if c["fail"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
        return None


class Plain(Fn):
    def __call__(self, inp, output_dir):
        return self.run(inp, output_dir, False)


class Last(Fn):
    def __call__(self, inp, output_dir, is_last):
        return self.run(inp, output_dir, is_last)


def note(log, e):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(e) + "\n").encode())
    os.close(fd)


def function(c, log):
    if c["form"] in ("object", "method", "partialobject"):
        f = (Last if c["last"] else Plain)(c, log)
        return f.__call__ if c["form"] == "method" else functools.partial(f) if c["form"] == "partialobject" else f
    f = Fn(c, log)
    if c["last"]:
        def fn(inp, output_dir, is_last):
            return f.run(inp, output_dir, is_last)

        def gn(f, inp, output_dir, is_last):
            return f.run(inp, output_dir, is_last)
    else:
        def fn(inp, output_dir):
            return f.run(inp, output_dir, False)

        def gn(f, inp, output_dir):
            return f.run(inp, output_dir, False)
    return functools.partial(gn, f) if c["form"] == "partial" else fn


def file_of(c, x):
    return (x + 1) // 2 if c["kind"] == "shared" else x


def in_file(c, k, wd):
    f = f"sub{k % 2}/f{k}.txt"
    if c["where"] == "relative":
        return os.path.join("in", f)
    return os.path.join(wd, "elsewhere" if c["where"] == "outside" and k % 2 else "in", f)


def in_files(c, wd):
    files = {}
    for k in {file_of(c, x) for x in range(1, len(c["out"]) + 1)}:
        files[os.path.join(wd, in_file(c, k, wd))] = f"{k} " + "y" * (37 * (k * 7 % 5))
    return files


def do_map(c, wd, outdir, log):
    import litdata

    os.chdir(wd)
    n = len(c["out"])
    kw = dict(num_workers=c["nw"], start_method="fork", num_uploaders=c["up"], num_downloaders=c["down"], reorder_files=c["reorder"])
    inputs = list(range(1, n + 1))
    if c["kind"] in ("files", "shared"):
        ind = "in" if c["where"] == "relative" else os.path.join(wd, "in")
        inputs = []
        for x in range(1, n + 1):
            inputs.append((in_file(c, file_of(c, x), wd), x))
        kw["input_dir"] = ind
    if c["kind"] == "weights":
        kw["weights"] = c["wt"]
    if c["bs"] > 1:
        kw["batch_size"] = c["bs"]
    if c["empty"]:
        kw["error_when_not_empty"] = True
    fault = None
    if c["fail"] in ("copyfail", "downfail"):
        fault = store.faults(outdir, c["cloud"], c["fail"], c["at"], log + ".fault")
    if c["cloud"]:
        fakes3.install(os.path.join(wd, "s3"), fault)
        outdir = store.url(outdir)
    litdata.map(function(c, log), inputs, output_dir=outdir, **kw)


def listing(c, outdir):
    names = {rel(c, x, k): (10 * x + k, content(c, x, k)) for x in range(1, len(c["out"]) + 1) for k in range(1, c["out"][x - 1] + 1)}
    names.update({old(k): (-k, b"old" * k) for k in range(1, c["old"] + 1)})
    files = []
    for d, _, fs in os.walk(outdir):
        for f in fs:
            if f.endswith((".tmp", ".part~")):
                continue  # unfinished copies of a failed run
            p = os.path.join(d, f)
            i, data = names.get(os.path.relpath(p, outdir), (0, None))
            with open(p, "rb") as fp:
                files.append({"id": i, "good": fp.read() == data})
    return {"ev": "dir", "files": files}


def old(k):
    return ["old.txt", "d1/old.txt"][k - 1]


def run_map(c, wd):
    ds.import_litdata()
    outdir = os.path.join(wd, "s3", "bucket", c["name"]) if c["cloud"] else os.path.join(wd, c["name"])
    for k in range(1, c["old"] + 1):
        p = os.path.join(outdir, old(k))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b"old" * k)
    files = in_files(c, wd) if c["kind"] in ("files", "shared") else {}
    for p, text in files.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    log = os.path.join(wd, "calls")
    res, msg = store.in_group(lambda: do_map(c, wd, outdir, log), LIMIT)
    tr = []
    if os.path.exists(log):
        with open(log) as f:
            tr += [json.loads(x) for x in f]
    if os.path.exists(log + ".fault"):
        tr.append({"ev": "fault"})
    tr.append({"ev": res, "what": msg[-600:]})
    tr.append(listing(c, outdir))
    tr.append({"ev": "inputs", "same": all(os.path.exists(p) and open(p).read() == text for p, text in files.items())})
    return tr


def mkcfg(c):
    return {"n": len(c["out"]), "out": c["out"], "old": c["old"], "refuse": c["empty"] and c["old"] > 0, "at": c["at"], "fail": c["fail"],
            "B": c["bs"], "ordered": False, "lastflag": c["last"], "key": c.get("key", "")}


def record(chk, cases, run=run_map, cfg=mkcfg, timeout=100):
    ds.import_litdata()
    out = []
    for c, r in zip(cases, core.run_cases(run, cases, timeout=timeout)):
        if r.get("exc", {}).get("type") == "MachineryError":
            raise core.MachineryError(r["exc"]["msg"])
        tr = r["ok"] if "ok" in r else [{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:800]}]
        out.append({"cfg": cfg(c), "trace": tr})
    return out


# ---- other sources of inputs: a streaming dataloader, Parquet files
class FromSource(Fn):
    """The inputs are batches of a loader or Parquet files; each item i is stored as the number i."""

    def items(self, inp):
        if self.c["src"] == "parquet":
            return [int(x) + 1 for x in inp.read()["i"].to_pylist()]
        return [(ds.dec_any(x) + 1) for x in inp]

    def write(self, xs, output_dir):
        for x in xs:
            with open(os.path.join(output_dir, f"{x}_1.txt"), "w") as f:
                f.write("x" * x)

    def called(self, xs):
        note(self.log, {"ev": "call", "xs": xs, "w": os.environ.get("DATA_OPTIMIZER_GLOBAL_RANK", "?"), "last": False})
        if self.c["fail"] == "raise" and self.c["at"] in xs:
            raise ValueError("planned failure")


class MapSource(FromSource):
    def __call__(self, inp, output_dir):
        xs = self.items(inp)
        self.write(xs, output_dir)
        self.called(xs)


class OptimizeSource(FromSource):
    def __call__(self, inp):
        xs = self.items(inp)
        self.called(xs)
        yield from xs


def do_source(c, wd, outdir, log, run):
    import litdata
    from litdata import StreamingDataLoader, StreamingDataset
    from litdata.processing.readers import ParquetReader
    from litdata.streaming.resolver import Dir

    kw = dict(num_workers=c["nw"], start_method="fork", num_uploaders=c["up"])
    if c["src"] == "loader":
        src, cache = os.path.join(wd, "src"), os.path.join(wd, "cache")
        comp = "zstd" if c["store"] == "zstd" else None
        if ds.make_dataset(src, c["sizes"], compression=comp, budget=1200) != c["sizes"]:
            raise core.MachineryError("chunk sizes")
        where = {"path": src} if c["store"] == "local" else {"path": cache, "url": "local:" + src}
        os.makedirs(cache, exist_ok=True)
        d = StreamingDataset(Dir(**where), shuffle=c["shuffle"], seed=c["seed"])
        inputs = StreamingDataLoader(d, batch_size=c["B"], num_workers=c["W"])
    else:
        inputs = write_parquet(c, wd, run)
        kw["reader"] = ParquetReader(os.path.join(wd, "cache"), num_rows=c["rows"], to_pandas=False)
    if c["cloud"]:
        fakes3.install(os.path.join(wd, "s3"))
        outdir = store.url(outdir)
    if c["api"] == "map":
        litdata.map(MapSource(c, log), inputs, output_dir=outdir, **kw)
    else:
        litdata.optimize(OptimizeSource(c, log), inputs, output_dir=outdir, chunk_size=c["size"], **kw)


def write_parquet(c, wd, run):
    """The files of a run: another run gets as many rows in files of the same names, but not the same rows."""
    import pyarrow as pa
    import pyarrow.parquet as pq

    files, i = [], 0
    n = sum(c["sizes"])
    for k, rows in enumerate(c["sizes"]):
        name = f"d{k}/part.parquet" if c["names"] == "same" else f"d/part-{k}.parquet"
        p = os.path.join(wd, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        ids = list(range(i, i + rows))
        pq.write_table(pa.table({"i": pa.array(ids if run == 1 else [n - 1 - x for x in ids], type=pa.int64())}), p)
        files.append(p)
        i += rows
    return files


def run_source(c, wd):
    ds.import_litdata()
    out = []
    for run in range(1, c["runs"] + 1):
        out = one_source(c, wd, run)
    return out


def one_source(c, wd, run):
    import shutil

    outdir = os.path.join(wd, "s3", "bucket", "out") if c["cloud"] else os.path.join(wd, "out")
    shutil.rmtree(outdir, ignore_errors=True)
    log = os.path.join(wd, f"calls{run}")
    res, msg = store.in_group(lambda: do_source(c, wd, outdir, log, run), LIMIT)
    tr = []
    if os.path.exists(log):
        with open(log) as f:
            tr += [json.loads(x) for x in f]
    tr.append({"ev": res, "what": msg[-600:]})
    if c["api"] == "map":
        files = []
        for d, _, fs in os.walk(outdir):
            for f in fs:
                if not f.endswith((".tmp", ".part~")):
                    x = int(f.split("_")[0])
                    with open(os.path.join(d, f)) as fp:
                        files.append({"id": 10 * x + 1, "good": fp.read() == "x" * x})
        tr.append({"ev": "dir", "files": files})
    elif res == "ok":
        tr.append({"ev": "read", "items": [int(x) for x in store.opened(outdir, c["cloud"])]})
    return tr


def source_cfg(c):
    n = sum(c["sizes"])
    ordered = c["runs"] == 1 and (c["src"] == "parquet" or c["W"] < 2 and not c["shuffle"])
    return {"n": n, "out": [1 if c["api"] == "map" else 0] * n, "old": 0, "refuse": False, "at": c["at"], "fail": c["fail"],
            "B": c["B"] if c["src"] == "loader" else c["rows"], "ordered": ordered, "lastflag": False, "key": c.get("key", "")}
