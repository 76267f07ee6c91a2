"""Drives optimize / merge_datasets through histories (spec: Store)."""
import functools
import glob
import json
import os
import signal
import struct
import time

from vf import core, ds, fakes3

RUN_LIMIT = 40
EMPTY = 1  # this item is an empty string (where items are strings)


class Fn:
    """The user function of a run: maps an input to its items and records that it was called."""

    def __init__(self, r, log, ids, pads, kind, typ, fail, at, crash_group):
        self.r, self.log, self.ids, self.pads = r, log, ids, pads
        self.kind, self.typ, self.fail, self.at, self.crash_group = kind, typ, fail, at, crash_group

    def note(self, x):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{x}\n".encode())
        os.close(fd)
        if x == self.at:
            if self.fail == "raise":
                raise ValueError("planned failure")
            if self.fail == "exit":
                os._exit(3)
            if self.fail == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if self.fail == "crash":
                time.sleep(0.02 * (x % 3))
                os.killpg(os.getpgid(0), signal.SIGKILL)
                time.sleep(5)

    def item(self, x, k):
        i = self.ids[x - 1][k]
        if self.typ == "int":
            return i
        return "" if i == EMPTY else ds.enc(i, self.pads[x - 1])

    def number(self, inp):
        """Which input is this?  0 when it isn't any of the inputs of the run (any more)."""
        if self.kind == "files":
            if not isinstance(inp, tuple) or len(inp) != 2 or type(inp[1]) is not int:
                return 0
            with open(inp[0]) as f:
                x = int(f.read().split()[0])
            return x if x == inp[1] else 0
        return inp if type(inp) is int else 0


class PlainFn(Fn):
    def __call__(self, inp):
        x = self.number(inp)
        self.note(x)
        if x == 0 or not self.ids[x - 1]:
            return None
        return self.item(x, 0)


class GenFn(Fn):
    def __call__(self, inp):
        for one in inp if isinstance(inp, list) else [inp]:
            x = self.number(one)
            self.note(x)
            if x:
                for k in range(len(self.ids[x - 1])):
                    yield self.item(x, k)


def form_of(fn, k):
    """The same function in the forms a user may give it."""
    if isinstance(fn, GenFn):
        def plain(inp):
            yield from fn(inp)

        def more(f, inp):
            yield from f(inp)
    else:
        def plain(inp):
            return fn(inp)

        def more(f, inp):
            return f(inp)
    return [fn, plain, functools.partial(more, fn), fn.__call__, functools.partial(fn), functools.partial(fn.__call__)][k]


def url(path):
    """Directories of a history which is in the cloud are s3://bucket/<name>."""
    return "s3://bucket/" + os.path.basename(path)


def fmt_of(o):
    return f"{o['comp']}/{o['size']}/{o['bytes']}/{o['typ']}"


def optimize_once(o, ids, wd, outdir, log, r):
    """Runs in its own process group."""
    import litdata

    n = len(o["out"])
    kw = dict(num_workers=o["nw"], start_method="fork", num_uploaders=o["up"], num_downloaders=o["down"],
              reorder_files=o["reorder"])
    if o["size"]:
        kw["chunk_size"] = o["size"]
    else:
        kw["chunk_bytes"] = o["bytes"]
    if o["comp"] != "none":
        kw["compression"] = o["comp"]
    if o["mode"] != "none":
        kw["mode"] = o["mode"]
    if o["ckpt"]:
        kw["use_checkpoint"] = True
    if o["kind"] == "files":
        ind = os.path.join(wd, f"in{o.get('again') or r + 1}")
        os.makedirs(ind, exist_ok=True)
        inputs = []
        for x in range(1, n + 1):
            p = os.path.join(ind, f"f{x}.txt")
            with open(p, "w") as f:
                f.write(f"{x} " + "y" * (37 * (x * 7 % 5)))
            inputs.append((p, x))
        kw["input_dir"] = ind
    else:
        inputs = list(range(1, n + 1))
    if o["bs"] > 1:
        kw["batch_size"] = o["bs"]
    cls = GenFn if o["kind"] == "gen" else PlainFn
    fault = None
    if o["fail"].startswith(("copy", "down")):
        fault = faults(outdir, o.get("cloud"), o["fail"], o["at"], log + ".fault")
    if o.get("cloud"):
        fakes3.install(os.path.join(wd, "s3"), fault)
        outdir = url(outdir)
    fn = cls(r, log, ids, o["pads"], o["kind"], o["typ"], o["fail"], o["at"], None)
    litdata.optimize(form_of(fn, (sum(o["pads"]) + 3 * n + o["nw"]) % 6), inputs, output_dir=outdir, **kw)


def faults(outdir, cloud, kind, at, log):
    """The at-th file copied into outdir ("copy...") or into the input cache ("down...") is only half written when
    everything is killed ("...crash") or an error occurs ("...fail")."""
    import multiprocessing
    import shutil

    count = multiprocessing.get_context("fork").Value("i", 0)
    real = shutil.copyfile
    cache = os.environ["DATA_OPTIMIZER_DATA_CACHE_FOLDER"]

    def strike(src, dst):
        with count.get_lock():
            count.value += 1
            if count.value != at:
                return
        if src:
            with open(src, "rb") as f:
                data = f.read()
            with open(dst, "wb") as f:
                f.write(data[: len(data) // 2])
        if kind.endswith("crash"):
            os.killpg(os.getpgid(0), signal.SIGKILL)
            time.sleep(5)
        with open(log, "a") as f:
            f.write("0\n")
        raise OSError("planned copy failure")

    if cloud and not kind.startswith("down"):
        return lambda key: key.endswith("config.json") or strike(None, None)

    where = cache if kind.startswith("down") else outdir

    def copyfile(src, dst, **kw):
        if os.path.abspath(str(dst)).startswith(where):
            strike(src, dst)
        return real(src, dst, **kw)

    shutil.copyfile = copyfile
    return None


def in_group(fn, limit):
    """Run fn in a forked process group; returns 'ok' | 'fail' | 'crash' | 'hang' and the message."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(rfd)
        try:
            fn()
            msg = "ok"
        except BaseException as e:  # noqa: BLE001
            msg = "fail " + f"{type(e).__name__}: {e}"[-1500:]
        os.write(wfd, msg.encode()[:4000])
        os._exit(0)
    os.close(wfd)
    t0 = time.time()
    while True:
        done, _ = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if time.time() - t0 > limit:
            core._kill_group(pid)
            os.waitpid(pid, 0)
            os.close(rfd)
            return "hang", ""
        ds._real_sleep(0.005)
    core._kill_group(pid)
    os.set_blocking(rfd, False)
    try:
        msg = os.read(rfd, 5000).decode()
    except BlockingIOError:
        msg = ""
    os.close(rfd)
    if msg.startswith("ok"):
        return "ok", ""
    if msg.startswith("fail"):
        return "fail", msg[5:]
    return "crash", msg


def opened(path, cloud):
    """A reader of the dataset: in place, or through a fresh cache when it is in the cloud."""
    import tempfile

    import litdata

    if not cloud:
        return litdata.StreamingDataset(path)
    fakes3.install(os.path.dirname(os.path.dirname(path)))
    return litdata.StreamingDataset(url(path), cache_dir=tempfile.mkdtemp(prefix="cache-"))


def observe(tr, name, path, cloud=False):
    """What index.json, the chunk files and a reader say about a directory."""

    idx = os.path.join(path, "index.json")
    if not os.path.exists(idx):
        tr.append({"ev": "noindex", "dir": name})
        try:
            list(opened(path, cloud))
        except Exception:  # noqa: BLE001
            tr.append({"ev": "noread", "dir": name})
            return
        tr.append({"ev": "read", "dir": name, "items": []})
        return
    with open(idx) as f:
        index = json.load(f)
    chunks = []
    for c in index["chunks"]:
        p = os.path.join(path, c["filename"])
        there = os.path.exists(p)
        rec = {"name": c["filename"], "n": c["chunk_size"], "bytes": c["chunk_bytes"], "there": there, "hdr": 0, "raw": 0, "data": 0}
        if there:
            with open(p, "rb") as f:
                raw = f.read()
            if index["config"]["compression"]:
                import zstd

                raw = zstd.decompress(raw)
            rec["raw"] = len(raw)
            rec["hdr"] = struct.unpack("<I", raw[:4])[0]
            rec["data"] = len(raw) - 4 - 4 * (rec["hdr"] + 1)
        chunks.append(rec)
    tr.append({"ev": "index", "dir": name, "chunks": chunks})
    try:
        items = [(ds.dec(x) if x else EMPTY) if isinstance(x, str) else int(x) for x in opened(path, cloud)]
        tr.append({"ev": "read", "dir": name, "items": items})
    except Exception as ex:  # noqa: BLE001
        tr.append({"ev": "noread", "dir": name, "what": f"{type(ex).__name__}: {ex}"[:300]})


def run_history(case, wd):
    ds.import_litdata()
    import litdata

    tr = []
    cloud = any(o.get("cloud") for o in case["ops"])
    # one name is a prefix of another
    names = {"A": "data", "B": "data-v2", "C": "more.checkpoints", "D": "data-v2-bis"}
    root = os.path.join(wd, "s3", "bucket") if cloud else wd
    paths = {d: os.path.join(root, names[d]) for d in names}
    nid = 0
    typs = {}
    prev_ids = {}
    for r, o in enumerate(case["ops"]):
        try:
            if o["op"] == "merge":
                srcs = [url(paths[d]) if cloud else paths[d] for d in o["srcs"]]
                kinds = len({typs.get(d) for d in o["srcs"]})

                def do():
                    if cloud:
                        fakes3.install(os.path.join(wd, "s3"))
                    litdata.merge_datasets(srcs, url(paths[o["dir"]]) if cloud else paths[o["dir"]], max_workers=2)

                res, msg = in_group(do, RUN_LIMIT)
                if res == "hang":
                    tr.append({"ev": "hang"})
                    return tr
                tr.append({"ev": "merge", "srcs": o["srcs"], "dir": o["dir"], "ok": res == "ok", "kinds": kinds, "what": msg[-300:]})
                if res == "ok":
                    typs[o["dir"]] = typs.get(o["srcs"][0])
                observe(tr, o["dir"], paths[o["dir"]], cloud)
                continue
            if o.get("again"):
                ids = prev_ids[o["again"]]
            else:
                ids = []
                for k in o["out"]:
                    ids.append(list(range(nid, nid + k)))
                    nid += k
            prev_ids[r + 1] = ids
            ordered = not (o["kind"] == "files" and o["reorder"])
            log = os.path.join(wd, f"calls{r}")
            tr.append({"ev": "run", "dir": o["dir"], "mode": o["mode"], "out": ids, "ordered": ordered, "fmt": fmt_of(o),
                       "size": o["size"], "bytes": o["bytes"], "at": o["at"] if o["fail"] in ("raise", "exit", "kill", "crash") else 0, "ckpt": o["ckpt"], "args": json.dumps([ids, o["nw"], fmt_of(o), o["kind"]])})
            res, msg = in_group(lambda: optimize_once(o, ids, wd, paths[o["dir"]], log, r), case.get("limit", RUN_LIMIT))
            if os.path.exists(log):
                with open(log) as f:
                    tr += [{"ev": "call", "x": int(x)} for x in f.read().split()]
            if os.path.exists(log + ".fault"):
                tr.append({"ev": "fault"})
            tr.append({"ev": res, "what": msg[-400:]})
            if res == "hang":
                return tr
            if res == "ok" and o["mode"] != "append" or o["dir"] not in typs:
                typs[o["dir"]] = (o["typ"], o["comp"])
            observe(tr, o["dir"], paths[o["dir"]], cloud)
        except Exception as ex:  # noqa: BLE001
            import traceback
            tr.append({"ev": "error", "what": f"{type(ex).__name__}: {ex}"[:300], "tb": traceback.format_exc()[-1500:]})
            return tr
    for d in paths:
        observe(tr, d, paths[d], cloud)
    return tr


def cloudy(cases, share):
    """Every share-th history takes place in (fake) S3."""
    for i, c in enumerate(cases):
        if i % share == share - 1:
            c["ops"] = [{**o, "cloud": True} for o in c["ops"]]
    return cases


def run_op(**kw):
    o = {"op": "run", "dir": "A", "mode": "none", "out": [1] * 7, "kind": "plain", "reorder": True, "nw": 2, "size": 2, "bytes": 0,
         "comp": "none", "pads": [8, 24, 60, 8, 24, 60, 8, 24], "fail": "no", "at": 1, "up": 1, "down": 1, "ckpt": False, "bs": 1, "typ": "str"}
    return {**o, **kw}


def check(chk, module, cfg, num, depth, enforce, share=3, more=()):
    """more: histories (lists of operations) which once failed."""
    cases = [{"ops": x} for x in more] + cloudy([{"ops": x} for x in chk.generate(module, cfg, num, depth)], share)
    traces = record(chk, cases)
    chk.validate("StoreTrace", "StoreTrace.cfg", [{"cfg": mkcfg(enforce), "trace": t} for t in traces], extra=cases,
                 label=f"Store:{cfg}")


def mkcfg(enforce, key=""):
    return {"enforce": list(enforce), "dirs": ["A", "B", "C", "D"], "key": key}


def record(chk, cases, timeout=200):
    ds.import_litdata()
    out = []
    for r in core.run_cases(run_history, cases, timeout=timeout):
        if "ok" in r:
            out.append(r["ok"])
        elif r.get("exc", {}).get("type") == "MachineryError":
            raise core.MachineryError(r["exc"]["msg"])
        else:
            out.append([{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:500]}])
    return out
