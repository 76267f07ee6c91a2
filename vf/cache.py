"""Reads remote datasets through a small cache, with slow downloads and delays around file operations (spec: Cache)."""
import builtins
import gc
import hashlib
import json
import os
import random
import re
import shutil
import threading
import time
import traceback

from vf import core, ds, fakes3

STALL = 5000  # ms; the delays below add up to far less for one item
CHUNK = re.compile(r"^chunk-.*\.bin$")
BUDGET = 1200


def mkcfg(case, K, fits):
    conf, ops = case["conf"], case["ops"]
    return {"enforce": case["enforce"], "key": case.get("key", ""), "N": sum(conf["sizes"]), "K": K, "R": conf["R"], "W": max(1, conf["W"]),
            "pre": conf["pre"], "fits": fits, "stall": STALL,
            "clean": all(o["op"] == "full" for o in ops) and conf["litter"] == "none"}


def _digest(root):
    h = hashlib.sha1()
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as fp:
                h.update(fp.read())
    return h.hexdigest()


def jitter(cache, ms):
    """Random delays before file operations on chunks of the cache: other interleavings of threads and processes."""
    rng = {}

    def pause(p):
        if isinstance(p, str) and p.startswith(cache) and "chunk-" in p:
            r = rng.get(os.getpid()) or rng.setdefault(os.getpid(), random.Random(os.urandom(8)))
            x = r.random()
            if x < 0.3:
                time.sleep(ms / 1000 * x / 0.3)

    def wrap(f):
        def g(p, *a, **k):
            pause(p)
            try:
                return f(p, *a, **k)
            finally:
                pause(p)
        return g

    os.remove, os.rename, os.path.exists, os.path.isfile = wrap(os.remove), wrap(os.rename), wrap(os.path.exists), wrap(os.path.isfile)
    builtins.open = wrap(builtins.open)


def slow_downloader(log, ms):
    from litdata.streaming import downloader as dl

    class Slow(dl.LocalDownloader):
        def download_file(self, remote, local):
            if not remote.endswith("index.json"):
                r = random.Random(os.urandom(8))
                if ms:
                    time.sleep(ms / 1000 * r.choice([0, 0, 0.5, 1, 2]))
                if not os.path.exists(local):
                    with open(log, "a") as f:
                        f.write(os.path.basename(local) + "\n")
            super().download_file(remote.replace("slow:", "", 1), local)

    dl._DOWNLOADERS["slow:"] = Slow


def _value(i, n):
    return ds.enc(i, n)


def decode(x, sizes):
    """The number of an item, -1 if it isn't exactly what was written."""
    if isinstance(x, str):
        try:
            i = ds.dec(x)
        except ValueError:
            return -1
        return i if x == _value(i, len(x)) and len(x) >= 200 else -1
    v = ds.dec_any(x)
    return v if v >= 0 else -1


def _state(cache):
    files = [f for d, _, fs in os.walk(cache) for f in fs if f.startswith("chunk-") and not f.endswith(".lock")]
    cnt = [f for f in files if f.endswith(".cnt")]
    left = [f for f in files if CHUNK.match(f) and not f.endswith(".zstd.bin")]
    return len(left), len(cnt), len(files) - len(cnt) - len(left)


def litter(kind, cache, src, chunks):
    """What readers which were killed may have left in the cache."""
    os.makedirs(cache, exist_ok=True)
    for k, c in enumerate(chunks):
        p = os.path.join(cache, c)
        with open(os.path.join(src, c), "rb") as f:
            data = f.read()
        if kind == "tmp" and k % 2 == 0:
            with open(p + ".tmp", "wb") as f:
                f.write(data[: len(data) // 2])
        if kind == "locks":
            open(p + ".lock", "w").close()
            open(p.replace(".zstd", "") + ".cnt.lock", "w").close()
        if kind == "counts" and k % 3 == 0:
            with open(p.replace(".zstd", "") + ".cnt", "w") as f:
                f.write("1" if k % 2 else "")


def run_case(case, wd):
    ds.import_litdata(fast_sleep=False)
    from litdata import StreamingDataLoader, StreamingDataset
    from litdata.streaming.item_loader import TokensLoader
    from litdata.streaming.resolver import Dir

    conf, ops = case["conf"], case["ops"]
    sizes, N, R = conf["sizes"], sum(conf["sizes"]), conf["R"]
    src = os.path.join(wd, "s3", "bucket", "data")
    cache = os.path.join(wd, "cache")
    log = os.path.join(wd, "downloads")
    open(log, "w").close()
    comp = "zstd" if conf["kind"] == "zstd" else None
    if conf["kind"] == "tokens":
        ds.make_tokens(src, sizes)
    elif ds.make_dataset(src, sizes, compression=comp, budget=BUDGET) != sizes:
        raise core.MachineryError("chunk sizes")
    with open(os.path.join(src, "index.json")) as f:
        chunks = json.load(f)["chunks"]
    total = sum(c["chunk_bytes"] for c in chunks)
    limit = {"tiny": 1, "half": total // 2, "most": 2 * total // 3, "twice": 2 * total, "none": 0}[conf["max"]]
    url = {"slow": "slow:" + src, "local": "local:" + src, "s3": "s3://bucket/data"}[conf["via"]]
    slow_downloader(log, conf["slow"])
    fakes3.install(os.path.join(wd, "s3"))
    before = _digest(src)
    os.makedirs(cache)
    if conf["litter"] != "none":
        litter(conf["litter"], cache, src, [c["filename"] for c in chunks])
    waits = os.path.join(wd, "waits")

    class Timed(StreamingDataset):
        def _timed(self, f, *a):
            t = time.time()
            try:
                return f(*a)
            finally:
                if time.time() - t > 0.5:
                    with open(waits, "a") as fp:
                        fp.write(f"{int((time.time() - t) * 1000)}\n")

        def __next__(self):
            x = self._timed(super().__next__)
            if conf["pace"]:
                i = self.worker_env.rank if conf["W"] else self.distributed_env.global_rank
                time.sleep(0.06 * ((i + conf["pace"]) % 2))
            return x

        def __getitem__(self, i):
            return self._timed(super().__getitem__, i)

    def dataset():
        kw = {"item_loader": TokensLoader(block_size=ds.BLOCK)} if conf["kind"] == "tokens" else {}
        return Timed(Dir(cache, url), shuffle=conf["shuffle"], seed=conf["seed"], drop_last=False, max_cache_size=limit,
                     max_pre_download=conf["pre"], **kw)

    def wait():
        w = 0
        if os.path.exists(waits):
            with open(waits) as f:
                w = max([int(x) for x in f.read().split()] or [0])
            os.remove(waits)
        return w

    peak = [0]
    stop = []

    def poll():
        while not stop:
            try:
                n = sum(1 for e in os.scandir(cache) if CHUNK.match(e.name) and not e.name.endswith(".zstd.bin"))
            except OSError:
                n = 0
            peak[0] = max(peak[0], n)
            time.sleep(0.003)

    def reader(rank, todo, answer):
        """One rank: all of its epochs, in step with the other ranks."""
        with ds.ranks(R, rank):
            d = dataset()
            ld = StreamingDataLoader(d, batch_size=conf["B"], num_workers=conf["W"])
            while True:
                o = todo()
                if o is None:
                    return
                try:
                    if o["op"] == "get":
                        answer({"got": [decode(d[i], sizes) for i in o["ix"]]})
                        continue
                    items, k = [], 0
                    it = iter(ld)
                    for b in it:
                        items += [decode(x, sizes) for x in b]
                        k += 1
                        if k == o.get("n"):
                            break
                    del it
                    gc.collect()
                    answer({"got": items})
                except BaseException as e:  # noqa: BLE001
                    answer({"error": f"{type(e).__name__}: {str(e)[:300]} {traceback.format_exc()[-1500:]}"})
                    return

    # the ranks are processes
    pipes = []
    base_cache = cache
    if conf["jitter"]:
        jitter(base_cache, conf["jitter"])
    for r in range(R):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(qw), os.close(ar)
            fq, fa = os.fdopen(qr), os.fdopen(aw, "w")

            def todo(fq=fq):
                line = fq.readline()
                return json.loads(line) if line.strip() else None

            def answer(x, fa=fa):
                fa.write(json.dumps(x) + "\n")
                fa.flush()

            try:
                reader(r, todo, answer)
            except BaseException as e:  # noqa: BLE001
                answer({"error": f"{type(e).__name__}: {str(e)[:300]} {traceback.format_exc()[-1500:]}"})
            os._exit(0)
        os.close(qr), os.close(aw)
        pipes.append((pid, os.fdopen(qw, "w"), os.fdopen(ar)))
    threading.Thread(target=poll, daemon=True).start()
    tr = []
    failed = False
    for o in ops:
        if o["op"] == "get":
            o = {**o, "ix": [i % N for i in o["ix"]]}
        peak[0], n0 = 0, os.path.getsize(log)
        for _, q, _ in pipes:
            q.write(json.dumps(o) + "\n")
            q.flush()
        answers = [json.loads(a.readline() or '{"error": "died"}') for _, _, a in pipes]
        errors = [a["error"] for a in answers if "error" in a]
        if errors:
            tr.append({"ev": "error", "what": errors[0]})
            failed = True
            break
        if o["op"] == "get":
            tr.append({"ev": "get", "asked": o["ix"], "got": answers[0]["got"], "wait": wait()})
            continue
        tr.append({"ev": "epoch", "complete": o["op"] == "full"})
        tr += [{"ev": "got", "items": a["got"]} for a in answers]
        left, locks, other = _state(cache)
        tr.append({"ev": "end", "wait": wait(), "peak": max(peak[0], left), "left": left, "locks": locks, "other": other,
                   "fetched": os.path.getsize(log) - n0})
    stop.append(1)
    for pid, q, a in pipes:
        if not failed:
            q.write("\n")
        q.close()
        if not failed:
            os.waitpid(pid, 0)
    tr.append({"ev": "source", "same": _digest(src) == before})
    return {"trace": tr, "cfg": mkcfg(case, len(sizes), limit == 0 or limit >= total)}


def record(chk, cases, group):
    """Runs the cases; stops after enough of them have failed (a stalling reader takes long)."""
    ds.import_litdata(fast_sleep=False)
    out, kept = [], []
    for k in range(0, len(cases), 48):
        part = cases[k:k + 48]
        bad = 0
        for c, r in zip(part, core.run_cases(run_case, part, timeout=90)):
            if "ok" in r:
                v = r["ok"]
            else:
                if "MachineryError" in str(r):
                    raise core.MachineryError(str(r))
                v = {"trace": [{"ev": "error", "what": "hang" if "hang" in r else str(r)[:1500]}],
                     "cfg": mkcfg(c, len(c["conf"]["sizes"]), False)}
            bad += any(e["ev"] == "error" or e.get("wait", 0) >= STALL for e in v["trace"])
            out.append(v)
            kept.append(c)
        if bad > 3:
            break
    return out, kept
