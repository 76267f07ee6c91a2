"""Several nodes run optimize or map at once (spec: Nodes)."""
import json
import os
import shutil
import threading
import time

from vf import core, ds, fakes3, store

LIMIT = 60
GRACE = 6     # seconds a node may go on waiting for one that failed


def note(p, x):
    fd = os.open(p, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, f"{x}\n".encode())
    os.close(fd)


class Fn:
    """Does no work before all nodes of the run have begun; then node p is slow, by its delay, with its first input."""

    def __init__(self, o, r, p, wd, few):
        self.o, self.r, self.p, self.wd, self.few = o, r, p, wd, few

    def begun(self):
        if self.few:
            return
        mine = os.path.join(self.wd, f"begun-{self.r}-{self.p}")
        first = not os.path.exists(mine)
        open(mine, "a").close()
        t = time.time()
        while not all(os.path.exists(os.path.join(self.wd, f"begun-{self.r}-{q}")) for q in range(self.o["P"])):
            ds._real_sleep(0.01)
            if time.time() - t > LIMIT:
                raise RuntimeError("the nodes did not begin together")
        if first:
            ds._real_sleep(0.4 * self.o["delay"][self.p])

    def number(self, inp):
        self.begun()
        x = inp
        if self.o["kind"] == "files":
            with open(inp) as f:
                x = int(f.read().split()[0])
        note(os.path.join(self.wd, f"calls-{self.r}"), x)
        if x == self.o["at"]:
            raise ValueError("planned failure")
        return x

    def optimize(self, inp):
        x = self.number(inp)
        return ds.enc(self.o["base"] + x, 8 + 7 * (x % 4))

    def map(self, inp, output_dir):
        x = self.number(inp)
        with open(os.path.join(output_dir, name(self.o["base"] + x)), "wb") as f:
            f.write(text(self.o["base"] + x))


def name(i):
    return f"file-{i}.txt"


def text(i):
    return f"{i};".encode() * (i % 7)


def node(o, r, p, wd, outdir, cloud, few):
    import litdata

    os.environ.update(DATA_OPTIMIZER_NUM_NODES=str(o["P"]), DATA_OPTIMIZER_NODE_RANK=str(p),
                      DATA_OPTIMIZER_CACHE_FOLDER=os.path.join(wd, f"node{p}", "chunks"),
                      DATA_OPTIMIZER_DATA_CACHE_FOLDER=os.path.join(wd, f"node{p}", "data"))
    if cloud:
        fakes3.install(os.path.join(wd, "s3"))
        outdir = store.url(outdir)
    kw = dict(num_workers=o["W"], start_method="fork", reorder_files=o["reorder"], num_uploaders=1, num_downloaders=1)
    inputs = list(range(1, o["n"] + 1))
    if o["kind"] == "files":
        kw["input_dir"] = os.path.join(wd, f"in{r}")
        inputs = [os.path.join(wd, f"in{r}", f"f{x}.txt") for x in inputs]
    fn = Fn(o, r, p, wd, few)
    if o["op"] == "map":
        litdata.map(fn.map, inputs, output_dir=outdir, **kw)
    else:
        if o["mode"] != "none":
            kw["mode"] = o["mode"]
        litdata.optimize(fn.optimize, inputs, output_dir=outdir, chunk_size=o["size"], **kw)


def watch(outdir, stop, out):
    """Notes every index.json which appears, and the chunks it lists that aren't there as listed."""
    idx = os.path.join(outdir, "index.json")
    try:
        with open(idx) as f:
            seen = f.read()
    except OSError:
        seen = ""
    while True:
        last = stop.is_set()
        try:
            with open(idx) as f:
                now = f.read()
            index = json.loads(now)
        except (OSError, ValueError):
            now = seen
        if now != seen:
            bad = 0
            for c in index["chunks"]:
                p = os.path.join(outdir, c["filename"])
                bad += not os.path.exists(p) or os.path.getsize(p) != c["chunk_bytes"]
            out.append(bad)
            seen = now
        if last:
            return
        ds._real_sleep(0.005)


def run_nodes(o, r, wd, outdir, cloud, few):
    for p in range(o["P"]):
        shutil.rmtree(os.path.join(wd, f"node{p}"), ignore_errors=True)
        os.makedirs(os.path.join(wd, f"node{p}"))
    seen, stop = [], threading.Event()
    w = threading.Thread(target=watch, args=(outdir, stop, seen))
    w.start()
    res = group(o["P"], lambda p: node(o, r, p, wd, outdir, cloud, few))
    stop.set()
    w.join()
    return res, seen


def group(n, fn):
    """Runs fn(0) .. fn(n - 1) in process groups of their own, at once."""
    pids, files = {}, {}
    for p in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            try:
                fn(p)
                msg = "ok"
            except BaseException as e:  # noqa: BLE001
                msg = "fail " + f"{type(e).__name__}: {e}"[-1500:]
            os.write(wfd, msg.encode()[:4000])
            os._exit(0)
        os.close(wfd)
        os.set_blocking(rfd, False)
        pids[p], files[p] = pid, rfd
    res, t0, failed = [None] * n, time.time(), None
    while any(x is None for x in res):
        for p in range(n):
            if res[p] is None and os.waitpid(pids[p], os.WNOHANG)[0]:
                core._kill_group(pids[p])
                try:
                    msg = os.read(files[p], 5000).decode()
                except BlockingIOError:
                    msg = ""
                res[p] = ("ok", "") if msg == "ok" else ("fail", msg[5:]) if msg.startswith("fail") else ("crash", msg)
                if res[p][0] != "ok":
                    failed = failed or time.time()
        now = time.time()
        if now - t0 > LIMIT or (failed and now - failed > GRACE):
            for p in range(n):
                if res[p] is None:
                    core._kill_group(pids[p])
                    os.waitpid(pids[p], 0)
                    res[p] = ("waiting" if failed else "hang", "")
        ds._real_sleep(0.01)
    for f in files.values():
        os.close(f)
    return res


def listing(outdir, upto):
    good, odd = [], 0
    names = {name(i): i for i in range(1, upto + 1)}
    for f in sorted(os.listdir(outdir)) if os.path.isdir(outdir) else []:
        if not f.startswith("file-"):
            continue
        with open(os.path.join(outdir, f), "rb") as fp:
            if f in names and fp.read() == text(names[f]):
                good.append(names[f])
            else:
                odd += not f.endswith((".tmp", ".part~"))
    return {"ev": "files", "ids": good, "odd": odd}


def run_case(c, wd):
    ds.import_litdata()
    cloud = c["store"] == "s3"
    outdir = os.path.join(wd, "s3", "bucket", "data") if cloud else os.path.join(wd, "data")
    os.makedirs(outdir if not cloud else os.path.dirname(outdir), exist_ok=True)
    if not cloud:
        os.makedirs(outdir + "-files")
    tr, base = [], 10
    for r, o in enumerate(c["ops"]):
        o = {**o, "base": base}
        ids = [base + x for x in range(1, o["n"] + 1)]
        base += o["n"]
        if o["kind"] == "files":
            os.makedirs(os.path.join(wd, f"in{r}"))
            for x in range(1, o["n"] + 1):
                with open(os.path.join(wd, f"in{r}", f"f{x}.txt"), "w") as f:
                    f.write(f"{x} " + "y" * (37 * (x * 7 % 5)))
        tr.append({"ev": "run", "op": o["op"], "mode": o["mode"], "n": o["n"], "ids": ids, "P": o["P"], "at": o["at"],
                   "ordered": not (o["kind"] == "files" and o["reorder"])})
        res, seen = run_nodes(o, r, wd, outdir + "-files" * (o["op"] == "map"), cloud, c["few"])
        log = os.path.join(wd, f"calls-{r}")
        if os.path.exists(log):
            with open(log) as f:
                tr += [{"ev": "call", "x": int(x)} for x in f.read().split()]
        tr += [{"ev": "node", "p": p, "res": x[0], "what": x[1][-500:]} for p, x in enumerate(res)]
        tr += [{"ev": "published", "bad": b} for b in seen]
        tr.append({"ev": "ended"})
        read(tr, outdir, cloud)
        tr.append(listing(outdir + "-files", base))
    return tr


def read(tr, outdir, cloud):
    try:
        if not os.path.exists(os.path.join(outdir, "index.json")):
            raise FileNotFoundError("index.json")
        tr.append({"ev": "read", "items": [ds.dec(x) for x in store.opened(outdir, cloud)]})
    except Exception as ex:  # noqa: BLE001
        tr.append({"ev": "noread", "what": f"{type(ex).__name__}: {ex}"[:300]})


def record(chk, cases):
    ds.import_litdata()
    out = []
    for c, r in zip(cases, core.run_cases(run_case, cases, timeout=240)):
        tr = r["ok"] if "ok" in r else [{"ev": "error", "what": "hang" if "hang" in r else str(r.get("exc", r))[:800]}]
        out.append({"cfg": {"key": c.get("key", "")}, "trace": tr})
    return out
