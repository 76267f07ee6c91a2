"""Stores values of all types and reads them back (spec: Items)."""
import collections
import datetime
import hashlib
import math
import os
import random
from fractions import Fraction

from vf import core, ds

PASS = {}


# ---- concrete values ---------------------------------------------------------
def leaf(kind, v):
    import numpy as np
    import torch

    r = random.Random(f"{kind}/{v}")
    if kind == "str":
        return ["", "a", "x" * 300, "\u00e9\u4e2d\U0001f600", "a\0b", "3", "3.5", " ", "/tmp", "item.tif", "False", "y" * r.randint(1, 50)][v]
    if kind == "int":
        return [0, 1, -1, 2**53 + 1, 2**63 - 1, -(2**63), 255, 256, -129, 2**31, 7, r.randint(-(10**12), 10**12)][v]
    if kind == "float":
        return [0.0, -0.0, 1.0, 3.7, -2.5, math.inf, -math.inf, math.nan, 1e-320, 1.7e308, 0.1, r.random() * 10**6][v]
    if kind == "bool":
        return v % 2 == 0
    if kind == "bytes":
        return [b"", b"\0", b"abc", bytes(range(256)), b"\n\r\n", b"\x80\x04N.", b"x" * 999][v % 7] + (b"" if v < 7 else bytes([v]))
    if kind == "none":
        return None
    if kind == "complex":
        return complex(v, -v)
    if kind == "npscalar":
        return np.float32(v + 0.5)
    if kind == "set":
        return frozenset(range(v))
    if kind == "date":
        return datetime.date(2020, 1, v + 1)
    if kind == "nd0":
        return np.array(v * 3)
    if kind[:2] == "nd":
        shape, dt = kind[2:].split(":")
        n = {"1": [(v,), (v + 1,), (0,)], "2": [(v, 3), (1, v + 1), (2, 2), (0, 4)], "3": [(2, v, 3), (1, 1, 1), (v % 3, 2, 5)],
             "F": [(3, v + 2)], "S": [(4, v + 3)]}[shape]
        n = n[v % len(n)]
        a = (np.random.RandomState(v).randint(0, 256, int(np.prod(n)), dtype=np.uint8).reshape(n) % (2 if dt == "bool" else 251)).astype(dt)
        if dt == "complex64":
            a = (a + 1j * a[::-1]).astype(dt)
        if shape == "F":
            a = np.asfortranarray(a)
        if shape == "S":
            a = a[::2, ::-1].T
        return a
    if kind[0] == "t":
        shape, dt = kind[1:].split(":") if ":" in kind else (kind[1:], "float32")
        n = {"0": [()], "1": [(v,), (v + 1,), (0,)], "2": [(v, 3), (1, v + 1), (0, 4)], "3": [(2, v, 3), (1, 1, 1)], "S": [(4, v + 3)]}[shape]
        n = n[v % len(n)]
        t = torch.from_numpy(np.random.RandomState(v).randint(0, 2 if dt == "bool" else 251, n).reshape(n).copy()).to(getattr(torch, dt))
        return t.t()[::2] if shape == "S" else t
    if kind[:3] == "pil":
        from PIL import Image

        return Image.fromarray(np.random.RandomState(v).randint(0, 255, (v + 1, 3, 3), dtype=np.uint8)).convert(kind[4:])
    raise core.MachineryError(kind)


def build(spec, q):
    q = iter(q)
    n = lambda: next(q)  # noqa: E731
    return {
        "*": lambda: n(), "D:a": lambda: {"a": n()}, "D:a,b": lambda: {"a": n(), "b": n()}, "D:b,a": lambda: {"b": n(), "a": n()},
        "D:a,c": lambda: {"a": n(), "c": n()}, "L2": lambda: [n(), n()], "T2": lambda: (n(), n()), "L3": lambda: [n(), n(), n()],
        "D:a[2],b": lambda: {"a": [n(), n()], "b": n()}, "D:a,b{2}": lambda: {"a": n(), "b": {"c": n(), "d": n()}},
        "L*[2]": lambda: [n(), [n(), n()]], "O:a,b": lambda: collections.OrderedDict([("a", n()), ("b", n())]),
        "D:1,2": lambda: {1: n(), 2: n()}, "D:": lambda: {}, "L0": lambda: [], "D:a[0],b": lambda: {"a": [], "b": n()},
    }[spec]()


# ---- what a value is ------------------------------------------------------------
def describe(x):
    leaves = []
    return {"spec": _walk(x, leaves), "leaves": leaves}


def _walk(x, out):
    if type(x) in (dict, collections.OrderedDict):
        return ("D" if type(x) is dict else "O") + "(" + ",".join(f"{k!r}:{_walk(v, out)}" for k, v in x.items()) + ")"
    if type(x) in (list, tuple):
        return ("L" if type(x) is list else "T") + "(" + ",".join(_walk(v, out) for v in x) + ")"
    out.append(_leaf(x))
    return "*"


def _sha(b):
    return hashlib.sha1(b).hexdigest()[:12]


def _leaf(x):
    import numpy as np
    import torch
    from PIL import Image

    if isinstance(x, (bool, np.bool_)):
        return {"k": "bool", "c": str(int(x))}
    if isinstance(x, (int, np.int64)):
        return {"k": "int", "c": str(Fraction(int(x)))}
    if isinstance(x, float):
        return {"k": "float", "c": str(Fraction(x)) if math.isfinite(x) else str(float(x))}
    if isinstance(x, (str, bytes)):
        return {"k": type(x).__name__, "c": _sha(x.encode() if isinstance(x, str) else bytes(x))}
    if isinstance(x, (np.ndarray, torch.Tensor)) and x.ndim == 0:
        return {"k": f"{type(x).__name__}0:{x.dtype}", "c": str(Fraction(x.item()))}
    if isinstance(x, np.ndarray):
        d = x.dtype.str if x.dtype.byteorder == ">" else str(x.dtype)
        return {"k": f"nd{x.ndim}:{d}", "c": f"{x.shape}{x.dtype.name}{_sha(x.astype(x.dtype.newbyteorder('=')).tobytes('C'))}"}
    if isinstance(x, torch.Tensor):
        d = str(x.dtype)[6:]
        return {"k": f"t{x.ndim}:{d}", "c": f"{tuple(x.shape)}{d}{_sha(x.contiguous().numpy().tobytes())}"}
    if isinstance(x, Image.Image):
        return {"k": "pil:" + x.mode, "c": f"{x.size}{_sha(x.tobytes() + bytes(x.getpalette() or []))}"}
    return {"k": type(x).__name__, "c": str(Fraction(float(x))) if isinstance(x, np.number) and np.isrealobj(x) else f"{x!r}"[:80]}


# ---- running ----------------------------------------------------------------------
def encryption(name):
    from litdata.utilities.encryption import FernetEncryption, RSAEncryption

    if name == "none":
        return None
    if name == "rsa":
        return RSAEncryption(password="p", level="sample")
    return FernetEncryption(password="p", level="sample" if name == "fsample" else "chunk")


class Give:
    def __init__(self, puts):
        self.puts = puts

    def __call__(self, i):
        p = self.puts[i]
        return build(p["spec"], [leaf(k, v) for k, v in zip(p["kinds"], p["v"])])


def run_case(case, wd):
    ds.import_litdata()
    import litdata
    from litdata.streaming.cache import Cache

    conf, puts = case["conf"], case["puts"]
    if conf["via"] == "optimize":
        # an input may have no item: None
        puts = [{**p, "kinds": ["int" if p["spec"] == "*" and k == "none" else k for k in p["kinds"]]} for p in puts]
    give = Give(puts)
    enc = encryption(conf["enc"])
    out = os.path.join(wd, "out")
    comp = None if conf["comp"] == "none" else conf["comp"]
    lim = {"chunk_bytes": conf["limit"] * 400} if conf["bytes"] else {"chunk_size": conf["limit"]}
    tr = []
    cfg = {"short": conf["enc"] == "rsa"}
    note = ""
    if conf["via"] == "cache":
        with ds.environ(DATA_OPTIMIZER_GLOBAL_RANK=None):
            c = Cache(out, compression=comp, encryption=enc, **lim)
            n = 0
            for i in range(len(puts)):
                x = give(i)
                try:
                    c[n] = x
                    ok = True
                except Exception as e:  # noqa: BLE001
                    ok, note = False, f"{type(e).__name__}: {e}"[:200]
                tr.append({"ev": "put", "val": describe(x), "ok": ok, "note": note})
                n += ok
                if not ok and cfg["short"]:
                    break
            if not n:  # nothing to finish
                return {"trace": tr, "cfg": cfg}
            try:
                c.done()
                c.merge()
                ok = True
            except Exception as e:  # noqa: BLE001
                ok, note = False, f"{type(e).__name__}: {e}"[:200]
    else:
        tr += [{"ev": "put", "val": describe(give(i)), "ok": True} for i in range(len(puts))]
        try:
            litdata.optimize(give, list(range(len(puts))), output_dir=out, num_workers=1, compression=comp, encryption=enc, start_method="fork", **lim)
            ok = True
        except Exception as e:  # noqa: BLE001
            ok, note = False, f"{type(e).__name__}: {e}"[-300:]
    tr.append({"ev": "closed", "ok": ok, "note": note})
    if not ok or not any(e["ev"] == "put" and e["ok"] for e in tr):
        return {"trace": tr, "cfg": cfg}
    try:
        d = litdata.StreamingDataset(out, encryption=enc)
        tr.append({"ev": "length", "n": len(d)})
        for i, x in enumerate(d):
            tr.append({"ev": "got", "i": i, "val": describe(x)})
        for i in range(len(d) - 1, -1, -1):
            tr.append({"ev": "got", "i": i, "val": describe(d[i])})
    except Exception as e:  # noqa: BLE001
        import traceback

        tr.append({"ev": "unread", "note": f"{type(e).__name__}: {e}"[:200] + traceback.format_exc()[-600:]})
    return {"trace": tr, "cfg": cfg}


def record(chk, cases):
    ds.import_litdata()
    out = []
    for c, r in zip(cases, core.run_cases(run_case, cases, timeout=60)):
        if "ok" in r:
            out.append(r["ok"])
        else:
            if "MachineryError" in str(r):
                raise core.MachineryError(str(r))
            out.append({"trace": [{"ev": "error", "what": str(r)[:1500]}], "cfg": {"short": False}})
    return out
