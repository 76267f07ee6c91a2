"""Helpers driving litdata's public API on small datasets with identifiable items."""
import contextlib
import json
import os
import sys
import time

from vf import core

_real_sleep = time.sleep


def import_litdata(fast_sleep=True):
    """Import litdata from the repository's current working tree."""
    src = os.path.join(core.REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    os.environ["PYTHONPATH"] = src + os.pathsep + core.VERIF
    if fast_sleep:
        # subsample_streaming_dataset sleeps half a second per construction; only the duration is changed.
        time.sleep = lambda s: _real_sleep(min(s, 0.001))
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.WARNING)
    import torch

    torch.set_num_threads(1)
    import litdata

    if not os.path.abspath(litdata.__file__).startswith(src):
        raise core.MachineryError(f"litdata imported from {litdata.__file__}, expected {src}")
    return litdata


def slow_sleep():
    time.sleep = _real_sleep


# -- items ---------------------------------------------------------------------
def enc(i, nbytes=0):
    s = f"{i}|"
    return s + "x" * max(0, nbytes - len(s))


def dec(s):
    return int(s.split("|")[0])


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = str(v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def make_dataset(path, sizes, compression=None, encryption=None, start=0, item_loader=None, budget=6000, value=enc):
    """Write a dataset whose chunks hold exactly sizes[k] items: ids start, start+1, ... in order.

    Uses the byte-limit of the public Cache writer: every item of chunk k is padded to budget // sizes[k] bytes.
    Returns the chunk sizes actually recorded in index.json.
    """
    from litdata.streaming.cache import Cache

    os.makedirs(path, exist_ok=True)
    with environ(DATA_OPTIMIZER_GLOBAL_RANK=None):
        probe = Cache(path, chunk_bytes=1 << 30)
        overhead = len(probe._writer.serialize(enc(0, 100))[0]) - 100 if hasattr(probe, "_writer") else 4
        c = Cache(path, chunk_bytes=budget, compression=compression, encryption=encryption, item_loader=item_loader)
        i = 0
        for n in sizes:
            for _ in range(n):
                c[i] = value(start + i, budget // n - overhead)
                i += 1
        c.done()
        c.merge()
    with open(os.path.join(path, "index.json")) as f:
        idx = json.load(f)
    got = [ch["chunk_size"] for ch in idx["chunks"]]
    return got


BLOCK = 4


def make_tokens(path, sizes, compression=None, wd=None):
    """A dataset of tokens: chunk k holds sizes[k] blocks of 4 equal tokens (the number of the block) and a few left over."""
    import shutil

    import torch

    from litdata import merge_datasets
    from litdata.streaming.cache import Cache
    from litdata.streaming.item_loader import TokensLoader

    parts, i = [], 0
    for k, n in enumerate(sizes):
        p = f"{path}-part{k}"
        os.makedirs(p)
        rest = (3 * k + n) % BLOCK
        c = Cache(p, chunk_size=BLOCK * n + rest, compression=compression, item_loader=TokensLoader(block_size=BLOCK))
        tokens = torch.arange(i, i + n).repeat_interleave(BLOCK)
        tokens = torch.cat([tokens, torch.full((rest,), 77, dtype=tokens.dtype)])
        cut = (k * 5) % len(tokens)
        c[0] = tokens[:cut] if cut else tokens
        if cut:
            c[1] = tokens[cut:]
        c.done()
        c.merge()
        parts.append(p)
        i += n
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if len(parts) == 1:
        os.rename(parts[0], path)
    else:
        merge_datasets(parts, path)
        for p in parts:
            shutil.rmtree(p)


def dec_any(x):
    """The number of an item, however it is stored; -2 when it is none."""
    if isinstance(x, str):
        return dec(x)
    if isinstance(x, int):
        return x
    v = [int(y) for y in x]
    return v[0] if len(v) == BLOCK and len(set(v)) == 1 else -2


def make_simple(path, n, chunk_size, **kw):
    from litdata.streaming.cache import Cache

    os.makedirs(path, exist_ok=True)
    c = Cache(path, chunk_size=chunk_size, **kw)
    for i in range(n):
        c[i] = enc(i)
    c.done()
    c.merge()


@contextlib.contextmanager
def worker(idx, num):
    """Pretend to be DataLoader worker idx of num (torch's own worker-info global)."""
    from torch.utils.data._utils import worker as tw

    old = tw._worker_info
    if num is None:
        tw._worker_info = None
    else:
        tw._worker_info = tw.WorkerInfo(id=idx, num_workers=num, seed=0, dataset=None)
    try:
        yield
    finally:
        tw._worker_info = old


@contextlib.contextmanager
def ranks(world, rank, nodes=1):
    with environ(WORLD_SIZE=world, GLOBAL_RANK=rank, NNODES=nodes):
        yield
