import os
import shutil
import sys
import time

import litdata
from litdata.streaming import Cache

src, cache = os.path.abspath("src"), os.path.abspath("cache")


def write(v):
    shutil.rmtree(src, ignore_errors=True)
    w = Cache(src, chunk_size=4)
    for i in range(8):
        w[i] = 100 * v + i
    w.done()
    w.merge()


def read():
    d = litdata.StreamingDataset("local:" + src, cache_dir=cache, shuffle=False)
    return [d[i] for i in range(len(d))]


for v in range(1, 4):
    while not 0.02 < time.time() % 1 < 0.3:
        time.sleep(0.01)
    for k in (2 * v, 2 * v + 1):
        write(k)
        got = read()
        if got != [100 * k + i for i in range(8)]:
            print("version", k, "read as", got)
            sys.exit(1)
