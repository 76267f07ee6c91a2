import litdata
from litdata.streaming.cache import Cache
def mk(d, f):
    c = Cache(d, chunk_size=3)
    for i in range(7):
        c[i] = f(i)
    c.done(); c.merge()
mk("a", int); mk("b", int); mk("c", str)
try:
    litdata.merge_datasets(["a", "b", "c"], "out")
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
