from litdata.streaming.cache import Cache
from litdata import StreamingDataset
c = Cache("ds", chunk_size=5)
for i in range(20):
    c[i] = i
c.done(); c.merge()
d = StreamingDataset("ds"); it = iter(d)
for _ in range(7):
    next(it)
got = list(d)
assert got == list(range(20)), got
