from litdata.streaming.cache import Cache
from litdata import StreamingDataset
c = Cache("ds", chunk_size=5)
for i in range(20):
    c[i] = i
c.done(); c.merge()
d = StreamingDataset("ds"); it = iter(d)
for _ in range(7):
    next(it)
st = d.state_dict(7, 0, 1)
d2 = StreamingDataset("ds"); d2.load_state_dict(st)
assert list(d2) == list(range(7, 20))
assert list(d2) == list(range(20))
