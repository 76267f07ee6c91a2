import litdata
def fn(i):
    yield "x" * (i % 3)
    yield "abc"
if __name__ == "__main__":
    litdata.optimize(fn, list(range(6)), "out", chunk_size=3, num_workers=2, start_method="fork")
    got = list(litdata.StreamingDataset("out"))
    want = [v for i in range(6) for v in ("x" * (i % 3), "abc")]
    assert got == want, got
