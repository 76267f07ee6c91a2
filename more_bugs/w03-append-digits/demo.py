import litdata
def fn(i):
    return i
if __name__ == "__main__":
    litdata.optimize(fn, list(range(24)), "out", chunk_size=2, num_workers=1, start_method="fork")
    litdata.optimize(fn, list(range(24, 30)), "out", chunk_size=2, num_workers=1, start_method="fork", mode="append")
    got = list(litdata.StreamingDataset("out"))
    assert got == list(range(30)), got
