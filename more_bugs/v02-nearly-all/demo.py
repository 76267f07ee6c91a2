import litdata
def fn(i): return i
if __name__ == "__main__":
    litdata.optimize(fn, list(range(100)), "out", chunk_size=7, num_workers=1, start_method="fork")
    assert list(litdata.StreamingDataset("out", subsample=0.96)) == list(range(96))
