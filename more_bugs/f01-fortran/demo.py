import litdata
import numpy as np

def fn(i): return {"x": np.arange(6, dtype=np.int32).reshape(2, 3).T * (i + 1)}
if __name__ == "__main__":
    litdata.optimize(fn, list(range(5)), "out", chunk_size=2, num_workers=1, start_method="fork")
    for i, v in enumerate(litdata.StreamingDataset("out")):
        assert (v["x"] == fn(i)["x"]).all(), (i, v)
