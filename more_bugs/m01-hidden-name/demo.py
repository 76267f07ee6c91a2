import os
import sys

import litdata


def fn(path, output_dir):
    with open(path) as f:
        x = f.read()
    name = "." + os.path.basename(path) if x[-1] in "02468" else os.path.basename(path)
    with open(os.path.join(output_dir, name), "w") as f:
        f.write(x)


if __name__ == "__main__":
    os.makedirs("in")
    paths = []
    for i in range(6):
        p = os.path.abspath(f"in/f{i}.txt")
        with open(p, "w") as f:
            f.write(f"v{i}")
        paths.append(p)
    litdata.map(fn, paths, output_dir=os.path.abspath("out"), num_workers=2, input_dir=os.path.abspath("in"))
    got = sorted(os.listdir("out"))
    print(got)
    sys.exit(0 if got == sorted((f".f{i}.txt" if i % 2 == 0 else f"f{i}.txt") for i in range(6)) else 1)
