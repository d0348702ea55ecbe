"""Synthetic atmosphere records for the replay: the files in the repository are
Git-LFS stubs.  Every record differs from every other."""
import os
import sys

import numpy as np

d = sys.argv[1]
k = np.arange(1371)
rows = [l for l in open(os.path.join(d, "fileDecoder.csv")).read().split("\n")[1:] if l.strip()]
t = np.array([[float(x) for x in l.split(",")[:4]] for l in rows])
base = np.empty((5, 1371), dtype=np.float32)
for n, (i, alt, rng, hz) in enumerate(t):
    base[0] = 0.9 * np.exp(-rng / 100 - alt / 60 - 0.05 * hz) * (0.6 + 0.4 * np.sin(k / 60.0 + 0.37 * i))
    base[0] = np.clip(base[0], 0.001, 0.999)
    for j in range(1, 5):
        base[j] = 1e-10 * (1e6 / j) * (1.2 + np.sin(k / (50.0 + 7 * j) + 0.71 * i)) * (1 + 0.01 * alt + 0.003 * rng + 0.2 * hz)
    with open(os.path.join(d, f"{int(i)}.bin"), "wb") as f:
        f.write(base.tobytes())
