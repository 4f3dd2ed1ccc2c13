"""small systematic LDPC codes: information bits first, parity bits by accumulation"""
import functools
import numpy as np


@functools.lru_cache(maxsize=64)
def parity_matrix(k, r, seed):
    rs = np.random.RandomState(seed)
    h = np.zeros((r, k + r), dtype=np.int_)
    for j in range(k):
        h[rs.choice(r, 3, replace=False), j] = 1
    for i in range(r):
        while h[i, :k].sum() < 2:  # min-sum has no answer for a check of degree one
            h[i, rs.randint(k)] = 1
        h[i, k + i] = 1
        if i:
            h[i, k + i - 1] = 1
    return h


def encode(h, info):
    r, n = h.shape
    k = n - r
    out = np.zeros(n, dtype=np.int_)
    out[:k] = info
    acc = 0
    for i in range(r):
        acc = (int(h[i, :k] @ info) + acc) % 2
        out[k + i] = acc
    return out
