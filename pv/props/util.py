import numpy as np
from pv import core as c
from pv import arr


def flat(x, k):
    """element k (row-major) of a symbolic or real array"""
    if isinstance(x, np.ndarray):
        return int(x.reshape(-1)[int(k)]) if x.dtype.kind in 'iub' else float(x.reshape(-1)[int(k)])
    a = arr.A(x)
    if len(a.shape) == 1:
        return a.at((k,))
    w = a.shape[1]
    return a.at((c.floordiv(k, w), c.mod(k, w)))
