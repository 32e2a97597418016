"""Rooted trees and the order conditions of Runge-Kutta methods."""

from functools import lru_cache

import numpy as np


@lru_cache(None)
def trees(order):
    """All rooted trees with `order` vertices, as sorted tuples of subtrees."""
    if order == 1:
        return ((),)
    out = set()

    def forests(total, largest):
        if total == 0:
            yield ()
            return
        for k in range(min(total, largest), 0, -1):
            for t in trees(k):
                for rest in forests(total - k, k):
                    yield (t,) + rest

    for f in forests(order - 1, order - 1):
        out.add(tuple(sorted(f)))
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


def density(t):
    """gamma(t)"""
    val = size(t)
    for s in t:
        val *= density(s)
    return val


def stage_weights(t, A):
    """Phi_i(t) with the convention that the leaf has weight one per stage."""
    val = np.ones(A.shape[0])
    for s in t:
        val = val * (A @ stage_weights(s, A))
    return val


def defect(t, A, b):
    return float(b @ stage_weights(t, A) - 1.0 / density(t))


def height(t):
    return 1 + max((height(s) for s in t), default=0)
