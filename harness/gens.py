"""Shared generator pieces."""
import numpy as np
from hypothesis import strategies as st

from .core import rng_of


def ints(draw, lo, hi):
    return draw(st.integers(lo, hi))


def pick(draw, seq):
    return draw(st.sampled_from(list(seq)))


def flag(draw):
    return draw(st.booleans())


def seed(draw):
    return draw(st.integers(0, 2**32 - 1))


def subset(draw, seq, min_size=0, max_size=None):
    seq = list(seq)
    if not seq:
        return []
    keep = draw(st.lists(st.booleans(), min_size=len(seq), max_size=len(seq)))
    out = [s for s, k in zip(seq, keep) if k]
    if max_size is not None:
        out = out[:max_size]
    i = 0
    while len(out) < min_size:
        if seq[i] not in out:
            out.append(seq[i])
        i += 1
    return out


def perm(draw, seq):
    return list(draw(st.permutations(list(seq))))


def cplx(rng, shape, scale=1.0):
    return scale * (rng.normal(size=shape) + 1j * rng.normal(size=shape))


def int_cplx(rng, shape, lo=-9, hi=10):
    """complex array of small non-zero integers: sums and products are exact."""
    re = rng.integers(lo, hi, size=shape).astype(float)
    im = rng.integers(lo, hi, size=shape).astype(float)
    im[(re == 0) & (im == 0)] = 1.0
    return re + 1j * im


def tup(x):
    """JSON lists back to (nested) tuples."""
    return tuple(tup(y) for y in x) if isinstance(x, list) else x
