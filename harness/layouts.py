"""Antenna layouts: distinct lattice points, so that redundancy is known exactly."""
import numpy as np

from .gens import flag, ints, perm, pick, seed, subset

BASES = {
    "square": np.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]),
    "hex": np.array([[1.0, 0, 0], [0.5, np.sqrt(3) / 2, 0], [0, 0, 1.0]]),
    "rect": np.array([[1.0, 0, 0], [0, 1.5, 0], [0, 0, 1.25]]),
}


def gen_layout(draw, dims=None, nmin=2, nmax=9, renum=True, span=3):
    d = dims if dims is not None else pick(draw, [2, 2, 2, 1, 3])
    n = ints(draw, nmin, nmax)
    if d == 1:
        span = max(span, n - 1)
    pts = set()
    tries = 0
    coords = []
    while len(coords) < n and tries < 60:
        tries += 1
        c = [ints(draw, 0, span) if k < d else 0 for k in range(3)]
        if tuple(c) not in pts:
            pts.add(tuple(c))
            coords.append(c)
    n = 0
    while len(coords) < nmin:   # fill in deterministically
        c = [n % (span + 1), n // (span + 1) if d > 1 else 0, 0]
        if d == 1:
            c = [n, 0, 0]
        if tuple(c) not in pts:
            pts.add(tuple(c))
            coords.append(c)
        n += 1
    nums = list(range(len(coords)))
    if renum and flag(draw):
        nums = perm(draw, nums)
        nums = [3 * x + 1 for x in nums]
    return dict(coords=coords, nums=nums, basis=pick(draw, sorted(BASES)), d=d)


def grid_layout(draw, nx=(2, 4), ny=(1, 3), drop=True):
    """a contiguous block, so the array is redundantly calibratable more often than not"""
    x, y = ints(draw, *nx), ints(draw, *ny)
    coords = [[i, j, 0] for j in range(y) for i in range(x)]
    return dict(coords=coords, nums=list(range(len(coords))), basis=pick(draw, ["hex", "square", "rect"]),
                d=1 if y == 1 else 2)


def positions(lay, spacing=14.6, jitter=None, ncol=3):
    B = BASES[lay["basis"]] * spacing
    out = {}
    for i, (num, c) in enumerate(zip(lay["nums"], lay["coords"])):
        p = np.array(c, dtype=float) @ B
        if jitter is not None:
            p = p + jitter[i]
        out[num] = p[:ncol]
    return out


def lattice(lay):
    return {n: tuple(c) for n, c in zip(lay["nums"], lay["coords"])}


def true_groups(lay, autos=False):
    """{canonical separation: set of oriented pairs with exactly that separation}"""
    L = lattice(lay)
    nums = list(L)
    out = {}
    for i, a in enumerate(nums):
        for b in nums[i:] if autos else nums[i + 1:]:
            v = tuple(np.subtract(L[b], L[a]))
            w = tuple(-x for x in v)
            if v >= w:
                out.setdefault(v, set()).add((a, b))
            else:
                out.setdefault(w, set()).add((b, a))
    return out
