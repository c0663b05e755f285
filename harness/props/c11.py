"""C11: redundant averaging is the weighted mean of each group."""
import copy

import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions, true_groups
from ..redsim import rev
from ..uvsim import freqs_of, make_uvd, times_of, truth

RULE = ("Random arrays with 1-4 polarizations, baselines missing or stored reversed, random flags, nsamples, integration times and "
        "explicit weights; groups given or inferred, keys chosen or default, in place or not, DataContainer and UVData inputs. "
        "Oracle: direct weighted sums over each group's members. Non-trivial: a group with at least two members in the data.")
ASSUMPTIONS = ["weights are either 0 or not vanishingly small (>= 1e-3)"]


def gen(draw, uv=False):
    lay = grid_layout(draw) if flag(draw) else gen_layout(draw, dims=2, nmin=2, nmax=6, span=2)
    return dict(lay=lay, pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 3), nf=ints(draw, 1, 3), seed=seed(draw),
                drop=ints(draw, 0, 4), wgts=flag(draw), prop=flag(draw), inplace=flag(draw), reds=pick(draw, ["given", "given", "none"]),
                keys=flag(draw), flagged=pick(draw, [0.0, 0.3, 0.7]), noflags=ints(draw, 0, 4) == 4, nonsamp=ints(draw, 0, 4) == 4,
                flip=flag(draw), dead=flag(draw), tint=flag(draw), autos=flag(draw), ghost=ints(draw, 0, 3) == 3)


def groups_of(case, pos, rng):
    """oriented groups [(i, j), ...] from the harness's own redundancy"""
    groups = [sorted(g) for _, g in sorted(true_groups(case["lay"]).items())]
    if case["autos"]:
        groups = [[(a, a) for a in sorted(pos)]] + groups
    return groups


def average(members, data, flags, nsamp, wgts, tint, prop):
    """reference: members are keys; data etc. are dicts of arrays oriented like the key"""
    w = np.array([wgts[m] * tint[m] for m in members])
    d = np.array([data[m] for m in members])
    f = np.array([flags[m] for m in members])
    n = np.array([nsamp[m] for m in members])
    ws = w.sum(axis=0)
    avg = (w * d).sum(axis=0) / np.where(ws > 0, ws, 1)
    avg[np.all(f, axis=0)] = 1.0
    fl = np.all((w == 0) | (f if prop else False), axis=0)
    return avg, fl, (n * (w != 0)).sum(axis=0)


def check_dc(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from hera_cal.utils import red_average
    pos = positions(case["lay"], 14.6)
    rng = rng_of(case["seed"], "red")
    shape = (case["nt"], case["nf"])
    groups = groups_of(case, pos, rng)
    pairs = [p for g in groups for p in g]
    keep = [p for k, p in enumerate(pairs) if (k * 7 + case["seed"]) % 5 >= case["drop"] or len(pairs) < 3]
    if not keep:
        return
    D, F, N, W = {}, {}, {}, {}
    dc, fc, nc, wc = {}, {}, {}, {}
    for p in keep:
        flip = case["flip"] and rng.integers(2) and p[0] != p[1]
        for pol in case["pols"]:
            k = p + (pol,)
            D[k] = cplx(rng, shape)
            F[k] = rng.random(size=shape) < case["flagged"]
            if case["dead"] and rng.integers(3) == 0:
                F[k][:] = True
            N[k] = rng.integers(1, 6, size=shape).astype(float)
            W[k] = rng.uniform(0.5, 2, size=shape) * (rng.random(size=shape) > 0.2)
            s = rev(k) if flip else k
            dc[s] = np.conj(D[k]) if flip else D[k].copy()
            fc[s], nc[s], wc[s] = F[k].copy(), N[k].copy(), W[k].copy()
    if case["autos"] and len(case["pols"]) == 4:
        for p in keep:
            if p[0] == p[1]:
                k, q = p + ("en",), p + ("ne",)
                D[q], F[q], N[q], W[q] = np.conj(D[k]), F[k], N[k], W[k]
                dc.pop(q), fc.pop(q), nc.pop(q), wc.pop(q)
    if case["noflags"]:
        F = {k: np.zeros(shape, dtype=bool) for k in F}
    if case["nonsamp"]:
        N = {k: np.ones(shape) for k in N}
    data, flags, nsamp, wgts = (DataContainer(x) for x in (dc, fc, nc, wc))
    given = [list(g) for g in groups]
    expected = [[m for m in g if m in keep] for g in given]
    keys = None
    if case["keys"]:
        keys = [g[-1] for g in given]
    if not case["ghost"]:   # only groups with data
        if keys is not None:
            keys = [k for k, g in zip(keys, expected) if g]
        given = [g for g in given if any(m in keep for m in g)]
        expected = [g for g in expected if g]
    infer = case["reds"] == "none" and not case["autos"]
    if infer:   # from the positions the container carries
        keys = None
        pairs_ = list(zip(given, expected))
        given, expected = [g for g, e in pairs_ if e], [e for _, e in pairs_ if e]
        data.antpos = {a: np.array(p) for a, p in pos.items()}
    before = copy.deepcopy(data)
    kw = dict(reds=None if infer else given, wgts=wgts if case["wgts"] else None, flags=None if case["noflags"] else flags,
              nsamples=None if case["nonsamp"] else nsamp, red_bl_keys=keys, propagate_flags=case["prop"])
    if case["inplace"]:
        if case["noflags"] or case["nonsamp"]:
            kw.update(flags=DataContainer({k: np.zeros(shape, dtype=bool) for k in dc}) if case["noflags"] else flags,
                      nsamples=DataContainer({k: np.ones(shape) for k in dc}) if case["nonsamp"] else nsamp)
        red_average(data, inplace=True, **kw)
        out = data, kw["flags"], kw["nsamples"]
    else:
        out = red_average(data, inplace=False, **kw)
        for k in before:
            same(data[k], before[k], "red_average(inplace=False) changed its input")
        require(set(data.keys()) == set(before.keys()), "red_average(inplace=False) changed its input's keys")
        require(set(flags.keys()) == set(fc) and set(nsamp.keys()) == set(nc), "red_average(inplace=False) changed the keys of the flags or nsamples passed in")
        for k in fc:
            same(flags[k], fc[k], "red_average(inplace=False) changed the flags passed in")
            same(nsamp[k], nc[k], "red_average(inplace=False) changed the nsamples passed in")
    used = W if case["wgts"] else {k: N[k] * ~F[k] for k in N}
    tint = {k: 1.0 for k in D}
    nexp = 0
    exp_keys = set()
    for n, (g, e) in enumerate(zip(given, expected)):
        if not e:
            continue
        blk = e[0] if keys is None else keys[n]
        if infer:
            have = [m for m in e + [m[::-1] for m in e] if m + (case["pols"][0],) in set(out[0].keys())]
            require(len(have) == 1, f"group {e}: averages {have}")
            blk = have[0] if have[0] in e else have[0][::-1]
        for pol in case["pols"]:
            avg, fl, ns = average([m + (pol,) for m in e], D, F, N, used, tint, case["prop"])
            k = blk + (pol,)
            require(k in out[0], f"group of {k} missing from the average")
            same(np.asarray(out[1][k]), fl, f"flags of the average {k}")
            close(out[2][k], ns, f"nsamples of the average {k}")
            close(out[0][k], avg, f"average {k}", rtol=1e-7)
            exp_keys.add(min(k, rev(k)))
            nexp += 1
    for o, what in zip(out, ("data", "flags", "nsamples")):
        got = {min(k, rev(k)) for k in o.keys()}
        require(got == exp_keys, f"averaged {what} hold {sorted(got ^ exp_keys)} wrongly")
    ctx.label("wgts" if case["wgts"] else "nsamp*~flags", "inplace" if case["inplace"] else "copy", f"npol {len(case['pols'])}")
    ctx.nontrivial(any(len(e) > 1 for e in expected) and nexp > 0)


def check_uv(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from hera_cal import io
    from hera_cal.utils import red_average
    pos = positions(case["lay"], 14.6)
    rng = rng_of(case["seed"], "reduv")
    shape = (case["nt"], case["nf"])
    groups = groups_of(case, pos, rng)
    pairs = [p for g in groups for p in g]
    keep = [p for k, p in enumerate(pairs) if (k * 7 + case["seed"]) % 5 >= case["drop"] or len(pairs) < 3]
    if not keep:
        return
    stored = [(p[::-1] if case["flip"] and rng.integers(2) else p) for p in keep]
    pols = case["pols"]
    uvd = make_uvd(pos, stored, pols, times_of(case["nt"]), freqs_of(case["nf"]), seed=case["seed"], flag_frac=case["flagged"])
    tr = truth(uvd, pols)
    if case["dead"]:
        for p in stored:
            if rng.integers(3) == 0:
                rows = (uvd.ant_1_array == p[0]) & (uvd.ant_2_array == p[1])
                k = int(rng.integers(len(pols)))
                uvd.flag_array[rows, :, k] = True
        if rng.integers(2):   # a whole integration of one polarization
            uvd.flag_array[uvd.time_array == uvd.time_array[0], :, int(rng.integers(len(pols)))] = True
        tr = truth(uvd, pols)
    tints = {}
    for p in stored:
        rows = (uvd.ant_1_array == p[0]) & (uvd.ant_2_array == p[1])
        t = 9.66 * (int(rng.integers(1, 4)) if case["tint"] else 1)
        uvd.integration_time[rows] = t
        tints[p] = t
    D, F, N, W, T = {}, {}, {}, {}, {}
    for p in keep:
        for pol in pols:
            k = p + (pol,)
            if p in stored:
                D[k], F[k], N[k] = tr[k]
                T[k] = tints[p]
            else:
                d, f, n = tr[rev(k)]
                D[k], F[k], N[k] = np.conj(d), f, n
                T[k] = tints[p[::-1]]
            W[k] = rng.uniform(0.5, 2, size=shape) * (rng.random(size=shape) > 0.2)
    if case["autos"] and len(pols) == 4:
        for p in keep:
            if p[0] == p[1]:
                W[p + ("ne",)] = W[p + ("en",)]
    used = W if case["wgts"] else {k: N[k] * ~F[k] for k in N}
    given = [g for g in groups if any(m in keep for m in g)]
    expected = [[m for m in g if m in keep] for g in given]
    obj = io.to_HERAData(uvd, filetype="uvh5") if case["keys"] else uvd
    ref = obj.data_array.copy()
    ref2 = obj.flag_array.copy(), obj.nsample_array.copy(), obj.integration_time.copy()
    infer = case["reds"] == "none" and not case["autos"]
    out = red_average(obj, reds=None if infer else given, bl_tol=0.7, inplace=case["inplace"], wgts=DataContainer(dict(W)) if case["wgts"] else None, propagate_flags=case["prop"])
    if case["inplace"]:
        out = obj
    else:
        same(obj.data_array, ref, "red_average(inplace=False) changed its input")
        for x, y in zip((obj.flag_array, obj.nsample_array, obj.integration_time), ref2):
            same(x, y, "red_average(inplace=False) changed its input")
    res = truth(out, pols)
    exp_pairs = set()
    rpairs = {k[:2] for k in res}
    for e in expected:
        blk = e[0]
        if infer:
            have = [m for m in e + [m[::-1] for m in e] if m in rpairs]
            require(len(have) == 1, f"group {e}: averages {have}")
            blk = have[0] if have[0] in e else have[0][::-1]
        ti = out.integration_time[((out.ant_1_array == blk[0]) & (out.ant_2_array == blk[1])) | ((out.ant_1_array == blk[1]) & (out.ant_2_array == blk[0]))]
        tt = [tints[m if m in tints else m[::-1]] for m in e]
        require(np.all(ti >= min(tt) - 1e-3) and np.all(ti <= max(tt) + 1e-3), f"integration time {ti} of the average of {tt}")
        exp_pairs.add(min(blk, blk[::-1]))
        for pol in pols:
            avg, fl, ns = average([m + (pol,) for m in e], D, F, N, used, T, case["prop"])
            k = blk + (pol,)
            if k in res:
                d, f, n = res[k]
            else:
                require(rev(k) in res, f"group of {k} missing from the average")
                d, f, n = res[rev(k)]
                d = np.conj(d)
            same(f, fl, f"flags of the average {k}")
            close(n, ns, f"nsamples of the average {k}", rtol=1e-5)
            close(d, avg, f"average {k}", rtol=1e-4, atol=1e-5)
    require({min(k[:2], k[:2][::-1]) for k in res} == exp_pairs, "averaged object holds the wrong baselines")
    if not case["tint"]:
        close(out.integration_time, np.full(out.Nblts, 9.66), "integration time of the average", rtol=1e-6)
    ctx.label("HERAData" if case["keys"] else "UVData", "wgts" if case["wgts"] else "nsamp*~flags", f"npol {len(pols)}")
    ctx.nontrivial(any(len(e) > 1 for e in expected))


SUBS = [Sub("container", gen, check_dc, quick=500, thorough=10000, shards=4),
        Sub("uvdata", gen, check_uv, quick=160, thorough=3000, shards=6)]
