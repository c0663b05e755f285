"""C08: applying gains in memory follows the calibration equation."""
import warnings

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed, subset
from ..redsim import ants_of, rev

RULE = ("Random baseline sets (crosses, autos, cross-pol, reversed keys) over 2-5 antennas, gains/old gains/flags possibly missing "
        "antennas, both gain conventions, boolean flags or weights, gains with one integration, the data's, or a power of two "
        "more or fewer (including mixed cadences). Oracle: V * (old_i old_j*) / (new_i new_j*) and OR of flags, written directly. "
        "Non-trivial: at least two baselines and non-unit gains on both.")
ASSUMPTIONS = []


def gen(draw):
    na = ints(draw, 2, 5)
    pols = pick(draw, [["nn"], ["ee"], ["nn", "ee"], ["nn", "ee", "ne", "en"], ["ne", "en"]])
    pairs = [(i, j) for i in range(na) for j in range(i, na)]
    bls = subset(draw, [[i, j, p] for i, j in pairs for p in pols], min_size=1, max_size=12)
    ants = [[a, p] for a in range(na) for p in ("Jnn", "Jee")]
    lo = ints(draw, 0, 2)
    return dict(bls=bls, flips=[flag(draw) for _ in bls], ants=ants,
                miss_new=pick(draw, [[], [], [ants[0]], subset(draw, ants, max_size=2)]),
                miss_flag=pick(draw, [[], [], [ants[1]], subset(draw, ants, max_size=2)]),
                miss_old=pick(draw, [[], [], [ants[2]], subset(draw, ants, max_size=2)]),
                old=flag(draw), conv=pick(draw, ["divide", "multiply"]), dflags=flag(draw) or flag(draw), cflags=ints(draw, 0, 3) > 0,
                wgt=ints(draw, 0, 2) == 2, cad=[ints(draw, 0, 2) for _ in bls], base=pick(draw, [1, 2, 3]), gain_pow=lo,
                gain_one=ints(draw, 0, 3) == 3, nf=ints(draw, 1, 4), seed=seed(draw), c64=ints(draw, 0, 3) == 3, roundtrip=flag(draw))


def resample(g, f, nt):
    """gains and flags at the cadence with nt integrations: repeat, or halve by flag-weighted averages"""
    if g.shape[0] == 1:
        return np.broadcast_to(g, (nt,) + g.shape[1:]), None if f is None else np.broadcast_to(f, (nt,) + f.shape[1:])
    while g.shape[0] < nt:
        g = np.repeat(g, 2, axis=0)
        f = None if f is None else np.repeat(f, 2, axis=0)
    while g.shape[0] > nt:
        if f is None:
            g = 0.5 * (g[0::2] + g[1::2])
        else:
            w0, w1 = (~f[0::2]).astype(float), (~f[1::2]).astype(float)
            ws = w0 + w1
            g = np.where(ws > 0, (g[0::2] * w0 + g[1::2] * w1) / np.where(ws > 0, ws, 1), 0)
            f = f[0::2] | f[1::2]
    return g, f


def check(case, ctx):
    from hera_cal.apply_cal import calibrate_in_place
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "cal")
    nf = case["nf"]
    ct = np.complex64 if case["c64"] else np.complex128
    tol = 2e-4 if case["c64"] else 1e-8
    gnt = 1 if case["gain_one"] else case["base"] * 2**case["gain_pow"]
    ants = [tuple(a) for a in case["ants"]]

    def gset(miss):
        return {a: (rng.uniform(0.5, 2, size=(gnt, nf)) * np.exp(2j * np.pi * rng.random(size=(gnt, nf)))).astype(ct)
                for a in ants if list(a) not in miss}
    new = gset(case["miss_new"])
    old = gset(case["miss_old"]) if case["old"] else None
    cf = {a: rng.random(size=(gnt, nf)) < 0.2 for a in ants if list(a) not in case["miss_flag"]} if case["cflags"] else None
    if not new or (old is not None and not old) or (cf is not None and not cf):
        return
    if cf is not None and set(new) - set(cf) and gnt > 1:
        cf.update({a: np.zeros((gnt, nf), dtype=bool) for a in set(new) - set(cf)})   # resampling pairs gains with their flags
    data, flags = {}, {}
    for b, fl, c in zip(case["bls"], case["flips"], case["cad"]):
        b = tuple(b)
        k = rev(b) if fl else b
        nt = case["base"] * 2**c
        d = cplx(rng, (nt, nf))
        if b[0] == b[1] and b[2][0] == b[2][1]:
            d = np.abs(d) + 0j
        if rev(k) in data and k != rev(k):
            continue
        data[k] = d.astype(ct)
        flags[k] = rng.random(size=(nt, nf)) < 0.1
    dc = DataContainer({k: d.copy() for k, d in data.items()})
    fc = None
    if case["dflags"]:
        fc = DataContainer({k: (rng_of(case["seed"], str(k)).uniform(0.5, 2, size=f.shape) * ~f if case["wgt"] else f.copy()) for k, f in flags.items()})
        f0 = {k: fc[k].copy() for k in data}
    keep = {a: g.copy() for a, g in new.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            calibrate_in_place(dc, new, data_flags=fc, cal_flags=cf, old_gains=old, gain_convention=case["conv"], flags_are_wgts=case["wgt"])
    for a in keep:
        same(new[a], keep[a], "calibrate_in_place changed the gains")
    require(set(dc.keys()) == set(data), "calibrate_in_place changed the set of baselines")
    nchecked = 0
    for k in data:
        ai, aj = ants_of(k)
        nt = data[k].shape[0]
        have = ai in new and aj in new and (old is None or (ai in old and aj in old))
        ok = np.ones((nt, nf), dtype=bool)
        if have:
            gi, fi = resample(new[ai], None if cf is None else cf.get(ai), nt)
            gj, fj = resample(new[aj], None if cf is None else cf.get(aj), nt)
            r = gi * np.conj(gj)
            ok = r != 0
            r = 1 / np.where(ok, r, 1)
            if old is not None:
                r = r * resample(old[ai], None, nt)[0] * np.conj(resample(old[aj], None, nt)[0])
            exp = data[k] * (r if case["conv"] == "divide" else 1 / r)
            close(np.where(ok, dc[k], 0), np.where(ok, exp, 0), f"calibrated {k}", rtol=tol, atol=tol)
            if ai == aj:
                require(np.all(dc[k][ok].imag == 0), f"autocorrelation {k} is no longer real")
            nchecked += 1
        require(dc[k].dtype == data[k].dtype, f"calibration changed the type of {k}")
        if fc is not None:
            if not have or cf is None or ai not in cf or aj not in cf:
                exp = np.zeros((nt, nf)) if case["wgt"] else np.ones((nt, nf), dtype=bool)
            else:
                bad = resample(cf[ai].astype(float) + 0j, cf[ai], nt)[1] | resample(cf[aj].astype(float) + 0j, cf[aj], nt)[1]
                exp = f0[k] * ~bad if case["wgt"] else f0[k] | bad
            close(np.asarray(fc[k], dtype=float), np.asarray(exp, dtype=float), f"flags of {k}")
            require(np.all(ok | (np.asarray(fc[k]) == 0 if case["wgt"] else np.asarray(fc[k]))), f"{k}: zero gain but not flagged")
    ctx.label(case["conv"], "old" if old is not None else "raw", f"gain cadence {case['gain_pow']}" if gnt > 1 else "one integration")
    ctx.nontrivial(nchecked >= 2)
    # taking the new gains out again restores the data
    if case["roundtrip"] and cf is None and nchecked:
        ones = {a: np.ones_like(g) for a, g in new.items()}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            calibrate_in_place(dc, ones if old is None else old, old_gains=new, gain_convention=case["conv"])
        for k in data:
            ai, aj = ants_of(k)
            if ai in new and aj in new and (old is None or (ai in old and aj in old)):
                close(dc[k], data[k], f"unapplying the calibration does not restore {k}", rtol=10 * tol, atol=10 * tol)
        ctx.label("roundtrip")


def gen_err(draw):
    return dict(nt=pick(draw, [2, 3, 4, 5, 6, 8]), gnt=pick(draw, [2, 3, 4, 5, 6, 8]), nf=ints(draw, 1, 3), card=pick(draw, ["both", "data", "gains"]), seed=seed(draw))


def check_err(case, ctx):
    """shapes that cannot be matched and inconsistent polarization names are errors, never silently wrong"""
    from hera_cal.apply_cal import calibrate_in_place
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "err")
    dpol = "nn" if case["card"] in ("both", "data") else "xx"
    gpol = "Jnn" if case["card"] in ("both", "gains") else "Jxx"
    d = DataContainer({(0, 1, dpol): cplx(rng, (case["nt"], case["nf"]))})
    g = {(a, gpol): cplx(rng, (case["gnt"], case["nf"])) for a in (0, 1)}
    ratio = max(case["nt"], case["gnt"]) / min(case["nt"], case["gnt"])
    good = np.log2(ratio) == int(np.log2(ratio))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["card"] != "both":
            with expect_raises((KeyError,), "cardinal and instrumental polarizations mixed"):
                calibrate_in_place(d, g)
        elif not good:
            with expect_raises((ValueError, TypeError), f"gains with {case['gnt']} integrations applied to {case['nt']}"):
                calibrate_in_place(d, g)
        else:
            calibrate_in_place(d, g)
    ctx.label(case["card"], "good" if good else "bad")
    ctx.nontrivial(not good or case["card"] != "both")


SUBS = [Sub("apply", gen, check, quick=800, thorough=16000, shards=6),
        Sub("errors", gen_err, check_err, quick=100, thorough=600, shards=2)]
