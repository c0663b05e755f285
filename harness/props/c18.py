"""C18: flag utilities do exactly what their definitions say."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import quiet

RULE = ("solar: ndarrays, DataContainers and UVData over times from minutes to a day at any date and site, against a low-precision solar ephemeris; ant: random "
        "visibility flags for up to 5 antennas with dead ones; factorize/slices/distance/clip/threshold: random boolean or real arrays. Non-trivial: the "
        "operation must leave some samples and change others (for distance: some but not all entries non-zero).")
ASSUMPTIONS = ["times with the Sun within 0.05 degrees of the limit are not judged", "sigma clipping is not judged where the scale is zero or the datum is masked",
               "with spectral windows that do not cover the band, a flagged integration may be extended to the window or to the band"]


# ---------------------------------------------------------------- the Sun
def sun_alt(jd, lat, lon):
    """Astronomical Almanac low-precision formula (about 0.01 degrees)."""
    n = np.asarray(jd, dtype=float) - 2451545.0
    L = 280.460 + 0.9856474 * n
    g = np.deg2rad(357.528 + 0.9856003 * n)
    lam = np.deg2rad(L + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.deg2rad(23.439 - 0.0000004 * n)
    ra = np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))
    dec = np.arcsin(np.sin(eps) * np.sin(lam))
    gmst = np.deg2rad(280.46061837 + 360.98564736629 * n)
    ha = gmst + np.deg2rad(lon) - ra
    la = np.deg2rad(lat)
    return np.rad2deg(np.arcsin(np.sin(la) * np.sin(dec) + np.cos(la) * np.cos(dec) * np.cos(ha)))


def gen_solar(draw):
    return dict(kind=pick(draw, ["arr", "dc", "uvd", "uvd"]), nt=ints(draw, 1, 8), span=pick(draw, [0.01, 0.3, 0.5, 1.0, 3.0]), jd=2457000 + ints(draw, 0, 3000), frac=ints(draw, 0, 99) / 100,
                alt=pick(draw, [0.0, 0.0, -6.0, 20.0, 45.0]), lat=pick(draw, [-30.72152, 0.0, 51.0, -75.0]), lon=pick(draw, [21.4283, 0.0, -120.0, 170.0]), inplace=flag(draw),
                interp=ints(draw, 0, 3) == 0, order=flag(draw), seed=seed(draw))


def check_solar(case, ctx):
    from hera_cal import flag_utils, datacontainer
    from ..uvsim import make_uvd
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], 3
    times = case["jd"] + case["frac"] + np.linspace(0, case["span"], nt + 1)[:nt]
    lat, lon = case["lat"], case["lon"]
    if case["kind"] == "uvd":
        from hera_cal.utils import HERA_TELESCOPE_LOCATION  # noqa: F401
        u = quiet(make_uvd, {0: (0, 0, 0), 1: (14.6, 0, 0), 2: (3.0, 20.0, 0)}, [(0, 1), (0, 0), (1, 2)], ["ee", "nn"], times, np.linspace(1e8, 1.2e8, nf), seed=1, flag_frac=0.2,
                  time_fast=case["order"])
        lat, lon = u.telescope.location.lat.deg, u.telescope.location.lon.deg
    alts = sun_alt(times, lat, lon)
    if np.any(np.abs(alts - case["alt"]) < 0.05):
        return
    up = alts > case["alt"]
    kw = dict(flag_alt=case["alt"], inplace=case["inplace"], interp=False, verbose=False, latitude=case["lat"], longitude=case["lon"])
    if case["interp"] and nt > 3 and case["span"] <= 0.5 and np.all(np.abs(alts - case["alt"]) > 2):
        kw["interp"] = True
    if case["kind"] == "uvd":
        f0 = u.flag_array.copy()
        out = quiet(flag_utils.solar_flag, u, **kw)
        if case["inplace"]:
            require(out is None, "in-place result")
            out = u
        else:
            same(u.flag_array, f0, "caller's flags")
        isup = up[np.searchsorted(times, u.time_array - 1e-9)]
        same(out.flag_array, f0 | isup[:, None, None], f"solar flags of a UVData object (sun at {alts}, limit {case['alt']})")
    elif case["kind"] == "arr":
        f = rng.random((nt, nf)) < 0.3
        f0 = f.copy()
        out = quiet(flag_utils.solar_flag, f, times=times, **kw)
        same(f if case["inplace"] else out, f0 | up[:, None], f"solar flags (sun at {alts}, limit {case['alt']})")
        if not case["inplace"]:
            same(f, f0, "caller's flags")
    else:
        keys = [(0, 1, "ee"), (1, 2, "nn")]
        src = {k: rng.random((nt, nf)) < 0.3 for k in keys}
        dc = datacontainer.DataContainer({k: v.copy() for k, v in src.items()})
        out = quiet(flag_utils.solar_flag, dc, times=times, **kw)
        for k in keys:
            same((dc if case["inplace"] else out)[k], src[k] | up[:, None], f"solar flags of {k}")
            if not case["inplace"]:
                same(dc[k], src[k], "caller's flags")
    with expect_raises((AssertionError,), "array without times"):
        flag_utils.solar_flag(np.zeros((2, 2), dtype=bool))
    ctx.label(case["kind"], f"up={up.any()}/{up.all()}", f"interp={kw['interp']}")
    ctx.nontrivial(up.any() and not up.all())


# ---------------------------------------------------------------- per-antenna flags
def gen_ant(draw):
    return dict(nant=ints(draw, 2, 5), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "en", "ne", "nn"]]), autos=flag(draw), p=pick(draw, [0.1, 0.5, 0.9]), drop=flag(draw),
                dead=ints(draw, -1, 4), deadbl=flag(draw), th=pick(draw, [0.0, 0.25, 0.5, 0.75, 1.0]), seed=seed(draw), rev=flag(draw))


def check_ant(case, ctx):
    from hera_cal import flag_utils, datacontainer
    rng = rng_of(case["seed"])
    sh = (3, 4)
    F = {}
    for i in range(case["nant"]):
        for j in range(i, case["nant"]):
            for pol in case["pols"]:
                if (i == j and not case["autos"]) or (case["drop"] and rng.random() < 0.3):
                    continue
                f = rng.random(sh) < case["p"]
                if case["dead"] in (i, j) or (case["deadbl"] and rng.random() < 0.15):
                    f[:] = True
                F[(j, i, pol) if case["rev"] and i != j and rng.random() < 0.5 else (i, j, pol)] = f
    if not F:
        return
    dc = datacontainer.DataContainer({k: v.copy() for k, v in F.items()})
    got = flag_utils.synthesize_ant_flags(dc, threshold=case["th"])
    for k in F:
        same(dc[k], F[k], "caller's flags")
    ends = {k: ((k[0], "J" + k[2][0] * 2), (k[1], "J" + k[2][1] * 2)) for k in F}
    ants = {a for e in ends.values() for a in e}
    dead = {a for a in ants if all(F[k].all() for k in F if a in ends[k])}
    require(set(got) == ants, f"antennas {sorted(got)}, expected {sorted(ants)}")
    some = False
    for a in ants:
        if a in dead:
            same(got[a], np.ones(sh, bool), f"{a} is dead")
            continue
        use = [k for k in F if a in ends[k] and not (set(ends[k]) & dead)]
        n = sum(ends[k].count(a) for k in use)
        cnt = sum((ends[k].count(a) * F[k].astype(int) for k in use), np.zeros(sh, int))
        exp = (cnt == n) if case["th"] == 1.0 else cnt > case["th"] * n
        exp = exp & (n > 0)
        same(got[a], exp, f"flags of {a} over {n} visibilities at threshold {case['th']}")
        some = some or (exp.any() and not exp.all())
    for bad in (-0.1, 1.1):
        with expect_raises((AssertionError,), f"threshold {bad}"):
            flag_utils.synthesize_ant_flags(dc, threshold=bad)
    ctx.label(f"th={case['th']}", f"dead={len(dead) > 0}")
    ctx.nontrivial(some)


# ---------------------------------------------------------------- factorization
def gen_fac(draw):
    nf = ints(draw, 1, 8)
    cuts = sorted({0, nf} | {ints(draw, 0, nf) for _ in range(ints(draw, 0, 2))})
    return dict(nt=ints(draw, 1, 8), nf=nf, p=pick(draw, [0.05, 0.2, 0.5]), full=flag(draw), chan=flag(draw), th=pick(draw, [0.05, 0.25, 0.5, 0.9]), kind=pick(draw, ["arr", "dc"]),
                spw=pick(draw, ["none", "none", "some", "all"]), cuts=cuts, inplace=flag(draw), seed=seed(draw), mem=flag(draw))


def check_fac(case, ctx):
    from hera_cal import flag_utils, datacontainer
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    F = {}
    for k in [(0, 1, "ee"), (1, 2, "ee")]:
        f = rng.random((nt, nf)) < case["p"]
        if case["full"]:
            f[int(rng.integers(nt))] = True
        if case["chan"]:
            f[:, int(rng.integers(nf))] = True
        F[k] = f
    pairs = list(zip(case["cuts"][:-1], case["cuts"][1:]))
    spws = None if case["spw"] == "none" else pairs if case["spw"] == "all" else pairs[:1]
    kw = dict(time_thresh=case["th"], spw_ranges=spws, inplace=case["inplace"])
    if case["kind"] == "dc":
        arg = datacontainer.DataContainer({k: v.copy() for k, v in F.items()})
        out = quiet(flag_utils.factorize_flags, arg, **kw)
        got = {k: np.asarray((arg if case["inplace"] else out)[k]) for k in F}
        if not case["inplace"]:
            for k in F:
                same(arg[k], F[k], "caller's flags")
    else:
        got = {}
        for k in F:
            arg = F[k].copy()
            out = quiet(flag_utils.factorize_flags, arg, **kw)
            got[k] = arg if case["inplace"] else out
            if not case["inplace"]:
                same(arg, F[k], "caller's flags")
    nt_ = False
    for k, f in F.items():
        g = got[k]
        require(g.shape == f.shape and not np.any(f & ~g), "factorizing removed a flag")
        ch = np.zeros(nf, bool)
        lo, hi = f.copy(), f.copy()
        for a, b in (spws or [(0, nf)]):
            keep = ~hi.all(axis=1)
            n = keep.sum()
            over = np.zeros(nf, bool)
            over[a:b] = (hi[keep, a:b].sum(axis=0) > case["th"] * n + 1e-12) if n else False
            ints_ = (hi[:, a:b] & ~over[a:b]).any(axis=1)
            for x, s in ((lo, slice(a, b)), (hi, slice(0, nf))):
                x[:, over] = True
                x[ints_, s] = True
            ch |= over
        if spws is None or len(spws) == 1:
            require(not np.any(lo & ~g) and not np.any(g & ~hi), f"factorized flags of\n{f.astype(int)}\nare\n{g.astype(int)}\nexpected\n{hi.astype(int)}")
        if spws is None:
            rows, cols = g.all(axis=1), g.all(axis=0)
            same(g, rows[:, None] | cols[None, :], "factorized flags are an outer sum of a time and a channel mask")
            again = quiet(flag_utils.factorize_flags, g.copy(), **dict(kw, inplace=False))
            same(again, g, "factorizing again changes the flags")
        nt_ = nt_ or (g.any() and not g.all() and np.any(g & ~f))
    ctx.label(f"spw={case['spw']}", case["kind"])
    ctx.nontrivial(nt_)


# ---------------------------------------------------------------- boxes and distances
def gen_slices(draw):
    return dict(nt=ints(draw, 1, 7), nf=ints(draw, 1, 9), p=pick(draw, [0.3, 0.8, 0.95]), edges=flag(draw), cuts=[ints(draw, -1, 19) / 2 for _ in range(ints(draw, 0, 3))], asc=flag(draw), seed=seed(draw))


def check_slices(case, ctx):
    from hera_cal import flag_utils
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    f = rng.random((nt, nf)) < case["p"]
    if case["edges"]:
        f[:1], f[-1:], f[:, :1] = True, True, True
    freqs = np.arange(nf, dtype=float)
    cuts = sorted(set(case["cuts"]))
    given = cuts if case["asc"] else cuts[::-1]
    f0 = f.copy()
    ts, bs = flag_utils.get_minimal_slices(f, freqs=freqs if cuts else None, freq_cuts=list(given))
    same(f, f0, "caller's flags")
    require(len(ts) == len(bs) == len(cuts) + 1, f"{len(ts)} slices for {len(cuts)} cuts")
    ed = [-np.inf] + cuts + [np.inf]
    some = 0
    for i in range(len(cuts) + 1):
        inb = (freqs > ed[i]) & (freqs < ed[i + 1])
        good = ~f & inb[None, :]
        if not good.any():
            require(ts[i] is None and bs[i] is None, f"band {i} has no unflagged data but slices {ts[i]}, {bs[i]}")
            continue
        c, r = np.where(good.any(axis=0))[0], np.where(good.any(axis=1))[0]
        require((bs[i].start, bs[i].stop) == (c.min(), c.max() + 1), f"band {i}: {bs[i]}, unflagged channels {c}")
        require((ts[i].start, ts[i].stop) == (r.min(), r.max() + 1), f"band {i}: {ts[i]}, unflagged times {r}")
        some += 1
    if len(cuts) > 0:
        with expect_raises((ValueError,), "cuts without frequencies"):
            flag_utils.get_minimal_slices(f, freqs=None, freq_cuts=cuts)
    # distances
    sh = [(nf,), (nt, nf), (2, nt, nf)][case["seed"] % 3]
    a = np.where(rng.random(sh) < case["p"], 0.0, rng.normal(size=sh))
    if case["asc"]:
        a = a != 0
    d = flag_utils.distance_to_nearest_nonzero(a)
    require(d.shape == a.shape, "shape of the distances")
    for ix in np.ndindex(*sh[:-1]):
        nz = np.where(a[ix] != 0)[0]
        exp = np.array([np.min(np.abs(nz - k)) if len(nz) else np.inf for k in range(nf)], dtype=float)
        same(d[ix], exp, "distance to the nearest non-zero entry")
    ctx.label(f"bands={len(cuts) + 1}", f"ndim={len(sh)}")
    ctx.nontrivial(some > 0 and f.any())


# ---------------------------------------------------------------- flagging of LST stacks
def gen_clip(draw):
    return dict(nn=ints(draw, 1, 9), nbl=ints(draw, 1, 2), nf=ints(draw, 1, 6), mask=pick(draw, ["none", "nan", "ma"]), p=pick(draw, [0.1, 0.4]), th=pick(draw, [1.0, 2.5, 4.0]), minn=pick(draw, [1, 4, 6]),
                ctype=pick(draw, ["direct", "direct", "mean", "median"]), med=pick(draw, [0, 0, 0, 1]), tax=pick(draw, [2, 2, 0]), bands=ints(draw, 0, 2), scale=pick(draw, [None, None, "full", "reduced"]),
                seed=seed(draw), ft=pick(draw, [0.0, 0.3, 0.7, 1.0]), inplace=flag(draw), out=flag(draw))


def check_clip(case, ctx):
    from hera_cal.lst_stack import flagging
    rng = rng_of(case["seed"])
    sh = (case["nn"], case["nbl"], case["nf"])
    x = rng.normal(size=sh)
    if case["out"]:
        x[rng.random(sh) < 0.15] += 20
    bad = np.zeros(sh, bool) if case["mask"] == "none" else rng.random(sh) < case["p"]
    arg = x.copy()
    if case["mask"] == "nan":
        arg[bad] = np.nan
    elif case["mask"] == "ma":
        arg[bad] = 1e3
        arg = np.ma.MaskedArray(arg, mask=bad)
    ax, tax = case["med"], case["tax"]
    scale = None
    if case["scale"]:
        scale = rng.uniform(0.5, 2, size=sh if case["scale"] == "full" else tuple(n for i, n in enumerate(sh) if i != ax))
    bands = None
    if case["bands"] and case["nf"] > 1 and tax == 2:
        bands = [(0, case["nf"] // 2)] + ([(case["nf"] // 2, case["nf"])] if case["bands"] == 2 else [])
    before = np.array(arg)
    got = quiet(flagging.sigma_clip, arg, threshold=case["th"], min_N=case["minn"], median_axis=ax, threshold_axis=tax, clip_type=case["ctype"], flag_bands=bands, scale=scale)
    same(np.array(arg), before, "caller's array")
    require(got.shape == sh and got.dtype == bool, f"clip flags {got.shape} {got.dtype}")
    n1 = False
    if sh[ax] < case["minn"]:
        require(not got.any(), "clipped with fewer than min_N")
    else:
        y = np.where(bad, np.nan, x)
        with np.errstate(all="ignore"):
            med = quiet(np.nanmedian, y, axis=ax, keepdims=True)
            sc = quiet(np.nanmedian, np.abs(y - med), axis=ax, keepdims=True) * 1.482579 if scale is None else scale if scale.ndim == 3 else np.expand_dims(scale, ax)
            z = np.abs(y - med) / (sc * np.ones(sh))
        z[~np.isfinite(z) | (sc * np.ones(sh) == 0)] = np.nan
        for a, b in bands or [(0, sh[tax])]:
            s = [slice(None)] * 3
            s[tax] = slice(a, b)
            s = tuple(s)
            if case["ctype"] == "direct":
                zz = z[s]
            else:
                zz = quiet(dict(mean=np.nanmean, median=np.nanmedian)[case["ctype"]], z[s], axis=tax, keepdims=True) * np.ones(z[s].shape)
            ok = np.isfinite(zz) & (np.abs(zz - case["th"]) > 1e-9)
            same(got[s][ok], (zz > case["th"])[ok], f"{case['ctype']} clipping of band {a}-{b}")
            n1 = n1 or (ok.any() and (zz[ok] > case["th"]).any() and not (zz[ok] > case["th"]).all())
        if bands:
            require(not got[:, :, bands[-1][1]:].any(), "clipped outside of the bands")
    with expect_raises((ValueError,), "complex data"):
        flagging.sigma_clip(x + 1j, min_N=1)
    # threshold on the fraction of flagged nights
    f = rng.random(sh) < case["p"]
    f0 = f.copy()
    out = quiet(flagging.threshold_flags, f, inplace=case["inplace"], flag_thresh=case["ft"])
    same(out, f0 | (f0.sum(axis=0) > case["ft"] * case["nn"] + 1e-9), f"flags above a fraction of {case['ft']}")
    same(f, out if case["inplace"] else f0, "caller's flags")
    ctx.label(case["ctype"], case["mask"], f"scale={case['scale']}")
    ctx.nontrivial(n1)


SUBS = [Sub("solar", gen_solar, check_solar, quick=200), Sub("ant", gen_ant, check_ant, quick=300), Sub("factorize", gen_fac, check_fac, quick=400),
        Sub("slices", gen_slices, check_slices, quick=400), Sub("clip", gen_clip, check_clip, quick=400)]
