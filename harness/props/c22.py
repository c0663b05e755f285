"""C22: times, sidereal times and phase centres convert consistently."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed
from ..lstsim import TWOPI, drift_phase, quiet
from .c18 import sun_alt

RULE = ("clock: Julian dates over 15 years at any site through JD2LST, JD2RA and get_sun_alt, against closed formulae; back: random LSTs (scalar, list, array, beyond a turn) through LST2JD with any start day "
        "and branch cut; phase: random baselines, frequencies and turns through every calling form of lst_rephase, the rotation matrices and the phase factors of coherent averaging; cut: random sets of LSTs. Non-trivial: "
        "more than one time, LST or baseline (phase: a turn and a baseline that are not zero).")
ASSUMPTIONS = ["sidereal times are judged to 0.0002 rad (UT1-UTC and nutation) against the closed formula and to 1 ms against each other", "the altitude of the Sun is judged to 0.05 degrees",
               "days around leap seconds are not judged", "the phase factor of coherent averaging is defined for the opposite orientation of the baseline to lst_rephase"]
SITES = [(-30.721526120689507, 21.428303826863015), (0.0, 0.0), (51.0, -120.0), (-75.0, 170.0), (38.4, -79.8)]

LEAPS = [2456109, 2457204, 2457754]          # days with a leap second have no uniform Julian date


def gmst(jd):
    n = np.asarray(jd, dtype=float) - 2451545.0
    return np.deg2rad((280.46061837 + 360.98564736629 * n) % 360.0)


def wrapped(x):
    return (np.asarray(x) + np.pi) % TWOPI - np.pi


# ---------------------------------------------------------------- JD -> LST, RA, Sun
def gen_clock(draw):
    return dict(n=ints(draw, 1, 4), kind=pick(draw, ["scalar", "list", "array"]), site=ints(draw, 0, 4), seed=seed(draw), default=flag(draw))


def check_clock(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    lat, lon = SITES[case["site"]]
    jds = np.sort(2455200.0 + rng.uniform(0, 5500, size=case["n"]))
    jds = np.where(np.min(np.abs(jds[:, None] - np.array(LEAPS)), axis=1) < 4, jds + 10, jds)
    kw = dict(latitude=lat, longitude=lon)
    if case["default"] and case["site"] == 0:
        kw = {}
    arg = float(jds[0]) if case["kind"] == "scalar" else list(jds) if case["kind"] == "list" else jds.copy()
    lst = quiet(utils.JD2LST, arg, **kw)
    n = 1 if case["kind"] == "scalar" else len(jds)
    require(np.shape(lst) == (() if case["kind"] == "scalar" else (n,)), f"shape {np.shape(lst)} of the LSTs for a {case['kind']}")
    if case["kind"] == "array":
        same(arg, jds, "caller's times")
    L = np.atleast_1d(lst)
    require(np.all((L >= 0) & (L < TWOPI)), f"LST {L} outside [0, 2 pi)")
    close(np.abs(wrapped(L - gmst(jds[:n]) - np.deg2rad(lon))), np.zeros(n), f"LSTs {L} at {jds[:n]}", atol=2e-4, rtol=0)
    # a degree east is a degree later
    L2 = np.atleast_1d(quiet(utils.JD2LST, arg, latitude=lat, longitude=lon + 15.0))
    close(np.abs(wrapped(L2 - L - np.deg2rad(15.0))), np.zeros(n), "LST 15 degrees further east", atol=1e-9, rtol=0)
    # a (short) time later
    dt = 300.0 / 86400
    L3 = quiet(utils.JD2LST, jds[:n] + dt, **kw)
    close(np.abs(wrapped(L3 - L - TWOPI * dt / 0.99726956633)), np.zeros(n), "LST five minutes later", atol=3e-7, rtol=0)
    ra = quiet(utils.JD2RA, arg, **kw)
    require(np.shape(ra) == np.shape(lst), f"shape {np.shape(ra)} of the right ascensions")
    close(np.atleast_1d(ra), np.rad2deg(L), "right ascension of the zenith", atol=1e-7, rtol=0)
    if case["seed"] % 4 == 0 and abs(lat) < 70:
        ra0 = np.deg2rad(np.atleast_1d(quiet(utils.JD2RA, arg, epoch="J2000", **kw)))
        yr = (jds[:n] - 2451545.0) / 365.25
        d = np.deg2rad(lat)
        prec = np.deg2rad((3.075 + 1.336 * np.sin(L) * np.tan(d)) * 15 / 3600) * yr
        close(np.abs(wrapped(ra0 - (L - prec))), np.zeros(n), "J2000 right ascension of the zenith", atol=np.deg2rad(0.03) / np.cos(d), rtol=0)
        with expect_raises((ValueError,), "an unknown epoch"):
            utils.JD2RA(arg, epoch="B1950")
    alt = quiet(utils.get_sun_alt, arg if case["kind"] != "list" else list(jds), **kw)
    require(np.shape(alt) == np.shape(lst), f"shape {np.shape(alt)} of the Sun's altitudes")
    close(np.atleast_1d(alt), sun_alt(jds[:n], lat, lon), "altitude of the Sun", atol=0.05, rtol=0)
    ctx.label(case["kind"], f"site={case['site']}")
    ctx.nontrivial(n > 1)


# ---------------------------------------------------------------- LST -> JD
def gen_back(draw):
    return dict(n=ints(draw, 1, 12), kind=pick(draw, ["scalar", "list", "array", "array"]), site=ints(draw, 0, 4), other=flag(draw), day=2455200 + ints(draw, 0, 5500),
                cut=pick(draw, [0.0, 0.0, 1.0, 3.0, 5.0, 6.2, "rand", "rand"]), wide=flag(draw), seed=seed(draw))


def check_back(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    lat, lon = SITES[case["site"]]
    if any(abs(case["day"] - leap) < 4 for leap in LEAPS):
        return
    cut = float(rng.uniform(0, TWOPI)) if case["cut"] == "rand" else case["cut"]
    lsts = rng.uniform(-TWOPI, 2 * TWOPI, size=case["n"]) if case["wide"] else rng.uniform(0, TWOPI, size=case["n"])
    if case["n"] > 2:
        lsts[0] = cut
    arg = float(lsts[0]) if case["kind"] == "scalar" else list(lsts) if case["kind"] == "list" else lsts.copy()
    n = 1 if case["kind"] == "scalar" else len(lsts)
    jd = quiet(utils.LST2JD, arg, start_jd=case["day"], allow_other_jd=case["other"], lst_branch_cut=cut, latitude=lat, longitude=lon)
    require(np.shape(jd) == (() if case["kind"] == "scalar" else (n,)), f"shape {np.shape(jd)} of the JDs for a {case['kind']}")
    if case["kind"] == "array":
        same(arg, lsts, "caller's LSTs")
    J = np.atleast_1d(jd)
    got = np.atleast_1d(quiet(utils.JD2LST, J, latitude=lat, longitude=lon))
    inside = lsts[:n] < cut + 2 * TWOPI            # the interpolation is anchored around the day
    close(wrapped(got - lsts[:n])[inside], np.zeros(inside.sum()), f"LSTs of the JDs of {lsts[:n]}", atol=2e-7 if not case["wide"] else 1e-6, rtol=0)
    if not case["other"]:
        require(np.all(np.floor(J) == case["day"]), f"JDs {J} of {lsts[:n]} are not all on day {case['day']}")
    else:
        jc = float(quiet(utils.LST2JD, cut, start_jd=case["day"], allow_other_jd=True, lst_branch_cut=cut, latitude=lat, longitude=lon))
        require(np.floor(jc) == case["day"], f"the branch cut falls on {jc}, not on day {case['day']}")
        turns = (lsts[:n] - cut) % TWOPI if not case["wide"] else np.where(lsts[:n] < cut, (lsts[:n] - cut) % TWOPI, lsts[:n] - cut)
        close(J - jc, turns / TWOPI * 0.99726956633, "time since the branch cut", atol=3e-7, rtol=0)
    ctx.label(f"other={case['other']}", case["kind"])
    ctx.nontrivial(n > 1)


# ---------------------------------------------------------------- phase centres
def gen_phase(draw):
    return dict(nt=ints(draw, 1, 4), nbl=ints(draw, 1, 3), nf=ints(draw, 1, 4), npol=ints(draw, 1, 2), form=pick(draw, ["dc", "dict", "arr", "arrpol", "single"]), inplace=flag(draw),
                dl=pick(draw, ["scalar", "list", "array"]), lat=pick(draw, [-30.72152, 0.0, 45.0, -89.0]), size=pick(draw, [1e-4, 0.05, 1.0]), rev=flag(draw), seed=seed(draw), c64=flag(draw))


def check_phase(case, ctx):
    from hera_cal import utils, datacontainer
    rng = rng_of(case["seed"])
    nt, nbl, nf, npol = case["nt"], case["nbl"], case["nf"], case["npol"]
    ap = rng.normal(scale=30, size=(nbl + 1, 3))
    freqs = np.sort(rng.uniform(5e7, 2.5e8, size=nf))
    dl = rng.normal(scale=case["size"], size=nt)
    if case["dl"] == "scalar":
        dl[:] = dl[0]
    dlst = float(dl[0]) if case["dl"] == "scalar" else list(dl) if case["dl"] == "list" else dl.copy()
    dt = np.complex64 if case["c64"] else complex
    tol = 3e-5 if case["c64"] else 1e-9
    data = (rng.normal(size=(nt, nbl, nf, npol)) + 1j * rng.normal(size=(nt, nbl, nf, npol))).astype(dt)
    pairs = [(0, k + 1) for k in range(nbl)]
    vec = np.array([ap[i] - ap[j] for i, j in pairs])
    exp = data * np.stack([drift_phase(ap[i], ap[j], freqs, dl, case["lat"]) for i, j in pairs], axis=1)[..., None]
    pols = ["ee", "en"][:npol]
    kw = dict(lat=case["lat"], inplace=case["inplace"])
    form = case["form"]
    if form in ("dc", "dict"):
        d = {(i, j, p): data[:, k, :, m].copy() for k, (i, j) in enumerate(pairs) for m, p in enumerate(pols)}
        b = {(i, j, p): vec[k] for k, (i, j) in enumerate(pairs) for p in pols}
        if form == "dc":
            d = datacontainer.DataContainer(d)
        out = quiet(utils.lst_rephase, d, b, freqs, dlst, **kw)
        res = d if case["inplace"] else out
        require(type(res) is type(d) and set(res.keys()) == set(b), f"keys {list(res.keys())}")
        for k, (i, j) in enumerate(pairs):
            for m, p in enumerate(pols):
                close(res[(i, j, p)], exp[:, k, :, m], f"rephased {(i, j, p)}", rtol=tol, atol=tol)
                if not case["inplace"]:
                    same(d[(i, j, p)], data[:, k, :, m], "caller's data")
    else:
        a = data[:, :, :, 0].copy() if form == "arr" else data.copy() if form == "arrpol" else data[:, 0, :, 0].copy()
        a0 = a.copy()
        out = quiet(utils.lst_rephase, a, vec[0] if form == "single" else vec, freqs, dlst, array=form == "single", **kw)
        res = a if case["inplace"] else out
        e = exp[:, :, :, 0] if form == "arr" else exp if form == "arrpol" else exp[:, 0, :, 0]
        require(res.shape == e.shape, f"shape {res.shape}")
        close(res, e, f"rephased array by {dl}", rtol=tol, atol=tol)
        if not case["inplace"]:
            same(a, a0, "caller's data")
    # the reversed baseline holds the conjugate, before and after
    if not case["c64"]:
        back = quiet(utils.lst_rephase, np.conj(data[:, :, :, 0]), -vec, freqs, dlst, lat=case["lat"], inplace=False)
        close(back, np.conj(exp[:, :, :, 0]), "conjugate baselines", rtol=tol, atol=tol)
    # rotations
    ha = dl if case["dl"] != "scalar" else float(dl[0])
    dec = np.deg2rad(case["lat"])
    R, Q = utils.eq2top_m(ha, dec), utils.top2eq_m(ha, dec)
    require(R.shape == np.shape(ha) + (3, 3) and Q.shape == R.shape, f"shapes {R.shape}, {Q.shape}")
    close(np.einsum("...ij,...jk->...ik", R, Q), np.broadcast_to(np.eye(3), R.shape), "to topocentric and back", atol=1e-12, rtol=0)
    close(np.linalg.det(R), np.ones(R.shape[:-2]), "determinant", rtol=1e-10)
    # coherent averaging
    lat = np.deg2rad(case["lat"])
    secs = dl / TWOPI * 86164.0905
    t2 = np.add.outer(secs, np.arange(2) * 40.0)
    for k, (i, j) in enumerate(pairs):
        ph = utils.get_phase_factor(vec[k], lat, freqs, t2)
        require(ph.shape == (nf, nt, 2), f"shape {ph.shape} of the phase factor")
        close(ph, np.moveaxis(np.conj(drift_phase(ap[i], ap[j], freqs, t2 * TWOPI / 86164.0905, case["lat"])), -1, 0), "phase factor of coherent averaging", rtol=1e-6, atol=1e-6)
        close(np.exp(2j * np.pi * utils.compute_dtau(vec[k], lat, t2)[None] * freqs[:, None, None]), ph, "delay of coherent averaging", rtol=1e-7, atol=1e-7)
    ctx.label(form, case["dl"], f"inplace={case['inplace']}")
    ctx.nontrivial(np.any(np.abs(exp - data) > 1e-3))


# ---------------------------------------------------------------- branch cut
def gen_cut(draw):
    return dict(n=ints(draw, 1, 8), lo=ints(draw, 0, 62) / 10, width=pick(draw, [0.1, 1.0, 4.0, 6.2]), turns=flag(draw), dup=flag(draw), seed=seed(draw))


def check_cut(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    lsts = (case["lo"] + rng.uniform(0, case["width"], size=case["n"])) % TWOPI
    if case["dup"]:
        lsts = np.concatenate([lsts, lsts[:1]])
    arg = lsts + TWOPI * rng.integers(-1, 2, size=len(lsts)) if case["turns"] else lsts.copy()
    a0 = arg.copy()
    cut = float(quiet(utils.get_best_lst_branch_cut, arg))
    same(arg, a0, "caller's LSTs")
    require(0 <= cut < TWOPI + 1e-12, f"cut {cut}")
    ref = np.sort(arg % TWOPI)
    gaps = np.diff(np.concatenate([ref, ref[:1] + TWOPI]))
    # what users do with it: everything below the cut goes a turn further
    un = np.where(ref < cut, ref + TWOPI, ref)
    span = un.max() - un.min()
    require(abs(span - (TWOPI - gaps.max())) < 1e-6, f"unwrapped at {cut!r} the LSTs {ref} span {span}, the smallest possible span is {TWOPI - gaps.max()}")
    ctx.label(f"wraps={bool(np.any(ref < cut))}")
    ctx.nontrivial(len(ref) > 1 and gaps.max() < TWOPI)


SUBS = [
    Sub("clock", gen_clock, check_clock, quick=250, thorough=3000, shards=2),
    Sub("back", gen_back, check_back, quick=600, thorough=12000, shards=2),
    Sub("phase", gen_phase, check_phase, quick=1000, thorough=20000, shards=2),
    Sub("cut", gen_cut, check_cut, quick=1500, thorough=30000),
]
