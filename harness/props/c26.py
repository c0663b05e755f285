"""C26: predicted noise follows the radiometer equation; smooth gain models from autos follow their definitions."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import quiet

RULE = ("var: random autocorrelations for 2-4 antennas and 1-4 polarizations; est: random waterfalls and differencing kernels; dt: times per baseline with baseline-dependent averaging; gp: random series with flags, mirroring, "
        "thinning and other evaluation points, against the closed Gaussian-process formula; temp: autocorrelations with slow trends through gains_from_autos, avg_gain_ants and normalize_tempgains. Non-trivial: more than one antenna or sample "
        "and (gp, temp) some but not all samples flagged.")
ASSUMPTIONS = ["Gaussian-process results are judged to 1e-4 of the data with noise levels that keep the covariance well conditioned", "flags of gains from autos are not judged where the smooth model happens to be near zero"]


# ---------------------------------------------------------------- radiometer equation
def gen_var(draw):
    return dict(nant=ints(draw, 2, 4), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 4), nf=ints(draw, 1, 5), dt=pick(draw, [None, None, 10.7]), df=pick(draw, [None, None, 1e5]), desc=flag(draw),
                ns=flag(draw), auto=pick(draw, [None, None, 0]), seed=seed(draw))


def check_var(case, ctx):
    from hera_cal import noise, datacontainer
    rng = rng_of(case["seed"])
    nt, nf, n = case["nt"], case["nf"], case["nant"]
    times = 2458838.2 + np.arange(nt) * 10.7 / 86400
    freqs = 1.2e8 + 97656.25 * np.arange(nf)
    D = {}
    for i in range(n):
        for j in range(i, n):
            for p in case["pols"]:
                D[(i, j, p)] = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
                if i == j and p[0] == p[1]:
                    D[(i, j, p)] = np.abs(D[(i, j, p)]) + 0.5 + 0j
    dc = datacontainer.DataContainer({k: v.copy() for k, v in D.items()})
    dc.times, dc.freqs = times, freqs
    dc.times_by_bl = {q: times for k in D for q in (k[:2], k[1::-1])}
    N = datacontainer.DataContainer({k: rng.integers(1, 9, size=(nt, nf)).astype(float) for k in D})
    kw = dict(dt=case["dt"], df=case["df"])
    if (nt == 1 and case["dt"] is None) or (nf == 1 and case["df"] is None):
        return
    dt, df = case["dt"] or 10.7, case["df"] or 97656.25
    for k in sorted(D):
        for q in (k, (k[1], k[0], k[2][::-1])):
            if q not in dc:
                continue
            if q[0] == q[1] and q != k:
                continue
            a1 = (q[0], q[0], q[2][0] * 2) if case["auto"] is None else (case["auto"],) * 2 + (q[2][0] * 2,)
            a2 = (q[1], q[1], q[2][1] * 2) if case["auto"] is None else (case["auto"],) * 2 + (q[2][1] * 2,)
            if a1 not in D or a2 not in D:
                continue
            exp = np.abs(D[a1]) * np.abs(D[a2]) / dt / df
            if case["ns"]:
                exp = exp / N[q]
            got = quiet(noise.predict_noise_variance_from_autos, q, dc, nsamples=N if case["ns"] else None, auto_ant=case["auto"], **kw)
            close(got, exp, f"noise variance of {q}", rtol=1e-6, atol=0)
    std = quiet(noise.per_antenna_noise_std, dc, **kw)
    want = {k for k in D if k[0] == k[1] and k[2][0] == k[2][1]}
    require(set(std.keys()) == want, f"noise for {sorted(std.keys())}, expected {sorted(want)}")
    for k in want:
        close(std[k], np.abs(D[k]) / np.sqrt(dt * df), f"noise of {k}", rtol=1e-6, atol=0)
    for k in D:
        same(dc[k], D[k], "caller's data")
    ctx.label(f"auto={case['auto']}", f"ns={case['ns']}")
    ctx.nontrivial(nt > 1 and nf > 1)


# ---------------------------------------------------------------- differencing
def gen_est(draw):
    return dict(nt=ints(draw, 3, 7), nf=ints(draw, 3, 8), kind=pick(draw, ["default", "time", "freq", "asym"]), seed=seed(draw))


def check_est(case, ctx):
    from hera_cal import noise
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    vis = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    K = {"default": [[1, -2, 1], [-2, 4, -2], [1, -2, 1]], "time": [[1], [-2], [1]], "freq": [[1, -2, 1]], "asym": [[1, 0, -3], [2, 1, -1], [0, 0, 0]]}[case["kind"]]
    v0 = vis.copy()
    got = noise.interleaved_noise_variance_estimate(vis) if case["kind"] == "default" else noise.interleaved_noise_variance_estimate(vis, kernel=K)
    same(vis, v0, "caller's data")
    K = np.array(K)
    c = ((K.shape[0] - 1) // 2, (K.shape[1] - 1) // 2)
    acc = np.zeros_like(vis)
    for a in range(K.shape[0]):
        for b in range(K.shape[1]):
            acc += K[a, b] * np.roll(vis, (a - c[0], b - c[1]), axis=(0, 1))
    close(got, np.abs(acc) ** 2 / np.sum(K ** 2.0), "noise variance by differencing", rtol=1e-9, atol=1e-12)
    const = noise.interleaved_noise_variance_estimate(np.full((nt, nf), 3 - 2j), kernel=K.tolist())
    close(const, np.zeros((nt, nf)), "noise of a constant", atol=1e-20)
    with expect_raises((AssertionError,), "a kernel that does not sum to zero"):
        noise.interleaved_noise_variance_estimate(vis, kernel=[[1, 1]])
    with expect_raises((AssertionError,), "a 1D kernel"):
        noise.interleaved_noise_variance_estimate(vis, kernel=[1, -1])
    ctx.label(case["kind"])
    ctx.nontrivial(True)


# ---------------------------------------------------------------- integration times
def gen_dt(draw):
    return dict(lens=[pick(draw, [8, 4, 2, 1, 1, 0]) for _ in range(ints(draw, 1, 4))], default=flag(draw), pol=flag(draw), gap=flag(draw), seed=seed(draw))


def check_dt(case, ctx):
    from hera_cal import noise
    tot = 80.0
    T = {(0, k + 1): 2458838 + (np.arange(n) + 0.5) * tot / n / 86400 if n else np.array([]) for k, n in enumerate(case["lens"])}
    gap = case.get("gap") and 2 not in case["lens"]
    if gap:  # a break half way through, common to all baselines, is not integration time
        T = {k: t + np.where(np.arange(len(t)) >= len(t) / 2, 300.0, 0.0) / 86400 for k, t in T.items()}
    for k, n in enumerate(case["lens"]):
        bl = (0, k + 1, "ee") if case["pol"] else (0, k + 1)
        kw = dict(default_dt=123.0) if case["default"] else {}
        if n > 0 and (n > 1 or any(m > 1 for m in case["lens"])):
            close(noise.infer_dt(T, bl, **kw) * 86400, tot / n, f"integration time of {bl} in {case['lens']}", rtol=1e-3, atol=0)
        elif case["default"]:
            require(noise.infer_dt(T, bl, **kw) == 123.0, "default integration time")
        else:
            with expect_raises((ValueError,), "an integration time that cannot be inferred"):
                noise.infer_dt(T, bl)
    ctx.label(f"n={len(case['lens'])},gap={bool(gap)}")
    ctx.nontrivial(len(set(case["lens"])) > 1)


# ---------------------------------------------------------------- Gaussian processes
def gen_gp(draw):
    return dict(n=ints(draw, 4, 14), nv=ints(draw, 1, 4), ls=pick(draw, [0.5, 1.5, 4.0]), nl=pick(draw, [1e-6, 1e-4, 1e-2]), cplx=flag(draw), p=pick(draw, [0.0, 0.2, 0.5]), mirror=pick(draw, [0, 0, 1, 3]), thin=pick(draw, [None, None, 2]),
                ev=flag(draw), full=flag(draw), junk=pick(draw, ["none", "big", "nan"]), oned=flag(draw), const=flag(draw), seed=seed(draw))


def gp_ref(x, y, f, xe, ls, nl):
    """Closed formula for one real series; prior mean the median and scale the MAD of the unflagged data."""
    ok = ~f
    if not ok.any():
        return np.zeros(len(xe))
    med = np.median(y[ok])
    mad = np.median(np.abs(y[ok] - med)) * 1.4826
    if np.isclose(mad, 0):
        mad = 1.0
    X = x[ok]
    K = np.exp(-0.5 * ((X[:, None] - X[None, :]) / ls) ** 2) + (nl + 1e-10) * np.eye(len(X))
    k = np.exp(-0.5 * ((xe[:, None] - X[None, :]) / ls) ** 2)
    return k @ np.linalg.solve(K, (y[ok] - med) / mad) * mad + med


def check_gp(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    n, nv = case["n"], 1 if case["oned"] else case["nv"]
    x = np.arange(n, dtype=float)
    y = rng.normal(size=(n, nv)) + (5 if case["const"] else 0)
    if case["cplx"]:
        y = y + 1j * rng.normal(size=(n, nv))
    f = rng.random((n, nv)) < case["p"]
    if case["full"]:
        f[:, 0] = True
    arg = y.copy()
    if case["junk"] != "none":
        arg[f] = 1e3 if case["junk"] == "big" else np.nan
    xe = np.sort(rng.uniform(0, n - 1, size=5)) if case["ev"] else None
    thin = case["thin"] if case["thin"] is None or case["thin"] < n // 2 else None
    m = case["mirror"] if case["mirror"] < len(x[::thin or 1]) else 0
    a0, f0 = arg.copy(), f.copy()
    got = quiet(utils.gp_interp1d, x, arg[:, 0] if case["oned"] else arg, x_eval=xe, flags=f, length_scale=case["ls"], nl=case["nl"], Nmirror=m, xthin=thin)
    same(arg, a0, "caller's data")
    same(f, f0, "caller's flags")
    X, Y, FL = x[::thin or 1], y[::thin or 1], f[::thin or 1]
    if m:
        lo, hi = np.arange(m, 0, -1), np.arange(len(X) - 2, len(X) - 2 - m, -1)
        X, Y, FL = (np.concatenate([2 * X[0] - X[lo], X, 2 * X[-1] - X[hi]]), np.concatenate([Y[lo], Y, Y[hi]]), np.concatenate([FL[lo], FL, FL[hi]]))
    ev = x if xe is None else xe
    require(got.shape == (len(ev), nv), f"shape {got.shape}")
    for v in range(nv):
        exp = gp_ref(X, Y[:, v].real, FL[:, v], ev, case["ls"], case["nl"])
        if case["cplx"]:
            exp = exp + 1j * gp_ref(X, Y[:, v].imag, FL[:, v], ev, case["ls"], case["nl"])
        close(got[:, v], exp, f"series {v} with {FL[:, v].sum()} of {len(X)} flagged ({case['junk']} under the flags)", rtol=2e-4, atol=2e-4)
    ctx.label(case["junk"], f"mirror={m}", f"thin={thin}")
    ctx.nontrivial(f.any() and not f.all())


# ---------------------------------------------------------------- gains from autocorrelations
def gen_temp(draw):
    return dict(nant=ints(draw, 1, 3), nt=ints(draw, 8, 16), nf=ints(draw, 4, 9), frate=pick(draw, [0.5, 2.0]), edge=pick(draw, [0, 1, [1, 2]]), avg=flag(draw), p=pick(draw, [0.0, 0.2]), flags=flag(draw), kind=pick(draw, ["arr", "dc", "dc"]),
                thin=pick(draw, [None, None, 2]), mirror=pick(draw, [0, 3]), cross=flag(draw), inplace=flag(draw), sub=flag(draw), seed=seed(draw))


def check_temp(case, ctx):
    from hera_cal import tempcal, utils, datacontainer
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    times = 2458838.2 + np.arange(nt) * 120.0 / 86400
    keys = [(a, a, "ee") for a in range(case["nant"])]
    D, F = {}, {}
    for k in keys:
        trend = 10 + np.cos(2 * np.pi * np.arange(nt) / nt / 2 + rng.uniform(0, 6))
        D[k] = trend[:, None] * rng.uniform(1, 2, size=nf)[None, :] * (1 + 0.05 * rng.normal(size=(nt, 1)))
        F[k] = np.repeat(rng.random((nt, 1)) < case["p"], nf, axis=1)
        if F[k].sum(axis=0).max() > nt // 2:
            F[k][:] = False
    kw = dict(smooth_frate=case["frate"], nl=1e-4, Nmirror=case["mirror"], edgeflag=tuple(case["edge"]) if isinstance(case["edge"], list) else case["edge"], freq_avg=case["avg"], xthin=case["thin"])
    ex = tuple(case["edge"]) if isinstance(case["edge"], list) else (case["edge"],) * 2
    use = {k: F[k].copy() if case["flags"] else np.zeros((nt, nf), bool) for k in keys}
    if case["kind"] == "arr":
        keys = keys[:1]
        f = F[keys[0]].copy() if case["flags"] else None
        g, gf, s = quiet(tempcal.gains_from_autos, D[keys[0]].copy(), times, flags=f, **kw)
        if case["flags"]:
            same(f, F[keys[0]], "caller's flags")
        g, gf, s = {(0, "Jee"): g}, {(0, "Jee"): gf}, {keys[0]: s}
    else:
        d = {k: D[k].copy() for k in keys}
        if case["cross"]:
            d[(0, 1, "ee")] = np.ones((nt, nf), complex)
            d[(0, 0, "en")] = np.ones((nt, nf), complex)
        dc = datacontainer.DataContainer(d)
        fc = datacontainer.DataContainer({k: F[k].copy() if k in F else np.zeros((nt, nf), bool) for k in d}) if case["flags"] else None
        want = keys[:1] if case["sub"] else keys
        g, gf, s = quiet(tempcal.gains_from_autos, dc, times, flags=fc, keys=want if case["sub"] else None, **kw)
        keys = want
        require(set(g) == {(k[0], "Jee") for k in keys} and set(s.keys()) == set(keys), f"gains for {sorted(g)}")
    ls = 1.0 / (case["frate"] * 1e-3) / 86400
    some = False
    for k in keys:
        a = (k[0], "Jee")
        fl = use[k].copy()
        if ex[0]:
            fl[:, :ex[0]] = True
        if ex[1]:
            fl[:, nf - ex[1]:] = True
        dead = fl.all(axis=0)
        sm = quiet(utils.gp_interp1d, times, D[k], flags=fl, length_scale=ls, nl=1e-4, Nmirror=case["mirror"], xthin=case["thin"])
        close(s[k], sm, f"smooth model of {k}", rtol=1e-7, atol=1e-7)
        if np.any(sm[:, ~dead] < 0.1):
            ctx.label("model not positive")
            continue
        ratio = np.sqrt(D[k] / np.where(dead[None, :], 1, sm))
        if case["avg"]:
            exp = np.repeat(np.median(ratio[:, ~dead], axis=1, keepdims=True), nf, axis=1) if not dead.all() else np.ones((nt, nf))
            close(g[a], exp, f"gain of {a}", rtol=1e-7, atol=1e-9)
            same(gf[a], np.full((nt, nf), bool(dead.all())), f"gain flags of {a}")
        else:
            close(g[a][:, ~dead], ratio[:, ~dead], f"gain of {a}", rtol=1e-7, atol=1e-9)
            same(gf[a], np.repeat(dead[None, :], nt, axis=0), f"gain flags of {a}")
            require(np.all(np.isfinite(g[a])), f"gain of {a} is not finite")
        some = some or (fl.any() and not fl.all())
    # averages
    G = {(a, "Jee"): rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf)) + 3 for a in range(4)}
    GF = {k: rng.random((nt, nf)) < 0.3 for k in G}
    sel = [(a, "Jee") for a in range(1, 2 + case["nant"])] + [(77, "Jee")]
    g1, f1 = {k: v.copy() for k, v in G.items()}, {k: v.copy() for k, v in GF.items()}
    res = quiet(tempcal.avg_gain_ants, g1, sel, gflags=f1 if case["flags"] else None, inplace=case["inplace"])
    rg, rf = (g1, f1) if case["inplace"] else res
    have = [k for k in sel if k in G]
    w = [(~GF[k] if case["flags"] else np.ones((nt, nf), bool)).astype(float) for k in have]
    mean = sum(G[k] * x for k, x in zip(have, w)) / np.maximum(sum(w), 1e-10)
    anyf = np.any([GF[k] for k in have], axis=0)
    for k in G:
        close(rg[k], mean if k in have else G[k], f"averaged gain of {k}", rtol=1e-9, atol=1e-9)
        if case["flags"]:
            same(rf[k], anyf if k in have else GF[k], f"averaged flags of {k}")
        if not case["inplace"]:
            same(g1[k], G[k], "caller's gains")
            same(f1[k], GF[k], "caller's flags")
    # normalization
    tn = times[int(rng.integers(nt))] + 1e-5
    ti = int(np.argmin(np.abs(times - tn)))
    arr = case["kind"] == "arr"
    src = G[(0, "Jee")].copy() if arr else {k: v.copy() for k, v in G.items()}
    out = quiet(tempcal.normalize_tempgains, src, times, tn, inplace=case["inplace"])
    res = src if case["inplace"] else out
    for k in [(0, "Jee")] if arr else G:
        close(res if arr else res[k], G[k] / np.abs(G[k][ti]), f"normalized gain of {k}", rtol=1e-9, atol=0)
        if not case["inplace"]:
            same(src if arr else src[k], G[k], "caller's gains")
    ctx.label(case["kind"], f"avg={case['avg']}", f"thin={case['thin']}")
    ctx.nontrivial(some)


SUBS = [
    Sub("var", gen_var, check_var, quick=300, thorough=6000),
    Sub("est", gen_est, check_est, quick=200, thorough=4000),
    Sub("dt", gen_dt, check_dt, quick=300, thorough=4000),
    Sub("gp", gen_gp, check_gp, quick=500, thorough=10000, shards=2),
    Sub("temp", gen_temp, check_temp, quick=250, thorough=5000, shards=2),
]
