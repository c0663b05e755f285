"""C28: nightly variances, Z-scores, their selections and their predicted distributions follow their definitions."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import quiet
from ..uvsim import freqs_of, make_uvd

RULE = ("zsq: random LST stacks (1-6 nights, 1-4 polarizations, flags, inpainted samples with negative nsamples, non-finite data) with random autos, reduced by reduce_lst_bins; select: random metric stacks with random selections by pair, polarization, band, night, "
        "callables, flags; reduce: random arrays over all sets of axes; bls: selectors and minimum days; dists: all distributions against chi-squared ones and random mixtures. Non-trivial: more than one unflagged night somewhere, a selection that drops something, "
        "or a mixture of several counts.")
ASSUMPTIONS = ["Z-scores of flagged or inpainted samples and of samples that are the only one of their bin are only judged where a function documents them (NaN in the flagged variant)", "counts of 1 are not part of generated mixtures (their mean Z^2 is identically 0)"]
POLS = [["ee"], ["ee", "nn"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]


def stack_of(case, rng, pairs, nn=None):
    from hera_cal.lst_stack.binning import LSTStack
    enu = {a: np.array([14.6 * a, 3.0 * a * a, 0.0]) for a in range(5)}
    times = 2459844.1 + np.cumsum(rng.integers(1, 3, size=nn or case["nn"])) * 0.99726957
    u = quiet(make_uvd, enu, pairs, case["pols"], times, freqs_of(case["nf"], df=case["df"]), seed=1, flag_frac=0.0, time_fast=False, orient=case["xo"])
    u.data_array = u.data_array.astype(complex)
    u.nsample_array = u.nsample_array.astype(float)
    u.integration_time[:] = case["dt"]
    st = LSTStack(u)
    require([tuple(map(int, q)) for q in st.antpairs] == pairs and len(st.times) == (nn or case["nn"]), "harness: antpair order")
    return st


def gen_zsq(draw):
    allp = [(a, b) for a in range(4) for b in range(a + 1, 4)]
    return dict(nn=ints(draw, 1, 6), nf=ints(draw, 2, 6), pols=pick(draw, POLS), pairs=[p if flag(draw) else p[::-1] for p in subset(draw, allp, 1, 4)], dt=pick(draw, [10.7, 300.0]), df=pick(draw, [1e5, 122070.3125]), xo=pick(draw, ["east", "north"]),
                flags=pick(draw, [0.0, 0.2, 0.6]), inp=pick(draw, [0.0, 0.0, 0.2]), bad=pick(draw, [0.0, 0.0, 0.05]), central=pick(draw, ["mean", "mean", "median"]), std=pick(draw, ["autos", "autos", "std", "mad"]), ns=flag(draw), imode=flag(draw), seed=seed(draw))


def check_zsq(case, ctx):
    from hera_cal.lst_stack import averaging, metrics
    rng = rng_of(case["seed"], "zsq")
    pairs, pols = [tuple(p) for p in case["pairs"]], case["pols"]
    st = stack_of(case, rng, pairs)
    D, N, F = st.data, st.nsamples, st.flags
    sh = D.shape
    D[:] = (rng.normal(size=sh) + 1j * rng.normal(size=sh)) * rng.uniform(0.5, 3.0, size=sh[1:]) + rng.normal(size=sh[1:])
    N[:] = rng.integers(1, 9, size=sh) if case["ns"] else 1
    F[:] = rng.random(sh) < case["flags"]
    N[rng.random(sh) < case["inp"]] *= -1
    D[rng.random(sh) < case["bad"]] = np.nan
    ants = sorted({a for p in pairs for a in p})
    A = {(a, p): rng.uniform(1, 50, size=case["nf"]) * 10 for a in ants for p in ("ee", "nn")}
    mean = {(a, a, p): (A[a, p] + 0j if p[0] == p[1] else rng.normal(size=case["nf"]) + 1j * rng.normal(size=case["nf"])) for a in ants for p in set(pols) | {"ee", "nn"}}
    apols = sorted({k[2] for k in mean})
    arr = np.array([[mean[a, a, p] for p in apols] for a in ants]).transpose(0, 2, 1)
    auto = metrics.LSTBinStats.from_reduced_data([(a, a) for a in ants], apols, dict(data=arr, std=np.abs(arr), nsamples=np.ones(arr.shape), flags=np.zeros(arr.shape, dtype=bool), days_binned=np.ones(arr.shape, dtype=int), median=None, mad=None))
    for k in mean:
        same(auto.mean[k], mean[k], f"statistics of auto {k}")
    before = [x.copy() for x in (D, N, F)]

    def var(k, m):
        (i, j), p = pairs[k], pols[m]
        with np.errstate(divide="ignore"):
            v = np.abs(A[i, p[0] * 2] * A[j, p[1] * 2])[None] / (case["dt"] * case["df"]) / np.abs(N[:, k, :, m])
        return v

    # variances
    V1 = np.stack([np.stack([var(k, m) for m in range(len(pols))], axis=-1) for k in range(len(pairs))], axis=1)
    full = quiet(metrics.get_nightly_predicted_variance_stack, st, auto, flag_if_inpainted=False)
    require(full.shape == sh, f"variance of shape {full.shape}, data {sh}")
    close(full, np.where(F, np.inf, V1), "predicted variance", rtol=1e-6, atol=0)
    skip = F | (N <= 0)
    close(quiet(metrics.get_nightly_predicted_variance_stack, st, auto), np.where(skip, np.inf, V1), "predicted variance without inpainted samples", rtol=1e-6, atol=0)
    for k, ap in enumerate(pairs):
        for m, p in enumerate(pols):
            close(quiet(metrics.get_nightly_predicted_variance, (*ap, p), st, auto), np.where(F, np.inf, V1)[:, k, :, m], f"predicted variance of {(*ap, p)}", rtol=1e-6, atol=0)

    # z-scores of unflagged, not inpainted samples about their own mean
    good = ~skip & np.isfinite(D)
    n = np.where(good, np.abs(N), 0.0)
    M = n.sum(axis=0)
    with np.errstate(divide="ignore", invalid="ignore"):
        vbar = np.where(good, D * n, 0).sum(axis=0) / M
        Z = 2 * M / (M - n) * np.abs(D - vbar)**2 / V1
    defined = good & (M > n)
    for kw in (dict(auto_stats=auto), dict(variance=np.where(skip, np.inf, V1) / 2)):
        zf = quiet(metrics.get_squared_zscores_flagged, st, **kw)
        require(zf.metrics.shape == sh, f"Z-scores of shape {zf.metrics.shape}")
        same(np.isfinite(zf.metrics), defined, f"where Z^2 is defined (from {list(kw)})")
        close(zf.metrics[defined], Z[defined], f"Z^2 (from {list(kw)})", rtol=1e-5, atol=1e-9)
    # closed identity: chi^2 about the mean
    if defined.any():
        with np.errstate(invalid="ignore"):
            lhs = np.where(defined, (1 - n / M) * zf.metrics, 0).sum(axis=0)
            rhs = np.where(defined, 2 * np.abs(D - vbar)**2 / V1, 0).sum(axis=0)
        close(lhs, rhs, "sum over nights of (1 - n/M) Z^2", rtol=1e-5, atol=1e-9)

    # the general form, with statistics of this stack
    imode = case["imode"]
    red = quiet(averaging.reduce_lst_bins, st, inpainted_mode=imode, get_mad=True)
    cross = metrics.LSTBinStats.from_reduced_data(pairs, pols, red)
    g = quiet(metrics.get_squared_zscores, auto, cross, st, central=case["central"], std=case["std"])
    require(isinstance(g, type(st)) and g.metrics.shape == sh, "shape of Z-scores")
    cen = {"mean": red["data"], "median": red["median"]}[case["central"]]
    with np.errstate(divide="ignore", invalid="ignore"):
        sc = V1 if case["std"] == "autos" else np.abs(red[case["std"]])**2 / np.abs(N)
        Mc = red["nsamples"]                         # in inpainted mode from nsamples averaged over frequency
        G = 2 * Mc / (Mc - n) * np.abs(D - cen)**2 / sc
    ok = good & (Mc - n > 1e-6) & np.isfinite(G) & (sc > 1e-12)      # a spread of 0 scales nothing
    close(g.metrics[ok], G[ok], f"Z^2 with central={case['central']}, std={case['std']}", rtol=1e-4, atol=1e-6)
    if case["central"] == "mean" and case["std"] == "autos" and not (imode and case["inp"]) and not (imode and case["ns"]):
        close(g.metrics[defined], zf.metrics[defined], "the two forms of Z^2", rtol=1e-4, atol=1e-6)
    for x, y, w in zip(before, (D, N, F), ("data", "nsamples", "flags")):
        same(y, x, f"caller's {w}")
    with expect_raises(ValueError, "central=wrong"):
        metrics.get_squared_zscores(auto, cross, st, central="max")
    with expect_raises(ValueError, "std=wrong"):
        metrics.get_squared_zscores(auto, cross, st, std="var")
    ctx.label(f"std={case['std']}", f"central={case['central']}", f"inp={bool(case['inp'])}", f"npol={len(pols)}")
    ctx.nontrivial(defined.any() and case["nn"] > 1)


# ---------------------------------------------------------------- selections
def gen_select(draw):
    allp = [(a, b) for a in range(4) for b in range(a, 4)]
    pols = pick(draw, POLS + [["ee", "nn"], ["ee", "nn", "en", "ne"]])
    pairs = subset(draw, allp, 1, 6)
    pairs = [p if flag(draw) else p[::-1] for p in pairs]
    nn = ints(draw, 1, 5)
    c = dict(nn=nn, nf=ints(draw, 2, 7), pols=pols, pairs=pairs, dt=10.7, df=1e5, xo=pick(draw, ["east", "north"]), mode=pick(draw, ["direct", "direct", "callable"]), bad=pick(draw, [0, 0.2]), flags=flag(draw), seed=seed(draw), nst=ints(draw, 1, 3))
    c["selp"] = pick(draw, [None, "tuple", "list"])
    c["pi"] = [ints(draw, 0, 9) for _ in range(3)]
    c["selq"] = pick(draw, [None, "str", "list", "set1"])
    c["qi"] = [ints(draw, 0, 9) for _ in range(3)]
    c["band"] = pick(draw, [None, [0, 2], [1, 2], [1, 99], "slice", "step"])
    c["nights"] = pick(draw, [None, None, "one", "list", "none"])
    c["ni"] = [ints(draw, 0, 9) for _ in range(3)]
    c["fn"] = ints(draw, 0, 5)
    return c


FNS = [lambda bl: bl[0] == 0, lambda bl: bl[2] == "ee", lambda bl: (bl[0] + bl[1] + (bl[2][0] == "n")) % 2 == 0, lambda bl: bl[2][0] == bl[2][1], lambda bl: bl[0] != bl[1], lambda bl: bl[2] in ("nn", "en") and bl[1] > 1]


def metric_stack(case, rng, pairs):
    from hera_cal.lst_stack.binning import LSTStack
    from pyuvdata import UVFlag
    st = stack_of(case, rng, pairs)
    z = quiet(UVFlag, st._uvd, mode="metric")
    z.metric_array = rng.normal(size=st.data_array.shape)**2
    z.metric_array[rng.random(z.metric_array.shape) < case["bad"]] = np.nan
    return LSTStack(z)


def check_select(case, ctx):
    from hera_cal.lst_stack import metrics
    rng = rng_of(case["seed"], "select")
    pairs, pols = [tuple(p) for p in case["pairs"]], case["pols"]
    sts = [metric_stack(case, rng, pairs) for _ in range(case["nst"])]
    flg = [rng.random(s.metrics.shape) < 0.3 for s in sts] if case["flags"] else None
    kw, keepp, keepq = {}, list(range(len(pairs))), list(range(len(pols)))
    hide = None
    if case["mode"] == "callable":
        f = FNS[case["fn"]]
        kw["bl_selectors"] = [f, FNS[3]] if case["qi"][0] % 2 else f
        sel = {(i, j) for i, p in enumerate(pairs) for j, q in enumerate(pols) if f((*p, q)) and (callable(kw["bl_selectors"]) or FNS[3]((*p, q)))}
        keepp, keepq = sorted({i for i, _ in sel}), sorted({j for _, j in sel})
        hide = np.array([[(i, j) not in sel for j in keepq] for i in keepp], dtype=bool).reshape(len(keepp), len(keepq))
    else:
        if case["selp"] == "tuple":
            keepp = [case["pi"][0] % len(pairs)]
            kw["antpairs"] = pairs[keepp[0]]
        elif case["selp"] == "list":
            keepp = list(dict.fromkeys(i % len(pairs) for i in case["pi"]))
            kw["antpairs"] = [pairs[i] for i in keepp]
        if case["selq"] == "str":
            keepq = [case["qi"][0] % len(pols)]
            kw["pols"] = pols[keepq[0]]
        elif case["selq"] == "list":
            keepq = list(dict.fromkeys(i % len(pols) for i in case["qi"]))
            kw["pols"] = [pols[i] for i in keepq]
        elif case["selq"] == "set1":
            keepq = [case["qi"][0] % len(pols)]
            kw["pols"] = {pols[keepq[0]]}
    ch = slice(None)
    if case["band"] == "slice":
        ch = kw["band"] = slice(1, None)
    elif case["band"] == "step":
        ch = kw["band"] = slice(0, case["nf"], 2)
    elif case["band"] is not None:
        kw["band"] = tuple(case["band"])
        ch = slice(*case["band"])
    jds = [s.times.astype(int) for s in sts]
    if case["nights"] == "one":
        kw["nights"] = int(jds[0][case["ni"][0] % case["nn"]])
    elif case["nights"] == "list":
        kw["nights"] = [int(jds[0][i % case["nn"]]) for i in case["ni"]]
    elif case["nights"] == "none":
        kw["nights"] = [1]
    if case["mode"] == "callable" and not keepp:
        ctx.label("nothing selected")
        return
    comp = []
    copies = [s.metrics.copy() for s in sts]
    for s, st in enumerate(sts):
        Z = st.metrics[:, keepp][:, :, ch][..., keepq]
        mask = ~np.isfinite(Z)
        if flg is not None:
            mask = mask | flg[s][:, keepp][:, :, ch][..., keepq]
        if hide is not None:
            mask = mask | hide[None, :, None, :]
        t = np.ones(case["nn"], dtype=bool) if "nights" not in kw else np.isin(jds[s], np.atleast_1d(kw["nights"]))
        Z, mask = Z[t], mask[t]
        got = quiet(metrics.downselect_zscores, st, flags=None if flg is None else flg[s], **kw)
        require(isinstance(got, np.ma.MaskedArray), f"returned {type(got)}")
        require(got.shape == Z.shape, f"selected shape {got.shape}, expected {Z.shape} for {kw}")
        same(np.ma.getmaskarray(got), mask, f"mask of the selection {kw}")
        same(np.asarray(got.data)[~mask], Z[~mask], f"values of the selection {kw}")
        comp.append(Z[~mask])
    f_in = None if flg is None else [x.copy() for x in flg]
    same(np.sort(quiet(metrics.get_compressed_zscores, sts, flags=flg, **kw)), np.sort(np.concatenate(comp)), "compressed Z-scores")
    same(quiet(metrics.get_compressed_zscores, sts, flags=flg, **kw), np.concatenate(comp), "order of compressed Z-scores")
    for s, c in zip(sts, copies):
        same(s.metrics, c, "the stack's own metrics")
    if flg is not None:
        for x, y in zip(flg, f_in):
            same(x, y, "caller's flags")
    ctx.label(case["mode"], f"pols={case['selq']}", f"nights={case['nights']}", f"band={case['band']}")
    ctx.nontrivial(len(keepp) < len(pairs) or len(keepq) < len(pols) or "nights" in kw or "band" in kw)


# ---------------------------------------------------------------- reductions, baselines
AX = {"nights": {0}, "antpairs": {1}, "freqs": {2}, "pols": {3}, "bls": {1, 3}}


def gen_reduce(draw):
    return dict(sh=[ints(draw, 1, 4) for _ in range(4)], ax=subset(draw, sorted(AX), 1), str=flag(draw), func=pick(draw, ["mean", "median", "std", "sum", "ma.mean"]), seed=seed(draw),
                bls=[[ints(draw, 0, 3), ints(draw, 0, 3), pick(draw, ["ee", "nn", "en"])] for _ in range(ints(draw, 0, 6))], min_days=pick(draw, [0, 1, 2, 3]), sel=pick(draw, [None, "callable", "list"]), fns=[ints(draw, 0, 5) for _ in range(2)])


def check_reduce(case, ctx):
    from hera_cal.lst_stack import metrics
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "reduce")
    x = rng.normal(size=case["sh"])
    if case["func"] == "ma.mean":
        x = np.ma.MaskedArray(x, mask=rng.random(x.shape) < 0.3)
    ax = case["ax"][0] if case["str"] else case["ax"]
    axes = set().union(*[AX[a] for a in ([ax] if case["str"] else ax)])
    f = {"mean": np.mean, "median": np.median, "std": np.std, "sum": np.sum, "ma.mean": np.ma.mean}[case["func"]]
    got = metrics.reduce_stack_over_axis(f, x, ax)
    rest = [a for a in range(4) if a not in axes]
    flat = np.ma.transpose(x, rest + sorted(axes)) if case["func"] == "ma.mean" else np.transpose(x, rest + sorted(axes))
    flat = flat.reshape([case["sh"][a] for a in rest] + [-1])
    exp = np.ma.mean(flat, axis=-1) if case["func"] == "ma.mean" else f(flat, axis=-1)
    require(np.shape(got) == np.shape(exp), f"reduced shape {np.shape(got)}, expected {np.shape(exp)} over {ax}")
    if case["func"] == "ma.mean":
        same(np.ma.getmaskarray(got), np.ma.getmaskarray(exp), "mask of the reduction")
        got, exp = np.ma.filled(got, 0), np.ma.filled(exp, 0)
    close(got, exp, f"reduction over {ax}", rtol=1e-9, atol=1e-12)
    with expect_raises(ValueError, "unknown axis"):
        metrics.reduce_stack_over_axis(f, x, ["times"])
    # baseline selection
    bls = [tuple(b) for b in case["bls"]]
    days = {}
    for b in bls:
        if rng.random() < 0.8 and b not in days and (b[1], b[0], b[2][::-1]) not in days:
            days[b] = rng.integers(0, 5, size=rng.integers(1, 6))
    dc = DataContainer({b: v.astype(float) for b, v in days.items()}) if days else {}
    fns = [FNS[i] for i in case["fns"]]
    sel = {None: None, "callable": fns[0], "list": fns}[case["sel"]]
    use = {None: [], "callable": fns[:1], "list": list(fns)}[case["sel"]]

    def med(b):
        v = days.get(b, days.get((b[1], b[0], b[2][::-1])))
        return None if v is None else np.median(v)

    for md in (case["min_days"], 0, case["min_days"]):
        got = metrics.get_selected_bls(bls, days_binned=dc, selectors=sel, min_days=md)
        exp = [b for b in bls if all(g(b) for g in use) and (md == 0 or (med(b) is not None and med(b) >= md))]
        require(list(got) == exp, f"baselines with at least {md} days: {got}, expected {exp}")
        if case["sel"] == "list":
            require(len(sel) == 2 and sel[0] is fns[0] and sel[1] is fns[1], "the caller's list of selectors changed")
    ctx.label(f"axes={sorted(axes)}", f"sel={case['sel']}")
    ctx.nontrivial(len(axes) > 1 or len(bls) > 2)


# ---------------------------------------------------------------- distributions
def gen_dists(draw):
    return dict(n=ints(draw, 2, 200), q=ints(draw, 1, 60), nsets=ints(draw, 1, 20), extra=ints(draw, 1, 200), absolute=flag(draw), counts=[pick(draw, [0, 2, 2, 3, 5, 8, 40, 120]) for _ in range(ints(draw, 1, 8))], many=pick(draw, [0, 0, 0, 70]), min_n=pick(draw, [1, 2, 3, 4]), seed=seed(draw))


def check_dists(case, ctx):
    from hera_cal.lst_stack import stats
    from scipy.stats import chi2
    rng = rng_of(case["seed"], "dists")
    c = 2 if case["absolute"] else 1                 # degrees of freedom per visibility
    n, q, ab = case["n"], case["q"], case["absolute"]
    ntot = case["nsets"] + case["extra"]
    p = np.array([1e-6, 0.01, 0.2, 0.5, 0.9, 0.999])

    def judge(dist, dof, scale, what):
        """dist is that of scale * chi^2(dof)"""
        x = chi2.ppf(p, dof) * scale
        close(dist.cdf(x), p, f"cdf of {what}", rtol=1e-6, atol=1e-9)
        close(dist.sf(x), 1 - p, f"sf of {what}", rtol=1e-6, atol=1e-9)
        close(dist.pdf(x), chi2.pdf(x / scale, dof) / scale, f"pdf of {what}", rtol=1e-6, atol=1e-12)
        close(dist.mean(), dof * scale, f"mean of {what}", rtol=1e-9)

    judge(stats.zsquare(ab), c, 1.0, "Z^2")
    judge(stats.mean_zsquare_over_redundant_set(n, ab), c * (n - 1), 1.0 / n, f"mean Z^2 of {n}")
    judge(stats.mean_zsquare_over_independent_set(q, ab), c * q, 1.0 / q, f"mean Z^2 of {q} independent")
    judge(stats.mean_zsquare_over_redundant_and_independent_sets(case["nsets"], ntot, ab), c * (ntot - case["nsets"]), 1.0 / ntot, f"mean Z^2 of {ntot} in {case['nsets']} sets")
    judge(stats.excess_variance(n, ab), c * (n - 1), 1.0 / (c * (n - 1)), f"excess variance of {n}")
    close(stats.excess_variance(n, ab).mean(), 1.0, "mean excess variance", rtol=1e-9)
    # mixtures
    counts = np.array(case["counts"] + list(range(2, 2 + case["many"])))
    used = counts[counts >= case["min_n"]]
    for name, one in (("mean_zsquare_mixture", lambda k: (c * (k - 1), 1.0 / k)), ("excess_variance_mixture", lambda k: (c * (k - 1), 1.0 / (c * (k - 1))))):
        if len(used) == 0:
            continue
        arg = counts.copy() if case["seed"] % 2 else counts.tolist()
        mix = quiet(getattr(stats, name), arg, absolute=ab, min_n=case["min_n"])
        x = np.sort(rng.uniform(0.01, 6, size=7))
        for f in ("cdf", "sf", "pdf"):
            exp = np.zeros(len(x))
            for k in used:
                dof, s = one(int(k))
                exp += getattr(chi2, f)(x / s, dof) / (s if f == "pdf" else 1.0)
            close(getattr(mix, f)(x), exp / len(used), f"{f} of {name}", rtol=1e-6, atol=1e-9)
            close(getattr(mix, f)(x[3]), (exp / len(used))[3], f"{f} of {name} at one point", rtol=1e-6, atol=1e-9)
        s = int(case["seed"] % 1000)
        a, b = (mix.rvs(size=(40, 5), random_state=np.random.default_rng(s)) for _ in range(2))
        require(a.shape == (40, 5) and np.isfinite(a).all() and (a >= 0).all(), f"samples of {name}")
        same(a, b, f"samples of {name} with one seed")
        same(mix.rvs(size=9, random_state=s), mix.rvs(size=9, random_state=s), f"samples of {name} with one integer seed")
        require(np.shape(mix.rvs(random_state=s)) == (), "one sample")
        # Kolmogorov-Smirnov distance of 4000 samples: its 1e-9 quantile is near 3.3/sqrt(n)
        big = np.sort(mix.rvs(size=4000, random_state=np.random.default_rng(s + 1)))
        F = mix.cdf(big)
        d = max(np.abs(F - np.arange(4000) / 4000).max(), np.abs(F - np.arange(1, 4001) / 4000).max())
        require(d < 3.5 / np.sqrt(4000), f"samples of {name} do not follow its cdf: distance {d}")
    subs = [stats.excess_variance(k, ab) for k in (2, 5)]
    w = rng.uniform(0.1, 5, size=2)
    m = stats.MixtureModel(subs, weights=list(w))
    close(m.cdf(0.7), (w[0] * subs[0].cdf(0.7) + w[1] * subs[1].cdf(0.7)) / w.sum(), "weighted mixture", rtol=1e-9)
    close(stats.MixtureModel(subs).pdf(0.7), (subs[0].pdf(0.7) + subs[1].pdf(0.7)) / 2, "equal mixture", rtol=1e-9)
    with expect_raises(ValueError, "negative weight"):
        stats.MixtureModel(subs, weights=[1, -1])
    with expect_raises(ValueError, "too few weights"):
        stats.MixtureModel(subs, weights=[1])
    ctx.label(f"absolute={ab}", f"kinds={len(set(used.tolist()))}")
    ctx.nontrivial(len(set(used.tolist())) > 1)


SUBS = [Sub("zsq", gen_zsq, check_zsq, quick=320, shards=8), Sub("select", gen_select, check_select, quick=320, shards=8), Sub("reduce", gen_reduce, check_reduce, quick=300), Sub("dists", gen_dists, check_dists, quick=120, shards=4)]
