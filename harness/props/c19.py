"""C19: filtering visibilities splits every waterfall into exactly the model and residual of the requested filter."""
import os

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed
from ..lstsim import quiet
from ..uvsim import make_cal, make_telescope, make_uvd
from .c21 import World
from .c27 import contents, lookup

RULE = ("edges: trimming and restoring flagged edges around discontinuities, on either or both axes, against brute force; rows: rows skipped for long gaps, flags near edges and model rms; fft: explicit Fourier sums; pad: padding round trips; trim: delay-space thresholding of "
        "the model; filt: histories of fourier_filter calls (modes, axes, sub-bands, weights, zero padding, skipping options) against row-by-row filtering of independently prepared rows; vc: vis_clean and run_delay_filter against explicit widths; flags: calibration and "
        "external flags; lens: redundant averages of baseline vectors stored either way; file: load_delay_filter_and_write read back. Non-trivial: several rows with different flags, several baselines, or several sub-bands.")
ASSUMPTIONS = ["hera_filters.dspec.fourier_filter filters a single row correctly; hera_cal decides which samples, weights and coordinates of which row it sees and what becomes of the results", "every baseline has every time; values under flags are finite",
               "baselines are shorter than the band resolves, so that fits are well conditioned or identical to the row-by-row fit"]
C = 299792458.0


# ---------------------------------------------------------------- helpers: own preparation
def runs(x):
    """[(start, stop)] of samples at the common (smallest) spacing"""
    if len(x) < 2:
        return [(0, len(x))]
    dx = np.abs(np.diff(x)).min()
    out, s = [], 0
    for i in range(1, len(x)):
        if abs(abs(x[i] - x[i - 1]) - dx) > 1e-3 * dx:
            out.append((s, i))
            s = i
    return out + [(s, len(x))]


def kept(w, x, axis):
    """indices along axis that survive trimming of fully flagged edges, run by run"""
    alive = (w != 0).any(axis=1 - axis)
    out = []
    for a, b in runs(x):
        q = [i for i in range(a, b) if alive[i]]
        if q:
            out += list(range(q[0], q[-1] + 1))
    return np.array(out, dtype=int)


def longest_gap(row):
    best = n = 0
    for v in row:
        n = n + 1 if v == 0 else 0
        best = max(best, n)
    return best


def near_edge(row, x, m):
    return any(row[i] == 0 for a, b in runs(x) for i in range(a, b) if i - a <= m or b - 1 - i <= m)


def gen_x(draw, n):
    return dict(n=n, gaps=[pick(draw, [1, 1, 1, 1, 3, 7]) for _ in range(n - 1)], dx=pick(draw, [1.0, 2.5e5, 0.3]), off=pick(draw, [0.0, 1.2e8, -4.0]))


def make_x(g):
    steps = list(g["gaps"])
    if steps and 1 not in steps:
        steps[0] = 1
    return g["off"] + g["dx"] * np.concatenate([[0], np.cumsum(steps)])


def gen_w(draw, nt, nf):
    return dict(p=pick(draw, [0.3, 0.0, 0.8, 1.0]), rows=[pick(draw, [0, 0, 0, 1, 2, nt]) for _ in range(2)], cols=[pick(draw, [0, 0, 1, 2, nf]) for _ in range(2)], frac=flag(draw), seed=seed(draw), only=pick(draw, [None, None, None, 0, -1]))


def make_w(g, nt, nf):
    rng = rng_of(g["seed"], "w")
    w = (rng.random((nt, nf)) >= g["p"]).astype(float)
    if g["frac"]:
        w *= rng.choice([0.25, 1.0, 0.5], size=(nt, nf))
    w[:g["rows"][0]] = 0
    w[max(nt - g["rows"][1], 0):] = 0
    w[:, :g["cols"][0]] = 0
    w[:, max(nf - g["cols"][1], 0):] = 0
    if g["only"] is not None:       # a single channel or time survives
        w[:, [i for i in range(nf) if i != g["only"] % nf]] = 0
        w[:, g["only"]] = 1
    return w


# ---------------------------------------------------------------- edges
def gen_edges(draw):
    nt, nf = ints(draw, 2, 6), pick(draw, [5, 3, 1, 2, 7, 9])
    return dict(nt=nt, nf=nf, xt=gen_x(draw, nt), xf=gen_x(draw, nf), w=gen_w(draw, nt, nf), ax=pick(draw, ["freq", "time", "both"]), seed=seed(draw), tup=flag(draw))


def check_edges(case, ctx):
    from hera_cal import vis_clean as vc
    rng = rng_of(case["seed"])
    nt, nf, ax = case["nt"], case["nf"], case["ax"]
    xt, xf = make_x(case["xt"]), make_x(case["xf"])
    w = make_w(case["w"], nt, nf)
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    for x in (xt, xf):
        require([tuple(int(v) for v in e) for e in vc.find_discontinuity_edges(x)] == runs(x), f"runs of {x}: {vc.find_discontinuity_edges(x)}, expected {runs(x)}")
    x = xf if ax == "freq" else xt if ax == "time" else ((xt, xf) if case["tup"] else [xt, xf])
    d0, w0 = d.copy(), w.copy()
    xo, do, wo, edges, chunks = vc.truncate_flagged_edges(d, w, x, ax=ax)
    kt = kept(w, xt, 0) if ax != "freq" else np.arange(nt)
    kf = kept(w, xf, 1) if ax != "time" else np.arange(nf)
    what = f"trimming of {ax} edges of weights {w.tolist()}"
    if ax == "both":
        same(np.asarray(xo[0]), xt[kt], f"{what}: times")
        same(np.asarray(xo[1]), xf[kf], f"{what}: frequencies")
    else:
        same(np.asarray(xo), (xf[kf] if ax == "freq" else xt[kt]), f"{what}: coordinates")
    same(do, d[np.ix_(kt, kf)], f"{what}: data")
    same(wo, w[np.ix_(kt, kf)], f"{what}: weights")
    same(d, d0, "caller's data")
    same(w, w0, "caller's weights")
    E = np.zeros_like(d)
    E[np.ix_(kt, kf)] = d[np.ix_(kt, kf)]
    same(vc.restore_flagged_edges(do, chunks, edges, ax=ax), E, f"{what}, restored")
    ctx.label(ax, f"runs={len(runs(xf))}", f"empty={do.size == 0}")
    ctx.nontrivial(do.size > 0 and do.size < d.size)


# ---------------------------------------------------------------- rows
def gen_rows(draw):
    return dict(gen_edges(draw), m=[ints(draw, 1, 4), ints(draw, 1, 4)], e=[ints(draw, 0, 3), ints(draw, 0, 3)], thr=pick(draw, [1.1, 0.5, 2.0]), mw=flag(draw), fc=pick(draw, [0.0, 0.1]), fw=pick(draw, [0.13, 0.31]))


def check_rows(case, ctx):
    from hera_cal import vis_clean as vc
    rng = rng_of(case["seed"])
    nt, nf, ax = case["nt"], case["nf"], case["ax"]
    xt, xf = make_x(case["xt"]), make_x(case["xf"])
    w = make_w(case["w"], nt, nf)
    w0 = w.copy()
    both = ax == "both"
    x = xf if ax == "freq" else xt if ax == "time" else [xt, xf]
    # long gaps
    E = w.copy()
    if ax != "time":
        for i in range(nt):
            if longest_gap(E[i]) >= case["m"][1]:
                E[i] = 0
    if ax != "freq":
        for j in range(nf):
            if longest_gap(E[:, j]) >= case["m"][0]:
                E[:, j] = 0
    same(vc.flag_rows_with_contiguous_flags(w, tuple(case["m"]) if both else case["m"][int(ax == "freq")], ax=ax), E, f"rows with gaps of at least {case['m']} along {ax} in {w.tolist()}")
    # flags near edges
    E = w.copy()
    if ax != "time":
        for i in range(nt):
            if near_edge(E[i], xf, case["e"][1]):
                E[i] = 0
    if ax != "freq":
        for j in range(nf):
            if near_edge(E[:, j], xt, case["e"][0]):
                E[:, j] = 0
    same(vc.flag_rows_with_flags_within_edge_distance(x, w, tuple(case["e"]) if both else case["e"][int(ax == "freq")], ax=ax), E, f"rows with flags within {case['e']} of an edge along {ax} in {w.tolist()}")
    same(w, w0, "caller's weights")
    # widest gap a filter can bridge
    if nf < 2:
        ctx.label("one channel")
        return
    dx = [np.median(np.diff(xt)), np.median(np.diff(xf))]
    fc, fw = [[case["fc"] / d, -case["fc"] / d] for d in dx], [[case["fw"] / d, 0.5 * case["fw"] / d] for d in dx]
    exp = [1.0 / (case["fc"] + case["fw"])] * 2
    got = vc.get_max_contiguous_flag_from_filter_periods(x, fc if both else fc[int(ax == "freq")], fw if both else fw[int(ax == "freq")])
    for g, e in zip(got if both else [got], exp):
        require(int(e * (1 - 1e-9)) <= g <= int(e * (1 + 1e-9)), f"longest gap {got} for periods {exp}")
    # model rms
    d, m = (rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf)) for _ in range(2))
    mw = (rng.random((nt, nf)) < 0.8).astype(float) if case["mw"] else np.ones((nt, nf))
    sk = rng.random((nt, nf)) < 0.2
    E = sk.copy()

    def rms(v, ww):
        return np.sqrt(np.mean(np.abs(v[ww != 0]) ** 2)) if (ww != 0).any() else np.nan
    if ax != "time":
        for i in range(nt):
            if not E[i].all() and rms(m[i], mw[i]) >= case["thr"] * rms(d[i], w[i]):
                E[i] = True
    if ax != "freq":
        for j in range(nf):
            if not E[:, j].all() and rms(m[:, j], mw[:, j]) >= case["thr"] * rms(d[:, j], w[:, j]):
                E[:, j] = True
    same(quiet(vc.flag_model_rms, sk.copy(), d, w, m, mdl_w=mw if case["mw"] else None, model_rms_threshold=case["thr"], ax=ax), E, f"rows with model rms above {case['thr']} times the data's")
    ctx.label(ax)
    ctx.nontrivial(0 < (w != 0).sum() < w.size)


# ---------------------------------------------------------------- fft and padding
def gen_fft(draw):
    return dict(nt=ints(draw, 1, 7), nf=ints(draw, 1, 7), ax=pick(draw, [1, 0, -1, (0, 1)]), win=pick(draw, ["none", "blackmanharris", "hann", "tukey"]), alpha=pick(draw, [0.2, 0.5]), lo=ints(draw, 0, 2), hi=ints(draw, 0, 2), ifft=flag(draw), ish=flag(draw), fsh=flag(draw), zp=ints(draw, 0, 3),
                wg=flag(draw), dt=pick(draw, [1.0, 10.7]), seed=seed(draw))


def check_fft(case, ctx):
    from hera_cal import vis_clean as vc
    from hera_filters import dspec
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    axes = case["ax"] if isinstance(case["ax"], (tuple, list)) else (case["ax"],)
    if case["lo"] + case["hi"] >= min(nt, nf):
        return
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    w = rng.random((nt, nf))
    d0 = d.copy()
    zp = [case["zp"], case["zp"] // 2][:len(axes)]
    dx = [case["dt"], 2.5e5][:len(axes)]
    multi = len(axes) > 1
    got, fax = vc.fft_data(d, tuple(dx) if multi else dx[0], wgts=w if case["wg"] else None, axis=tuple(axes) if multi else axes[0], window=case["win"], alpha=case["alpha"], edgecut_low=case["lo"], edgecut_hi=case["hi"], ifft=case["ifft"], ifftshift=case["ish"], fftshift=case["fsh"],
                           zeropad=tuple(zp) if multi else zp[0])
    same(d, d0, "caller's data")
    E = d * w if case["wg"] else d.copy()
    for n, a in enumerate(axes):
        E = np.moveaxis(E, a, -1)
        N = E.shape[-1]
        E = E * dspec.gen_window(case["win"], N, alpha=case["alpha"], edgecut_low=case["lo"], edgecut_hi=case["hi"])
        M = N + 2 * zp[n]
        # position of sample q in the padded, possibly shifted array
        pos = np.arange(N) + zp[n]
        if case["ish"]:
            pos = (pos - M // 2) % M
        k = np.arange(M)
        if case["fsh"]:
            k = k - M // 2
        K = np.exp((2j if case["ifft"] else -2j) * np.pi * np.outer(pos, k) / M) / (M if case["ifft"] else 1)
        E = np.moveaxis(E @ K, -1, a)
        ff = np.where(k >= (M + 1) // 2, k - M, k) / (M * dx[n])
        close(np.asarray(fax[n] if multi else fax), ff, "Fourier axis", rtol=1e-12, atol=0)
    close(got, E, f"Fourier transform along {axes}", rtol=1e-9, atol=1e-9)
    ctx.label(f"ax={axes}", f"zp={zp}")
    ctx.nontrivial(nt > 1 and nf > 1)


def gen_pad(draw):
    return dict(nt=ints(draw, 2, 5), nf=ints(draw, 2, 5), ax=pick(draw, [1, 0, -1, -2, (0, 1), (1, 0), (1,)]), zp=[ints(draw, 0, 3), ints(draw, 0, 3)], bv=flag(draw), boo=flag(draw), obj=flag(draw), seed=seed(draw))


def check_pad(case, ctx):
    from hera_cal import vis_clean as vc
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    if case["boo"]:
        d = rng.random((nt, nf)) < 0.4
    ax = tuple(case["ax"]) if isinstance(case["ax"], (tuple, list)) else case["ax"]
    axes = ax if isinstance(ax, tuple) else (ax,)
    zp = case["zp"][:len(axes)]
    coord = {0: 2459000.5 + 0.25 * np.arange(nt), 1: 1e8 + 1e6 * np.arange(nf)}
    bv = [coord[a % 2] for a in axes] if case["bv"] else None
    single = not isinstance(ax, tuple)
    arg = dict(zeropad=zp[0] if single else tuple(zp), axis=ax)
    p, b = vc.zeropad_array(d, binvals=(bv[0] if single else bv) if bv else None, **arg)
    tot = {0: 0, 1: 0}
    for a, z in zip(axes, zp):
        tot[a % 2] += z
    E = np.full((nt + 2 * tot[0], nf + 2 * tot[1]), True if case["boo"] else 0, dtype=d.dtype)
    E[tot[0]:tot[0] + nt, tot[1]:tot[1] + nf] = d
    same(p, E, f"padding along {axes} by {zp}")
    if bv:
        bb = [b] if not isinstance(b, list) else b
        for a, z, got in zip(axes, zp, bb):
            c = coord[a % 2]
            step = c[1] - c[0]
            close(np.asarray(got), c[0] + step * np.arange(-z, len(c) + z), f"coordinates padded along {a}", rtol=1e-12, atol=0)
    u, ub = vc.zeropad_array(p, binvals=b, undo=True, **arg)
    same(u, d, f"padding along {axes} by {zp}, undone")
    if bv:
        ub = [ub] if not isinstance(ub, list) else ub
        for a, got in zip(axes, ub):
            same(np.asarray(got), coord[a % 2], f"coordinates unpadded along {a}")
    w = rng.random((nt, nf)) + 0.1
    close(vc.noise_eq_bandwidth(w), np.sqrt(nf * w.max(axis=1) ** 2 / (w ** 2).sum(axis=1)), "noise equivalent bandwidth", rtol=1e-12)
    ctx.label(f"ax={axes}", f"bv={case['bv']}")
    ctx.nontrivial(sum(zp) > 0)


# ---------------------------------------------------------------- trim_model
def gen_trim(draw):
    return dict(nt=ints(draw, 1, 9), nf=ints(draw, 6, 14), thr=pick(draw, [2.0, 0.0, 0.5, 1e9]), ker=pick(draw, [None, None, 3]), deg=pick(draw, [None, 0, 1, 2]), lo=ints(draw, 0, 1), hi=ints(draw, 0, 1), nk=ints(draw, 1, 2), p=pick(draw, [0.0, 0.2]), dead=flag(draw), sub=flag(draw), seed=seed(draw))


def check_trim(case, ctx):
    from scipy.signal import medfilt
    from hera_cal import vis_clean as vc, datacontainer
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    if case["ker"] and nt < 2:
        return
    dnu = 2.5e5
    keys = [(0, 1, "ee"), (1, 2, "nn")][:case["nk"]]
    M = {k: rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf)) for k in keys}
    R = {k: (rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))) * (1 + rng.random((nt, 1))) * (rng.random((nt, nf)) >= case["p"]) for k in keys}
    if case["dead"]:
        for k in keys:
            R[k][nt // 2] = 0
    delays = np.fft.fftfreq(nf, dnu) * 1e9
    cut = np.sort(np.abs(delays))[nf // 2] - 1.0
    md, no = quiet(vc.trim_model, datacontainer.DataContainer(dict(M)), datacontainer.DataContainer(dict(R)), dnu, keys=keys[:1] if case["sub"] else None, noise_thresh=case["thr"], delay_cut=cut, kernel_size=case["ker"], edgecut_low=case["lo"], edgecut_hi=case["hi"], polyfit_deg=case["deg"], verbose=False)
    if case["sub"]:
        keys = keys[:1]
    require(set(md.keys()) == set(keys), f"trimmed {sorted(md.keys())}")
    hi = nf - case["hi"]
    cutw = np.zeros(nf)
    cutw[case["lo"]:hi] = 1
    nofit = False
    for k in keys:
        n = []
        for t in range(nt):
            r = R[k][t]
            if (r == 0).all():
                n.append(np.nan)
                continue
            neb = np.sqrt(nf / (r != 0).sum())
            n.append(np.median(np.abs(np.fft.fft(r * cutw) * neb)[np.abs(delays) > cut]))
        n = np.array(n)
        if case["ker"]:
            if np.isnan(n).any():
                return
            n = medfilt(np.pad(n, nt, "reflect", reflect_type="odd"), kernel_size=case["ker"])[nt:-nt]
        good = np.isfinite(n) & (n != 0)
        if case["deg"] is not None and good.sum() >= case["deg"] + 1:
            fit = np.polyval(np.polyfit(np.arange(nt)[good], n[good], case["deg"]), np.arange(nt))
            if not np.allclose(fit, n, rtol=1e-6, atol=1e-9) and np.allclose(no[k], n, rtol=1e-7, atol=1e-9, equal_nan=True):
                nofit = True            # known finding: no polynomial is ever fitted; the rest is judged with the estimate that was used
            else:
                n = fit
        close(no[k], n, f"noise estimate of {k} (polynomial degree {case['deg']})", rtol=1e-7, atol=1e-9)
        f = np.fft.fft(M[k] * cutw, axis=1)
        lim = (n * case["thr"])[:, None]
        if np.any(np.abs(np.abs(f) - lim) < 1e-6):
            return
        f[np.abs(f) < lim] = 0
        close(md[k], np.fft.ifft(f, axis=1), f"trimmed model of {k}", rtol=1e-8, atol=1e-8)
    ctx.label(f"deg={case['deg']}", f"dead={case['dead']}")
    ctx.nontrivial(nt > 1)
    require(not nofit, f"trim_model with polyfit_deg={case['deg']} does not fit a polynomial to the noise", key="C19-trim-model-polyfit")


# ---------------------------------------------------------------- fourier_filter
def well_posed(x, w, fc, fw):
    """does the weighted DPSS fit have one solution?"""
    from hera_filters import dspec
    A = quiet(dspec.dpss_operator, x, np.array(fc), np.array(fw), eigenval_cutoff=np.array([1e-3] * len(fc)))[0]
    return np.linalg.cond((A.T.conj() * w) @ A) < 1e6


def ref_filter(d, f, w, xt, xf, ax, fc, fw, mode, spws, o):
    """Row-by-row filtering of independently prepared rows. Returns model, residual, skipped, and where the fit is well posed."""
    from hera_filters import dspec
    G = np.ones(d.shape, bool)
    M, R = np.zeros(d.shape, complex), np.zeros(d.shape, complex)
    S = np.zeros(d.shape, bool)
    for s0, s1 in spws:
        sl = slice(s0, s1)
        D, W = d[:, sl], np.where(f[:, sl], 0.0, w[:, sl])
        zt, zf = o["zp"]
        D, W = np.pad(D, [(zt, zt), (zf, zf)]), np.pad(W, [(zt, zt), (zf, zf)])

        def ext(x, z):
            if z == 0:
                return x
            s = np.median(np.diff(x))
            return np.concatenate([x[0] + s * np.arange(-z, 0), x, x[-1] + s * np.arange(1, z + 1)])
        X = [ext(xt, zt), ext(xf[sl], zf)]
        kt, kf = np.arange(D.shape[0]), np.arange(D.shape[1])
        if o["edges"]:
            if ax != "freq":
                kt = kept(W, X[0], 0)
            if ax != "time":
                kf = kept(W, X[1], 1)
        m, r, sk = np.zeros(D.shape, D.dtype), np.zeros(D.shape, D.dtype), np.zeros(D.shape, bool)
        sk[:] = True
        sk[np.ix_(kt, kf)] = False
        if len(kt) and len(kf):
            x = [X[0][kt], X[1][kf]]
            dd, ww = D[np.ix_(kt, kf)], W[np.ix_(kt, kf)].copy()
            for a in (1, 0):        # 1: along frequency
                if (a == 1 and ax == "time") or (a == 0 and ax == "freq"):
                    continue
                if o["gap"] is not None:
                    for i in range(ww.shape[1 - a]):
                        row = ww[i] if a else ww[:, i]
                        if longest_gap(row) >= o["gap"][a]:
                            row[:] = 0
            for a in (1, 0):
                if (a == 1 and ax == "time") or (a == 0 and ax == "freq"):
                    continue
                if max(o["dist"]) > 0:
                    for i in range(ww.shape[1 - a]):
                        row = ww[i] if a else ww[:, i]
                        if near_edge(row, x[a], o["dist"][a]):
                            row[:] = 0
            mm, rr, ss = np.zeros_like(dd), np.zeros_like(dd), np.zeros(dd.shape, bool)
            kw = dict(o["kw"])
            if ax == "both":
                mm, rr, info = quiet(dspec.fourier_filter, x=x, data=dd, wgts=ww, filter_centers=fc, filter_half_widths=fw, mode=mode, filter_dims=[1, 0], skip_wgt=o["skip"], **kw)
                for i, v in info["status"]["axis_0"].items():
                    if v == "skipped":
                        ss[:, i] = True
                if mode.startswith("dpss"):
                    used = [i for i, v in info["status"]["axis_1"].items() if v != "skipped"]
                    if not all(well_posed(x[1], ww[i], fc[1], fw[1]) for i in used) or (used and not well_posed(x[0], np.isin(np.arange(len(x[0])), used) * 1.0, fc[0], fw[0])):
                        G[:, sl] = False
            else:
                a = int(ax == "freq")
                T = (lambda z: z) if a else (lambda z: z.T)
                for i in range(dd.shape[1 - a]):
                    q, p, info = quiet(dspec.fourier_filter, x=x[a], data=T(dd)[i:i + 1].copy(), wgts=T(ww)[i:i + 1].copy(), filter_centers=list(fc), filter_half_widths=list(fw), mode=mode, filter_dims=1, skip_wgt=o["skip"], **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
                    T(mm)[i], T(rr)[i] = q[0], p[0]
                    if info["status"]["axis_1"][0] == "skipped":
                        T(ss)[i] = True
                    row, mce = T(ww)[i] != 0, kw.get("max_contiguous_edge_flags", 10)
                    ruled_out = row.mean() < o["skip"] or not row[:mce].any() or not row[-mce:].any()
                    if mode.startswith("dpss") and not ruled_out and not well_posed(x[a], T(ww)[i], fc, fw):
                        full = (kt if a else kf)[i]
                        if a and zt <= full < zt + d.shape[0]:
                            G[full - zt, sl] = False
                        elif not a and zf <= full < zf + (s1 - s0):
                            G[:, s0 + full - zf] = False
            m[np.ix_(kt, kf)], r[np.ix_(kt, kf)] = mm, rr
            sk[np.ix_(kt, kf)] |= ss
            rowskip = np.zeros(D.shape, bool)
            rowskip[np.ix_(kt, kf)] = ss
        un = (slice(zt, D.shape[0] - zt), slice(zf, D.shape[1] - zf))
        m, r, sk, D, W = (z[un] for z in (m, r, sk, D, W))
        if o["rms"] is not None:
            for a in (1, 0):
                if (a == 1 and ax == "time") or (a == 0 and ax == "freq"):
                    continue
                for i in range(D.shape[1 - a]):
                    pickrow = (i, slice(None)) if a else (slice(None), i)
                    ww = W[pickrow] != 0
                    if ww.any() and not sk[pickrow].all():
                        u, v = np.sqrt(np.mean(np.abs(m[pickrow]) ** 2)), np.sqrt(np.mean(np.abs(D[pickrow][ww]) ** 2))
                        if abs(u / v - o["rms"]) < 1e-3:
                            return None
                        if u >= o["rms"] * v:
                            sk[pickrow] = True
        m, r = np.where(sk, 0, m), np.where(sk | f[:, sl], 0, r)
        M[:, sl], R[:, sl], S[:, sl] = m, r, sk
    if o["rms"] is not None and not G.all():
        return None
    return M, R, S, G


def gen_call(draw):
    return dict(ax=pick(draw, ["freq", "freq", "time", "both"]), mode=pick(draw, ["dpss_solve", "dpss_leastsq", "dayenu", "clean", "dpss_matrix"]), fc=pick(draw, [0.0, 0.0, 0.12]), hw=pick(draw, [0.12, 0.2]), zp=[pick(draw, [0, 0, 3]), pick(draw, [0, 0, 2])], edges=flag(draw), gap=pick(draw, [None, None, "auto", 2, 4]), dist=pick(draw, [0, 0, 0, 1, 2]),
                rms=pick(draw, [None, None, 1.1, 0.6]), skip=pick(draw, [0.1, 0.5, 0.0]), mce=pick(draw, [30, 2, 5]), spw=pick(draw, [0, 0, 1, 2]), keep=flag(draw), cfr=flag(draw), wgts=flag(draw), pre=pick(draw, ["clean", "x"]), post=pick(draw, ["", "", "y"]), ow=flag(draw), sub=flag(draw), own=flag(draw), x=flag(draw))


def gen_filt(draw):
    return dict(nt=ints(draw, 6, 12), nf=ints(draw, 6, 14), lst=1.0, pols=pick(draw, [["ee"], ["ee", "nn"], ["en", "ne"]]), nbl=ints(draw, 1, 4), dt=10.0, p=0.0, pat=gen_pat(draw), calls=[gen_call(draw) for _ in range(ints(draw, 1, 3))], cache=flag(draw), seed=seed(draw))


def gen_pat(draw):
    return dict(p=pick(draw, [0.1, 0.0, 0.35]), lo=ints(draw, 0, 3), hi=ints(draw, 0, 3), t0=ints(draw, 0, 2), t1=ints(draw, 0, 2), allf=pick(draw, [False, False, False, True]), ragged=flag(draw))


def set_flags(w, pat, rng):
    u = w.uvd
    pairs = sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))
    for n, (i, j) in enumerate(pairs):
        rows = np.where((u.ant_1_array == i) & (u.ant_2_array == j))[0]
        rows = rows[np.argsort(u.time_array[rows], kind="stable")]
        for m, p in enumerate(w.pols):
            f = rng.random((w.nt, w.nf)) < pat["p"]
            f[:, :pat["lo"]] = True
            f[:, w.nf - pat["hi"]:] = True
            f[:pat["t0"]] = True
            f[w.nt - pat["t1"]:] = True
            if pat["ragged"]:
                for t in range(w.nt):
                    f[t, :rng.integers(0, 4)] = True
                    if rng.random() < 0.2:
                        f[t] = True
            if pat["allf"] and n == 0:
                f[:] = True
            if i == j and p == "ne" and "en" in w.pols:
                f = u.flag_array[rows, :, w.pols.index("en")]
            u.flag_array[rows, :, m] = f


def check_filt(case, ctx):
    from hera_cal import vis_clean as vc, datacontainer
    rng = rng_of(case["seed"], "filt")
    W = World(case, ctx.tmp(), tones=lambda w: set_flags(w, case["pat"], rng_of(case["seed"], "flags")))
    V = quiet(vc.VisClean, W.path)
    quiet(V.read)
    xt, xf = (W.times - W.times.mean()) * 86400.0, W.freqs
    dx = [W.dt, W.freqs[1] - W.freqs[0]]
    state = {}      # container set -> {key: (model, resid, flags, resid_flags)}
    cache = {}
    judged = 0
    for c in case["calls"]:
        ax, mode = c["ax"], c["mode"]
        if mode == "clean" and ax == "both" and W.nt * W.nf > 120:
            continue
        axes = {"freq": [1], "time": [0], "both": [0, 1]}[ax]
        fc = [[c["fc"] / dx[a]] for a in (0, 1)]
        fw = [[c["hw"] / dx[a]] for a in (0, 1)]
        two = ax == "both"
        spws = {0: [(0, W.nf)], 1: [(0, W.nf // 2), (W.nf // 2, W.nf)], 2: [(0, 3), (3, W.nf)]}[c["spw"]]
        zp = [c["zp"][a] if a in axes else 0 for a in (0, 1)]
        kw = {}
        if mode.startswith("dpss"):
            kw = dict(eigenval_cutoff=[[1e-3]] * 2 if two else [1e-3], suppression_factors=[[1e-9]] * 2 if two else [1e-9], max_contiguous_edge_flags=c["mce"])
        elif mode == "dayenu":
            kw = dict(suppression_factors=[[1e-4]] * 2 if two else [1e-4], max_contiguous_edge_flags=c["mce"])
        else:
            kw = dict(tol=1e-3, maxiter=20)
        gap = None
        if c["gap"] is not None:
            per = int(1.0 / (abs(c["fc"]) + c["hw"]) + 1e-9)
            if abs(1.0 / (abs(c["fc"]) + c["hw"]) - round(1.0 / (abs(c["fc"]) + c["hw"]))) < 1e-6:
                continue
            gap = [per, per] if c["gap"] == "auto" else [c["gap"], c["gap"] + 1]
        dist = [c["dist"], c["dist"]]
        o = dict(zp=zp, edges=c["edges"], gap=gap, dist=dist, rms=c["rms"], skip=c["skip"], kw=kw)
        keys = [k for k in sorted(W.truth) if not (k[0] == k[1] and k[2] == "ne" and "en" in W.pols)]
        if c["sub"]:
            keys = keys[::2]
        wg = {k: (rng.choice([0.25, 0.5, 1.0], size=(W.nt, W.nf)) if c["wgts"] else np.ones((W.nt, W.nf))) for k in W.truth}
        args = dict(mode=mode, ax=ax, skip_wgt=c["skip"], keep_flags=c["keep"], clean_flags_in_resid_flags=c["cfr"], skip_flagged_edges=c["edges"], output_prefix=c["pre"], output_postfix=c["post"], overwrite=c["ow"])
        if c["spw"]:
            args["filter_spw_ranges"] = spws
        if any(zp):
            args["zeropad"] = zp if two else zp[axes[0]]
        if gap:
            args["skip_contiguous_flags"] = True
            if c["gap"] != "auto":
                args["max_contiguous_flag"] = gap if two else gap[axes[0]]
        if c["dist"]:
            args["skip_if_flag_within_edge_distance"] = dist if two else c["dist"]
        if c["rms"] is not None:
            args.update(flag_model_rms_outliers=True, model_rms_threshold=c["rms"])
        if c["wgts"]:
            args["wgts"] = datacontainer.DataContainer(dict(wg))
        if c["sub"] or len(keys) < len(W.truth):
            args["keys"] = keys
        if c["own"]:
            args.update(data=V.data, flags=V.flags)
        if c["x"]:
            args["x"] = ((xt, xf) if c["own"] else [xt, xf]) if two else [xt, xf][axes[0]]
        if case["cache"] and mode != "clean":
            args["cache"] = cache.setdefault((mode, c["mce"]), {})
        st = state.setdefault((c["pre"], c["post"]), {})
        todo = {}
        try:
            for k in keys:
                if k in st and not c["ow"]:
                    continue
                d, f, _ = W.truth[k]
                todo[k] = ref_filter(d, f, wg[k], xt, xf, ax, fc if two else fc[axes[0]], fw if two else fw[axes[0]], mode, spws, o)
        except (ValueError, IndexError):
            ctx.label("unfilterable")      # hera_filters cannot filter a single sample, or with no mode at all
            continue
        quiet(V.fourier_filter, fc if two else fc[axes[0]], fw if two else fw[axes[0]], **args, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
        for k in todo:
            d, f, _ = W.truth[k]
            if todo[k] is None:
                st[k] = None
                continue
            M, R, S, G = todo[k]
            if k[0] == k[1] and k[2][0] == k[2][1]:
                M, R = M.real + 0j, R.real + 0j
            st[k] = (M, R, G, (f | S) if c["keep"] else S, (f | S) if c["cfr"] else f)
        tag = lambda q: f"{c['pre']}_{q}" + (f"_{c['post']}" if c["post"] else "")
        dc = {q: getattr(V, tag(q)) for q in ("model", "resid", "flags", "resid_flags", "data")}
        for q in dc:
            require(set(dc[q].keys()) == set(st), f"{tag(q)} holds {sorted(dc[q].keys())}, expected {sorted(st)}")
        for k in st:
            d, f, _ = W.truth[k]
            same(V.data[k], d, f"the object's data of {k} after filtering")
            same(V.flags[k], f, f"the object's flags of {k} after filtering")
            if st[k] is None:
                continue
            M, R, G, FL, RF = st[k]
            what = f"of {k} ({mode} along {ax}, {c})"
            same(dc["flags"][k][G], FL[G], f"flags {what}")
            same(dc["resid_flags"][k][G], RF[G], f"residual flags {what}")
            sc = np.abs(d).max() + np.abs(M).max()
            close(dc["model"][k][G], M[G], f"model {what}", rtol=1e-4, atol=1e-4 * sc)
            close(dc["resid"][k][G], R[G], f"residual {what}", rtol=1e-4, atol=1e-4 * sc)
            close(dc["data"][k], dc["model"][k] + dc["resid"][k], f"filtered data {what}", rtol=1e-5, atol=1e-5 * sc)
            judged += 1
        # filled data
        if not c["post"]:
            fd, ff = V.get_filled_data(prefix=c["pre"])
            for k in st:
                d, f, _ = W.truth[k]
                same(fd[k][~f], d[~f], f"filled data of {k} where unflagged")
                same(fd[k][f], dc["model"][k][f], f"filled data of {k} where flagged")
                same(ff[k], dc["flags"][k], f"flags of filled data of {k}")
        ctx.label(mode, ax, "zp" if any(zp) else "nozp", "edges" if c["edges"] else "noedges", f"nspw={len(spws)}")
    ctx.label(f"calls={len(case['calls'])}")
    ctx.nontrivial(judged > 1)


# ---------------------------------------------------------------- vis_clean and run_delay_filter
def gen_vc(draw):
    return dict(nt=ints(draw, 5, 9), nf=ints(draw, 8, 16), size=12, lst=1.0, pols=pick(draw, [["ee"], ["ee", "nn"], ["en", "ne"]]), nbl=ints(draw, 1, 4), dt=10.0, p=0.0, pat=gen_pat(draw), ax=pick(draw, ["freq", "freq", "time", "both"]), via=pick(draw, ["vis_clean", "run"]), mode=pick(draw, ["dpss_solve", "dayenu", "clean"]),
                hor=pick(draw, [1.0, 0.5, 0.0]), so=pick(draw, [0.0, 60.0]), mind=pick(draw, [0.0, 100.0]), mf=pick(draw, [5.0, "dc"]), tol=pick(draw, [1e-9, 1e-3]), skip=pick(draw, [0.1, 0.6]), avg=flag(draw), wgts=flag(draw), post=pick(draw, ["", "", "y"]), sub=flag(draw), tw=pick(draw, [1, 2]), seed=seed(draw))


def check_vc(case, ctx):
    from hera_cal import vis_clean as vc, datacontainer, delay_filter
    rng = rng_of(case["seed"], "vc")
    W = World(case, ctx.tmp(), tones=lambda w: set_flags(w, case["pat"], rng_of(case["seed"], "flags")))
    ax, mode = case["ax"], case["mode"]
    run = case["via"] == "run"
    if run:
        ax = "freq"
    V = quiet(delay_filter.DelayFilter if run else vc.VisClean, W.path)
    quiet(V.read)
    keys = [k for k in sorted(W.truth) if not (k[0] == k[1] and k[2] == "ne" and "en" in W.pols)]
    if case["sub"]:
        keys = keys[::2]
    # lengths of the baselines, averaged over redundant ones if requested (here: one tolerance above all separations joins nothing)
    length = {k: np.linalg.norm(W.enu[k[0]] - W.enu[k[1]]) / C * 1e9 for k in W.truth}
    for k in W.truth:
        require(abs(V.bllens[k[:2]] * 1e9 - length[k]) < 1e-3, f"length of {k}: {V.bllens[k[:2]] * 1e9} ns, expected {length[k]}")
    two = ax == "both"
    mf = {k: (case["mf"] if case["mf"] != "dc" else 3.0 + 2 * (k[0] + k[1])) for k in W.truth}
    kw = {}
    if mode == "dpss_solve":
        kw = dict(eigenval_cutoff=[[1e-3]] * 2 if two else [1e-3], max_contiguous_edge_flags=30)
    elif mode == "dayenu":
        kw = dict(max_contiguous_edge_flags=30)
    else:
        kw = dict(maxiter=20)
    xt, xf = (W.times - W.times.mean()) * 86400.0, W.freqs
    wg = {k: (rng.choice([0.25, 0.5, 1.0], size=(W.nt, W.nf)) if case["wgts"] else np.ones((W.nt, W.nf))) for k in W.truth}
    refs = {}
    for k in keys:
        d, f, _ = W.truth[k]
        hw = [[mf[k] * 1e-3], [max(case["hor"] * length[k] + case["so"], case["mind"]) * 1e-9]]
        if hw[1][0] == 0:
            return
        kk = dict(kw)
        if mode != "clean":
            kk["suppression_factors"] = [[case["tol"]]] * 2 if two else [case["tol"]]
        else:
            kk["tol"] = case["tol"]
        o = dict(zp=[0, 0], edges=False, gap=None, dist=[0, 0], rms=None, skip=case["skip"], kw=kk)
        a = int(ax == "freq")
        try:
            refs[k] = ref_filter(d, f, wg[k], xt, xf, ax, [[0.0], [0.0]] if two else [0.0], hw if two else hw[a], mode, [(0, W.nf)], o)
        except (ValueError, IndexError):
            return
    args = dict(mode=mode, skip_wgt=case["skip"], horizon=case["hor"], standoff=case["so"], min_dly=case["mind"], tol=case["tol"], output_postfix=case["post"], **kw)
    if case["wgts"]:
        args["weight_dict" if run else "wgts"] = datacontainer.DataContainer(dict(wg))
    if case["sub"] or len(keys) < len(W.truth):
        args["to_filter" if run else "keys"] = keys
    if not run:
        args["ax"] = ax
        if ax != "freq":
            args["max_frate"] = case["mf"] if case["mf"] != "dc" else datacontainer.DataContainer(dict(mf))
    for _ in range(case["tw"]):        # a second run changes nothing
        quiet(V.run_delay_filter if run else V.vis_clean, **args)
    x = "_" + case["post"] if case["post"] else ""
    mdl, res, fl, rf = (getattr(V, f"clean_{q}{x}") for q in ("model", "resid", "flags", "resid_flags"))
    require(set(mdl.keys()) == set(keys), f"filtered {sorted(mdl.keys())}, expected {keys}")
    for k in keys:
        d, f, _ = W.truth[k]
        M, R, S, G = refs[k]
        if k[0] == k[1] and k[2][0] == k[2][1]:
            M, R = M.real + 0j, R.real + 0j
        what = f"of {k} of {length[k]:.0f} ns ({mode} along {ax}, horizon {case['hor']}, standoff {case['so']}, minimum {case['mind']})"
        same(fl[k][G], S[G], f"flags {what}")
        same(rf[k][G], (S | f)[G], f"residual flags {what}")
        sc = np.abs(d).max() + np.abs(M).max()
        close(mdl[k][G], M[G], f"model {what}", rtol=1e-4, atol=1e-4 * sc)
        close(res[k][G], R[G], f"residual {what}", rtol=1e-4, atol=1e-4 * sc)
    ctx.label(mode, ax, case["via"])
    ctx.nontrivial(len(keys) > 1)


# ---------------------------------------------------------------- object: calibration, external flags, averaging of lengths, writing
def gen_obj(draw):
    return dict(nt=ints(draw, 2, 4), nf=ints(draw, 2, 5), lst=1.0, pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nbl=ints(draw, 1, 4), dt=10.0, p=pick(draw, [0.2, 0.0]), cal=flag(draw), fcal=flag(draw), ext=pick(draw, [None, "flag", "flag", "bl"]), over=flag(draw), dead=pick(draw, [None, "pol", "bl"]),
                ax=pick(draw, ["freq", "time", "both"]), zp=ints(draw, 0, 2), fflags=flag(draw), wr=pick(draw, ["plain", "times"]), seed=seed(draw), ow=flag(draw))


def check_obj(case, ctx):
    from pyuvdata import UVFlag
    from hera_cal import vis_clean as vc
    rng = rng_of(case["seed"], "obj")
    tmp = ctx.tmp()

    def kill(w):
        u = w.uvd
        i, j = u.ant_1_array[0], u.ant_2_array[0]
        rows = (u.ant_1_array == i) & (u.ant_2_array == j)
        if case["dead"] == "bl":
            u.flag_array[rows] = True
        elif case["dead"] == "pol":
            u.flag_array[rows, :, 0] = True
        a = u.ant_1_array == u.ant_2_array
        if "en" in w.pols:
            u.flag_array[a, :, w.pols.index("ne")] = u.flag_array[a, :, w.pols.index("en")]
    W = World(case, tmp, tones=kill)
    g = gf = cal = None
    ants = sorted({a for k in W.truth for a in k[:2]})
    if case["cal"]:
        extra = np.array([W.freqs[0] - 1e6]) if case["fcal"] else np.array([])
        cf = np.concatenate([extra, W.freqs])
        sh = (W.nt, len(cf))
        g = {(a, q): ((rng.normal(size=sh) + 1j * rng.normal(size=sh)) * 0.3 + 1).astype(np.complex64).astype(complex) for a in ants for q in ("Jee", "Jnn")}
        gf = {k: rng.random(sh) < 0.15 for k in g}
        c = quiet(make_cal, ants, g, gf, W.times, cf, make_telescope(W.enu))
        cal = os.path.join(tmp, "c.calfits")
        quiet(c.write_calfits, cal, clobber=True)
        g, gf = ({k: v[:, len(extra):] for k, v in q.items()} for q in (g, gf))
    V = quiet(vc.VisClean, W.path, input_cal=cal)
    quiet(V.read)
    T = {}
    J = {"e": "Jee", "n": "Jnn"}
    for k in W.truth:
        d, f, n = (x.copy() for x in W.truth[k])
        T[k] = (d, f, n)

    def calibrated():
        out = {}
        for k, (d, f, n) in T.items():
            if g is not None:
                i, j = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
                d, f = d / (g[i] * g[j].conj()), f | gf[i] | gf[j]
            out[k] = (d, f, n)
        return out

    def judge(what):
        for k, (d, f, n) in calibrated().items():
            same(V.flags[k], f, f"flags of {k} {what}")
            same(V.nsamples[k], n, f"nsamples of {k} {what}")
            close(V.data[k][~f], d[~f], f"data of {k} {what}", rtol=1e-5, atol=1e-5)
    if not (g is not None and "en" in W.pols and any(k[0] == k[1] for k in W.truth)):
        judge("after reading" + (" with calibration" if cal else ""))
        if case["ext"]:
            uf = quiet(UVFlag, W.uvd, mode="flag", waterfall=case["ext"] == "flag")
            uf.flag_array = rng.random(uf.flag_array.shape) < 0.3
            ua = W.uvd
            if case["ext"] == "bl" and "en" in W.pols:
                a = ua.ant_1_array == ua.ant_2_array
                uf.flag_array[a, :, W.pols.index("ne")] = uf.flag_array[a, :, W.pols.index("en")]
            E = {}
            for k in T:
                if case["ext"] == "flag":
                    order = [np.argmin(np.abs(uf.time_array - t)) for t in W.times]
                    E[k] = uf.flag_array[order][:, :, min(W.pols.index(k[2]), uf.flag_array.shape[2] - 1)]
                else:
                    rows = np.where((ua.ant_1_array == k[0]) & (ua.ant_2_array == k[1]))[0]
                    rows = rows[np.argsort(ua.time_array[rows], kind="stable")]
                    E[k] = uf.flag_array[rows][:, :, W.pols.index(k[2])]
            if case["ext"] == "flag" and "en" in W.pols and any(k[0] == k[1] for k in T):
                uf.flag_array[..., W.pols.index("ne")] = uf.flag_array[..., W.pols.index("en")]
                for k in T:
                    if k[2] == "ne":
                        E[k] = E[(k[0], k[1], "en")]
            now = calibrated()
            quiet(V.apply_flags, uf, overwrite_flags=case["over"])
            for k in T:
                d, f, n = T[k]
                if case["over"]:
                    f = np.ones_like(f) if now[k][1].all() else E[k]
                else:
                    f = f | E[k]
                T[k] = (d, f, n)
            judge(f"after applying external flags (overwrite {case['over']})")
        if case["cal"]:
            keep = {k: (V.data[k].copy(), V.flags[k].copy()) for k in V.data}
            quiet(V.apply_calibration, cal, unapply=True)
            for k in T:
                ok = ~keep[k][1]
                close(V.data[k][ok], T[k][0][ok], f"data of {k} after unapplying the calibration", rtol=1e-4, atol=1e-4)
    # transforms of the object's data
    ax = case["ax"]
    dx = {"time": W.dt, "freq": W.freqs[1] - W.freqs[0]}
    quiet(V.fft_data, data=V.data, flags=V.flags if case["fflags"] else None, ax=ax, zeropad=case["zp"], assign="ff", verbose=False)
    for k in V.data:
        if k[0] == k[1] and k[2] == "ne":      # one entry with en
            continue
        E = np.where(V.flags[k], 0, V.data[k]) if case["fflags"] else V.data[k]
        for q in {"freq": (1,), "time": (0,), "both": (0, 1)}[ax]:
            z = [(0, 0), (0, 0)]
            z[q] = (case["zp"], case["zp"])
            E = np.fft.fftshift(np.fft.fft(np.pad(E, z), axis=q), axes=q)
        close(V.ff[k], E, f"transform of {k} along {ax}", rtol=1e-4, atol=1e-4 * np.abs(E).max() + 1e-12)
    if ax != "time":
        close(V.delays, np.fft.fftshift(np.fft.fftfreq(W.nf + 2 * case["zp"], dx["freq"])) * 1e9, "delays", rtol=1e-9, atol=1e-9)
    if ax != "freq":
        close(V.frates, np.fft.fftshift(np.fft.fftfreq(W.nt + 2 * case["zp"], dx["time"])) * 1e3, "fringe rates", rtol=1e-4, atol=1e-9)
    # writing
    ks = [k for k in sorted(T) if k[0] != k[1]]
    if ks:
        from hera_cal.datacontainer import DataContainer
        pairs = sorted({k[:2] for k in ks})[:2]
        ks = [k for k in ks if k[:2] in pairs]
        nt = W.nt if case["wr"] == "plain" else max(1, W.nt - 1)
        rnd = {k: (rng.normal(size=(nt, W.nf)) + 1j * rng.normal(size=(nt, W.nf))).astype(np.complex64) for k in ks}
        fr = {k: rng.random((nt, W.nf)) < 0.3 for k in ks}
        nr = {k: rng.integers(1, 9, size=(nt, W.nf)).astype(np.float32) for k in ks}
        kw = dict(times=W.times[:nt] + 0.01, lsts=np.arange(nt) * 0.1) if case["wr"] == "times" else {}
        out = os.path.join(tmp, "o.uvh5")
        before = {k: V.data[k].copy() for k in V.data}
        quiet(V.write_data, DataContainer(dict(rnd)), out, flags=DataContainer(dict(fr)), nsamples=DataContainer(dict(nr)), overwrite=case["ow"], add_to_history="hello there", verbose=False, run_check_acceptability=False, **kw)
        c, freqs, u = contents_lenient(out)
        require("hello there" in u.history, "history of the written file")
        require(len(c) == len(ks), f"{sorted(c)} written, expected {ks}")
        for k in ks:
            t, dd, ff, nn = lookup(c, k)
            close(t, kw.get("times", W.times), "times written", rtol=0, atol=1e-9)
            same(dd, rnd[k], f"data of {k} written")
            same(ff, fr[k], f"flags of {k} written")
            same(nn, nr[k], f"nsamples of {k} written")
        if kw:
            require(set(np.round(u.lst_array, 9)) == set(np.round(kw["lsts"], 9)), "LSTs written")
        for k in V.data:
            same(V.data[k], before[k], "the object's data after writing")
        if not case["ow"]:
            with expect_raises((OSError, ValueError, IOError), "writing over an existing file"):
                quiet(V.write_data, DataContainer(dict(rnd)), out, flags=DataContainer(dict(fr)), overwrite=False, verbose=False, run_check_acceptability=False, **kw)
    ctx.label(f"cal={case['cal']}", f"ext={case['ext']}", f"dead={case['dead']}", f"over={case['over']}")
    ctx.nontrivial(len(T) > 1)


def contents_lenient(path):
    return contents(path)


# ---------------------------------------------------------------- files
def gen_file(draw):
    return dict(nt=ints(draw, 5, 8), nf=ints(draw, 8, 14), size=12, lst=1.0, pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nbl=ints(draw, 1, 4), dt=10.0, p=0.0, pat=gen_pat(draw), cal=flag(draw), per=pick(draw, [None, 1, 2]), bls=flag(draw), onepol=flag(draw), spw=flag(draw), edges=flag(draw), ext=pick(draw, [None, None, "f"]), over=flag(draw),
                avg=flag(draw), ns=flag(draw), outs=pick(draw, [7, 7, 1, 2, 4]), split=flag(draw), mode=pick(draw, ["dpss_solve", "dayenu"]), cache=flag(draw), hor=pick(draw, [1.0, 0.5]), so=pick(draw, [0.0, 60.0]), mind=pick(draw, [30.0, 100.0]), cfr=flag(draw), keep=flag(draw), seed=seed(draw), near=flag(draw))


def check_file(case, ctx):
    from pyuvdata import UVFlag
    from hera_cal import delay_filter
    rng = rng_of(case["seed"], "file")
    tmp = ctx.tmp()

    def setup(w):
        set_flags(w, case["pat"], rng_of(case["seed"], "flags"))
    W = World(case, tmp, tones=setup)
    if "en" in W.pols and case["nbl"] == 4:
        return
    keys, kw, ch = sorted(W.truth), {}, np.arange(W.nf)
    pairs = sorted({k[:2] for k in keys})
    if case["onepol"]:
        kw["polarizations"] = W.pols[:1]
        keys = [k for k in keys if k[2] == W.pols[0]]
    if case["bls"]:
        kw["baseline_list"] = pairs[:2]
        keys = [k for k in keys if k[:2] in pairs[:2]]
    elif case["per"] and not case["split"]:
        kw["Nbls_per_load"] = case["per"]
    if case["spw"]:
        kw["spw_range"] = (1, W.nf - 1)
        ch = ch[1:-1]
    paths = [W.path]
    if case["split"] and W.nt > 3:
        paths = []
        for n, (a, b) in enumerate(((0, W.nt // 2), (W.nt // 2, W.nt))):
            paths.append(os.path.join(tmp, f"part{n}.uvh5"))
            quiet(quiet(W.uvd.select, times=W.times[a:b], inplace=False).write_uvh5, paths[-1], clobber=True)
        kw["read_axis"] = "blt"
    T = {k: [x.copy() for x in W.truth[k]] for k in W.truth}
    if case["cal"]:
        ants = sorted({a for k in W.truth for a in k[:2]})
        sh = (W.nt, W.nf)
        g = {(a, q): ((rng.normal(size=sh) + 1j * rng.normal(size=sh)) * 0.3 + 1).astype(np.complex64).astype(complex) for a in ants for q in ("Jee", "Jnn")}
        gf = {k: rng.random(sh) < 0.1 for k in g}
        kw["calfile_list"] = [os.path.join(tmp, "c.calfits")]
        quiet(quiet(make_cal, ants, g, gf, W.times, W.freqs, make_telescope(W.enu)).write_calfits, kw["calfile_list"][0], clobber=True)
    E = None
    if case["ext"]:
        uf = quiet(UVFlag, W.uvd, mode="flag", waterfall=True)
        uf = quiet(uf.select, frequencies=W.freqs[ch], polarizations=uf.polarization_array[:1] if case["onepol"] else None, inplace=False) or uf
        uf.flag_array = np.repeat(rng.random(uf.flag_array.shape[:2] + (1,)) < 0.15, uf.flag_array.shape[2], axis=2)
        kw["external_flags"] = os.path.join(tmp, "ext.h5")
        quiet(uf.write, kw["external_flags"], clobber=True)
        E = np.zeros((W.nt, W.nf), bool)
        E[:, ch] = uf.flag_array[[np.argmin(np.abs(uf.time_array - t)) for t in W.times]][:, :, 0]
        kw["overwrite_flags"] = case["over"]
    J = {"e": "Jee", "n": "Jnn"}
    for k in T:
        d, f, n = T[k]
        cf = np.zeros_like(f)
        if case["cal"]:
            i, j = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
            d = (d / (g[i] * g[j].conj())).astype(np.complex64)
            cf = gf[i] | gf[j]
        if E is not None:
            f = (np.ones_like(f) if (f | cf)[:, ch].all() else E) if case["over"] else f | E
        nsf = f | cf
        T[k] = [d, f | cf, np.where(nsf, 0, n) if case["ns"] else n]
    length = {k: np.linalg.norm(W.enu[k[0]] - W.enu[k[1]]) / C * 1e9 for k in T}
    if case["avg"]:
        kw["avg_red_bllens"] = True
        if case["near"]:
            per = kw.get("Nbls_per_load", len(pairs))
            if per < len(pairs):       # baselines are averaged with those loaded together
                del kw["Nbls_per_load"]
            loaded = [q for q in ((0, 1), (1, 2)) if q in {k[:2] for k in keys}]
            mean = np.mean([W.enu[i] - W.enu[j] for i, j in loaded], axis=0)
            for k in length:
                if k[:2] in loaded:
                    length[k] = np.linalg.norm(mean) / C * 1e9
    o = dict(zp=[0, 0], edges=case["edges"], gap=None, dist=[0, 0], rms=None, skip=0.1, kw=dict(suppression_factors=[1e-4], max_contiguous_edge_flags=30))
    if case["mode"] == "dpss_solve":
        o["kw"]["eigenval_cutoff"] = [1e-3]
    xt = (W.times - W.times.mean()) * 86400.0
    ref = {}
    for k in keys:
        d, f, n = (x[:, ch] for x in T[k])
        try:
            ref[k] = ref_filter(d, f, np.ones(d.shape), xt, W.freqs[ch], "freq", [0.0], [max(case["hor"] * length[k] + case["so"], case["mind"]) * 1e-9], case["mode"], [(0, len(ch))], o)
        except (ValueError, IndexError):
            return
    outs = {"res_outfilename": os.path.join(tmp, "r.uvh5"), "CLEAN_outfilename": os.path.join(tmp, "m.uvh5"), "filled_outfilename": os.path.join(tmp, "f.uvh5")}
    outs = {k: v for n, (k, v) in enumerate(outs.items()) if case["outs"] >> n & 1}
    if case["cache"]:
        os.mkdir(os.path.join(tmp, "cache"))
        kw.update(cache_dir=os.path.join(tmp, "cache"), write_cache=True, read_cache=True)
    kk = dict(max_contiguous_edge_flags=30)
    if case["mode"] == "dpss_solve":
        kk["eigenval_cutoff"] = [1e-3]
    quiet(delay_filter.load_delay_filter_and_write, paths if len(paths) > 1 else paths[0], mode=case["mode"], horizon=case["hor"], standoff=case["so"], min_dly=case["mind"], tol=1e-4, skip_wgt=0.1, skip_flagged_edges=case["edges"], apply_flag_to_nsample=case["ns"], clean_flags_in_resid_flags=case["cfr"], keep_flags=case["keep"], clobber=True, **outs, **kw, **kk)
    for nm, path in outs.items():
        c, freqs, u = contents(path)
        same(freqs, W.freqs[ch], f"{nm}: frequencies")
        require(len(c) == len(keys), f"{nm}: {sorted(c)} written, expected {keys}")
        for k in keys:
            t, dd, ff, nn = lookup(c, k)
            d, f, n = (x[:, ch] for x in T[k])
            M, R, S, G = ref[k]
            if k[0] == k[1] and k[2][0] == k[2][1]:
                M, R = M.real, R.real
            what = f"{nm} of {k} ({length[k]:.0f} ns, {case['mode']})"
            close(t, W.times, f"times in {what}", rtol=0, atol=1e-8)
            sc = np.abs(d).max() + np.abs(M).max()
            if nm.startswith("res"):
                same(ff[G], ((f | S) if case["cfr"] else f)[G], f"flags in {what}")
                close(dd[G], R[G], what, rtol=1e-4, atol=5e-5 * sc)
            else:
                same(ff[G], ((f | S) if case["keep"] else S)[G], f"flags in {what}")
                if nm.startswith("CLEAN"):
                    close(dd[G], M[G], what, rtol=1e-4, atol=5e-5 * sc)
                else:
                    close(dd[G], np.where(f, M, d)[G], what, rtol=1e-4, atol=5e-5 * sc)
            same(nn, n.astype(nn.dtype), f"nsamples in {what}")
    ctx.label(f"per={kw.get('Nbls_per_load')}", f"cal={case['cal']}", f"ext={case['ext']}", f"files={len(paths)}", f"ns={case['ns']}")
    ctx.nontrivial(len(keys) > 1)


# ---------------------------------------------------------------- redundant average of baseline vectors
def gen_lens(draw):
    return dict(na=ints(draw, 3, 5), rev=[flag(draw) for _ in range(15)], keep=[ints(draw, 0, 3) > 0 for _ in range(15)], jit=pick(draw, [0.0, 0.05, 0.1]), autos=flag(draw), seed=seed(draw))


def check_lens(case, ctx):
    """Baseline vectors are rounded to the mean over the redundant baselines present, whichever way each is stored."""
    from hera_cal.vis_clean import VisClean
    rng = rng_of(case["seed"], "lens")
    na = case["na"]
    grid = {k: np.array([14.6 * k, 0.0, 0.0]) for k in range(na)} if na < 5 else {k: np.array([14.6 * (k % 3), 20.0 * (k // 3), 0.0]) for k in range(na)}
    ideal = {k: v.copy() for k, v in grid.items()}
    pos = {k: v + case["jit"] * np.append(rng.uniform(-1, 1, 2), 0.0) for k, v in grid.items()}
    allp = [(i, j) for i in pos for j in pos if i < j or (i == j and case["autos"])]
    pairs = [(p[::-1] if case["rev"][n] else p) for n, p in enumerate(allp) if case["keep"][n] or n == 0]
    uvd = quiet(make_uvd, pos, pairs, ["ee"], 2458838.2 + np.arange(2) * 10 / 86400, 1.2e8 + 1e6 * np.arange(3), seed=case["seed"], flag_frac=0.0)
    vc = quiet(VisClean, uvd)
    quiet(vc.read)
    stored = [tuple(int(x) for x in p) for p in vc.bls]
    require(sorted(tuple(sorted(p)) for p in stored) == sorted(tuple(sorted(p)) for p in pairs), f"baselines {stored}")
    before = {p: np.array(vc.blvecs[p]) for p in stored}
    quiet(vc.avg_red_baseline_vectors)
    for p in stored:
        v0 = ideal[p[0]] - ideal[p[1]]
        grp = []
        for q in stored:
            u = ideal[q[0]] - ideal[q[1]]
            if np.allclose(u, v0):
                grp.append(before[q])
            elif np.allclose(u, -v0):
                grp.append(-before[q])
        close(vc.blvecs[p], np.mean(grp, axis=0), f"averaged vector of {p} among {stored}", rtol=1e-8, atol=1e-6)
        close(vc.bllens[p], np.linalg.norm(np.mean(grp, axis=0)) / C, f"averaged length of {p}", rtol=1e-8, atol=1e-15)
    ctx.label(f"rev={len({p[0] < p[1] for p in stored if p[0] != p[1]})}")
    ctx.nontrivial(case["jit"] > 0 and len(stored) > 2)


SUBS = [
    Sub("edges", gen_edges, check_edges, quick=500, thorough=10000),
    Sub("rows", gen_rows, check_rows, quick=400, thorough=8000),
    Sub("fft", gen_fft, check_fft, quick=300, thorough=6000),
    Sub("pad", gen_pad, check_pad, quick=200, thorough=3000),
    Sub("trim", gen_trim, check_trim, quick=200, thorough=4000),
    Sub("filt", gen_filt, check_filt, quick=150, thorough=4000, shards=2),
    Sub("vc", gen_vc, check_vc, quick=100, thorough=2000),
    Sub("obj", gen_obj, check_obj, quick=100, thorough=2000),
    Sub("lens", gen_lens, check_lens, quick=60, thorough=1000),
    Sub("file", gen_file, check_file, quick=60, thorough=1500, shards=2),
]
