"""C25: spectrally redundant calibration (nucal): radial groups, filters, fits, weights, calibration."""
from math import gcd

import os

os.environ.setdefault("XLA_FLAGS", "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true")   # compile faster

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..lstsim import quiet

RULE = ("groups: lattices (any basis, rounding noise, north-south lines), redundant groups in any order and direction, against integer headings; history: random filter, add, append, replace and sort calls on a RadialRedundancy against a model of sets; filters: spatial filters as functions of u alone within the bounds; "
        "fit: any weights, solvers, shared or not, with and without a spectral axis, against a direct weighted least-squares fit; weights: explicit cuts; calibrate: the gains and model returned against the loss history, and a reused calibrator against a fresh one. Non-trivial: at least two radial groups, times or operations.")
ASSUMPTIONS = ["distinct headings differ by more than the tolerance, equal ones by much less", "fits are determined by the data with weight"]
C = 299792458.0


def rev(b):
    return (b[1], b[0], b[2][::-1])


def layout(case, rng):
    """Lattice coordinates and positions."""
    n = case["na"]
    kind = case["kind"]
    if kind == "line":
        pts = [(x, 0) for x in sorted(rng.choice(9, size=n, replace=False).tolist())]
    elif kind == "ns":
        pts = [(0, y) for y in sorted(rng.choice(9, size=n, replace=False).tolist())]
    else:
        every = [(x, y) for x in range(4) for y in range(4)]
        pts = [every[i] for i in rng.permutation(16)[:n]]
    B = {"square": np.array([[5.0, 0], [0, 5.0]]), "hex": np.array([[6.0, 0], [3.0, 3 * np.sqrt(3)]]), "rot": None}[case["basis"]]
    if B is None:
        th = rng.uniform(0, np.pi)
        B = 7.0 * np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    ants = sorted(rng.choice(40, size=n, replace=False).tolist())
    if case["shuffle"]:
        rng.shuffle(ants)
    lat = dict(zip(ants, pts))
    noise = case["noise"]
    pos = {a: np.append(np.array(p) @ B, 0.0) + noise * rng.uniform(-1, 1, size=3) * [1, 1, 0] for a, p in lat.items()}
    return lat, pos


def vec(lat, b):
    return (lat[b[1]][0] - lat[b[0]][0], lat[b[1]][1] - lat[b[0]][1])


def head(lat, b):
    v = vec(lat, b)
    g = gcd(*v)
    return (v[0] // g, v[1] // g)


def axis_(h):
    return max(h, (-h[0], -h[1]))


def reds_of(lat, pols, rng=None, shuffle=False):
    groups = {}
    ants = sorted(lat)
    for i, a in enumerate(ants):
        for b in ants[i + 1:]:
            v = vec(lat, (a, b))
            s = (a, b) if v > (0, 0) else (b, a)
            groups.setdefault(vec(lat, s), []).append(s)
    reds = []
    for p in pols:
        for g in groups.values():
            g = [x + (p,) for x in g]
            if shuffle:
                rng.shuffle(g)
                g = [tuple(x) for x in g]
                g = [(int(a), int(b), str(q)) for a, b, q in g]
                if rng.integers(2):
                    g = [(b, a, q) for a, b, q in g]
            reds.append(g)
    if shuffle:
        reds = [reds[i] for i in rng.permutation(len(reds))]
    return reds


GEN = dict(kind=["grid", "grid", "line", "ns"], basis=["square", "hex", "rot"], noise=[0.0, 1e-13, 1e-7])


def gen_groups(draw):
    return dict(seed=seed(draw), na=ints(draw, 2, 7), kind=pick(draw, GEN["kind"]), basis=pick(draw, GEN["basis"]), noise=pick(draw, GEN["noise"]), shuffle=flag(draw), pols=pick(draw, [["nn"], ["ee", "nn"], ["nn", "ee", "en"]]), min=ints(draw, 1, 3), auto=flag(draw), tol=pick(draw, [1e-4, 1e-2]))


def check_groups(case, ctx):
    from hera_cal import nucal
    rng = rng_of(case["seed"], "groups")
    lat, pos = layout(case, rng)
    reds = reds_of(lat, case["pols"], rng, case["shuffle"])
    keep = {a: p.copy() for a, p in pos.items()}
    kept = [list(g) for g in reds]
    uors = nucal.get_unique_orientations(pos, reds, min_ubl_per_orient=case["min"], blvec_error_tol=case["tol"])
    require(kept == reds and all(np.array_equal(keep[a], pos[a]) for a in pos), "get_unique_orientations changed its input")
    classes = {}
    for g in reds:
        classes.setdefault((axis_(head(lat, g[0])), g[0][2]), set()).add(frozenset((g[0], (g[0][1], g[0][0], g[0][2]))))
    want = {k: v for k, v in classes.items() if len(v) >= case["min"]}
    got = {}
    for g in uors:
        hs = {head(lat, b) for b in g}
        require(len(hs) == 1, f"a radial group has the headings {sorted(hs)}: {g}")
        k = (axis_(hs.pop()), g[0][2])
        require(k not in got, f"heading {k} is in two radial groups: {got.get(k)}, {g}")
        got[k] = {frozenset((b, (b[1], b[0], b[2]))) for b in g}
        require(len(got[k]) == len(g), f"baselines repeat in {g}")
    require(got == want, f"radial groups {uors} for the headings {want}")
    require([len(g) for g in uors] == sorted((len(g) for g in uors), reverse=True), "groups are not sorted by length")
    freqs = np.sort(rng.uniform(1e8, 2e8, size=4))
    for g, (lo, hi) in zip(uors, nucal.get_u_bounds(uors, pos, freqs)):
        L = [np.linalg.norm(pos[b[0]] - pos[b[1]]) for b in g]
        close([lo, hi], [min(L) * freqs[0] / C, max(L) * freqs[-1] / C], "u bounds", rtol=1e-12)
    bls = [b if rng.integers(2) else (b[1], b[0], b[2]) for g in reds for b in g[:1]]
    for _ in range(6):
        b1, b2 = bls[int(rng.integers(len(bls)))], bls[int(rng.integers(len(bls)))]
        same_h = head(lat, b1) == head(lat, b2)
        require(bool(nucal.is_same_orientation(b1, b2, pos, blvec_error_tol=case["tol"])) == same_h, f"{b1} and {b2} have headings {head(lat, b1)} and {head(lat, b2)}")
        l1, l2 = (np.linalg.norm(pos[b[0]] - pos[b[1]]) for b in (b1, b2))
        olap = max(l1, l2) * freqs[0] <= min(l1, l2) * freqs[-1]
        if abs(max(l1, l2) * freqs[0] / (min(l1, l2) * freqs[-1]) - 1) > 1e-6:
            e = same_h and b1[2] == b2[2] and olap
            require(bool(nucal.is_frequency_redundant(b1, b2, freqs, pos, blvec_error_tol=case["tol"])) == e, f"{b1} and {b2} of lengths {l1:.2f} and {l2:.2f}, same heading {same_h}, frequency redundant: {not e}")
    # the tolerance is the distance between unit vectors
    t = float(rng.uniform(0.2, 3.0)) * case["tol"]
    if abs(t / case["tol"] - 1) > 0.01:
        p3 = {0: np.zeros(3), 1: np.array([3.0, 0, 0]), 2: 8.0 * np.array([np.cos(t), np.sin(t), 0])}
        require(bool(nucal.is_same_orientation((0, 1, "nn"), (0, 2, "nn"), p3, blvec_error_tol=case["tol"])) == (t < case["tol"]), f"unit vectors {t / case['tol']:.2f} tolerances apart")
    ctx.label(case["kind"], f"{len(want)} groups" if len(want) < 3 else "3+ groups")
    ctx.nontrivial(len(classes) > 1)


# ---------------------------------------------------------------- histories
OPS = ["filter", "add", "addrev", "append", "set", "sort", "bad", "get"]


def gen_hist(draw):
    return dict(seed=seed(draw), na=ints(draw, 3, 7), kind=pick(draw, GEN["kind"]), basis=pick(draw, GEN["basis"]), noise=pick(draw, GEN["noise"]), shuffle=flag(draw), pols=pick(draw, [["nn"], ["ee", "nn"]]), ops=[(pick(draw, OPS), ints(draw, 0, 99), ints(draw, 0, 99)) for _ in range(ints(draw, 1, 7))], own=flag(draw))


def check_hist(case, ctx):
    from hera_cal import nucal
    rng = rng_of(case["seed"], "hist")
    lat, pos = layout(case, rng)
    reds = reds_of(lat, case["pols"], rng, case["shuffle"])
    if case["own"]:
        rr = nucal.RadialRedundancy(pos, reds=[list(g) for g in reds])
    else:
        rr = nucal.RadialRedundancy(pos, pols=list(case["pols"]), bl_error_tol=1.0)
        reds = [list(g) for g in rr.reds]
    mine = [list(g) for g in rr]
    first = [list(g) for g in rr]
    length = {b: np.linalg.norm(pos[b[0]] - pos[b[1]]) for g in reds for x in g for b in (x, (x[1], x[0], x[2]))}
    flip = lambda b: (b[1], b[0], b[2])
    proto = {b: g[0] for g in reds for b in g}
    proto.update({flip(b): flip(g[0]) for g in reds for b in g})

    def audit(what):
        require(len(rr) == len(mine), f"{len(rr)} groups after {what}, expected {len(mine)}")
        for i, (g, m) in enumerate(zip(rr, mine)):
            require(set(g) == set(m) and len(g) == len(m), f"group {i} is {g} after {what}, expected {m}")
            require(rr[i] == g, "index and iteration differ")
            for b in g:
                close(rr.baseline_lengths[b], length[b], f"length of {b}", rtol=1e-12)
        for g in reds:
            b = g[int(rng.integers(len(g)))]
            for k in (b, flip(b)):
                rg = rr.get_redundant_group(k)
                e = set(g) if k == b else {flip(x) for x in g}
                require(set(rg) == e and len(rg) == len(e), f"redundant group of {k}: {rg}")
                p = proto[k]
                e = next((set(m) for m in mine if p in m), None) or next(({flip(x) for x in m} for m in mine if flip(p) in m), None)
                if e is None:
                    with expect_raises((KeyError,), f"{k} is in no radial group after {what}"):
                        rr.get_radial_group(k)
                else:
                    r = rr.get_radial_group(k)
                    require(set(r) == e and len(r) == len(e), f"radial group of {k} after {what}: {r}, expected {sorted(e)}")
                    require({head(lat, x) for x in r} == {head(lat, k)}, f"radial group of {k} has other headings: {r}")
        for p in case["pols"]:
            require([sorted(g) for g in rr.get_pol(p)] == [sorted(m) for m in mine if m[0][2] == p], f"groups of {p} after {what}")

    audit("construction")
    todo = [b for g in first for b in g]
    for op, x, y in case["ops"]:
        what = op
        g = first[x % len(first)]
        part = [b for i, b in enumerate(g) if (y >> (i % 6)) & 1] or g[:1]
        key = lambda m: (head(lat, m[0]), m[0][2])
        if op == "filter":
            L = sorted({round(v, 4) for v in length.values()})
            lo = None if x % 3 == 0 else L[x % len(L)] - 1e-3
            hi = None if y % 3 == 0 else L[y % len(L)] + 1e-3
            n = 1 + (x + y) % 3
            kw = {k: v for k, v in dict(min_bl_cut=lo, max_bl_cut=hi, min_nbls=n).items() if v is not None and not (k == "min_nbls" and n == 1)}
            rr.filter_radial_groups(**kw)
            mine = [[b for b in m if (lo is None or length[b] > lo) and (hi is None or length[b] < hi)] for m in mine]
            mine = [m for m in mine if len(m) >= n]
            what = f"filter_radial_groups({kw})"
        elif op in ("add", "addrev"):
            add = [flip(b) for b in part] if op == "addrev" else list(part)
            rr.add_radial_group(list(add))
            m = next((m for m in mine if key(m) == key(add)), None)
            if m is None:
                mine.append(add)
            else:
                m += [b for b in add if b not in m]
            what = f"adding {add}"
        elif op in ("append", "set"):
            clash = any(key(m) == key(part) for m in mine)
            i = y % len(mine) if mine else 0
            if op == "set" and not mine:
                continue
            call = (lambda: rr.append(list(part))) if op == "append" else (lambda: rr.__setitem__(i, list(part)))
            if clash:
                with expect_raises((ValueError,), f"heading of {part} exists"):
                    call()
            else:
                call()
                if op == "append":
                    mine.append(list(part))
                else:
                    mine[i] = list(part)
            what = f"{op} {part}{' (refused)' if clash else ''}"
        elif op == "sort":
            if x % 2:
                rr.sort(key=lambda m: min(length[b] for b in m), reverse=bool(y % 2))
                mine.sort(key=lambda m: min(length[b] for b in m), reverse=bool(y % 2))
            else:
                rr.sort(reverse=bool(y % 2)) if y % 4 > 1 else rr.sort()
                mine.sort(key=len, reverse=bool(y % 2) if y % 4 > 1 else True)
        elif op == "bad":
            other = next((b for b in todo if head(lat, b) != head(lat, g[0]) and b[2] == g[0][2]), None)
            call = [rr.append, rr.add_radial_group, lambda v: rr.__setitem__(0, v)][x % 3]
            if other is not None and y % 2:
                with expect_raises((ValueError,), "headings differ"):
                    call([g[0], other])
            else:
                with expect_raises((ValueError,), "polarizations differ"):
                    call([g[0], g[0][:2] + ("xx",)])
            with expect_raises((TypeError,), "not a list of tuples"):
                call("abc" if y % 4 > 1 else ["abc", "def"])
        elif op == "get":
            with expect_raises((KeyError,), "unknown baseline"):
                (rr.get_radial_group if x % 2 else rr.get_redundant_group)((999, 0, "nn"))
        audit(what)
    ctx.label(*[o for o, _, _ in case["ops"]])
    ctx.nontrivial(len(case["ops"]) > 1)


# ---------------------------------------------------------------- filters
def gen_filt(draw):
    return dict(seed=seed(draw), na=ints(draw, 2, 5), kind=pick(draw, ["line", "grid", "ns"]), basis="square", noise=0.0, shuffle=flag(draw), nf=pick(draw, [12, 40]), umin=flag(draw), umax=flag(draw), hw=pick(draw, [0.3, 1.0]), cut=pick(draw, [1e-12, 1e-6]), tau=pick(draw, [5e-9, 20e-9]))


def check_filt(case, ctx):
    from hera_cal import nucal
    rng = rng_of(case["seed"], "filt")
    lat, pos = layout(case, rng)
    rr = nucal.RadialRedundancy(pos, reds=reds_of(lat, ["nn"], rng, case["shuffle"]))
    freqs = 1e8 * (1 + np.arange(case["nf"]) / (case["nf"] // 2))     # u coincide between baselines of commensurate lengths
    S = nucal.compute_spectral_filters(freqs, case["tau"], eigenval_cutoff=case["cut"])
    require(S.shape[0] == len(freqs) and np.isrealobj(S), "spectral filters are not real")
    close(S.T @ S, np.eye(S.shape[1]), "spectral filters are orthonormal", atol=1e-6)
    for _ in range(2):     # smooth spectra are inside, fast ones outside
        t = case["tau"] * rng.uniform(-0.6, 0.6)
        z = np.exp(2j * np.pi * freqs * t)
        if case["cut"] == 1e-12:
            close(S @ (S.T @ z), z, "a spectrum within the half width is not described", rtol=0, atol=0.02)
    L = rr.baseline_lengths
    allL = [L[b] for g in rr for b in g]
    kw = {}
    if case["umin"]:
        kw["umin"] = float(np.quantile(allL, 0.3)) * 1.31e8 / C
    if case["umax"]:
        kw["umax"] = float(np.quantile(allL, 0.8)) * 1.73e8 / C
    if case["umin"] and case["umax"] and kw["umin"] * 1.1 > kw["umax"]:
        return
    for g in rr:        # each group keeps some of its u range
        if kw.get("umin", 0) * 1.05 > max(L[b] for b in g) * freqs.max() / C or min(L[b] for b in g) * freqs.min() / C * 1.05 > kw.get("umax", 1e9):
            return
    F = nucal.compute_spatial_filters(rr, freqs, spatial_filter_half_width=case["hw"], eigenval_cutoff=case["cut"], **kw)
    require(set(F) == {b for g in rr for b in g}, "filters for other baselines than the groups'")
    for g in rr:
        umin = kw.get("umin", min(L[b] for b in g) * freqs.min() / C)
        umax = kw.get("umax", max(L[b] for b in g) * freqs.max() / C)
        if umax <= umin:
            continue
        one = nucal.compute_spatial_filters_single_group(g, freqs, L, spatial_filter_half_width=case["hw"], eigenval_cutoff=case["cut"], **kw)
        us, rows = [], []
        for b in g:
            same(one[b], F[b], f"filters of {b} alone and with the other groups")
            u = L[b] * freqs / C
            require(F[b].shape == (len(freqs), F[g[0]].shape[1]) and np.isrealobj(F[b]), f"filters of {b} have shape {F[b].shape}")
            out = (u < umin * (1 - 1e-9)) | (u > umax * (1 + 1e-9))
            require(not np.any(F[b][out]), f"filters of {b} are not 0 outside the u bounds")
            edge = (np.abs(u / umin - 1) < 1e-9) | (np.abs(u / umax - 1) < 1e-9)
            us.append(u[~out & ~edge])
            rows.append(F[b][~out & ~edge])
        us, rows = np.concatenate(us), np.concatenate(rows)
        o = np.argsort(us)
        us, rows = us[o], rows[o]
        for i in np.where(np.diff(us) < 1e-9 * umax)[0]:
            close(rows[i], rows[i + 1], f"two baselines at the same u = {us[i]:.4f} have different filters", rtol=1e-6, atol=1e-6 * np.abs(rows).max())
        if min(len(us), len(freqs)) > 2 * case["hw"] * (umax - umin) + 24 and case["cut"] == 1e-12:     # plane waves from within the half width are described
            l = rng.uniform(-0.9, 0.9) * case["hw"]
            z = np.exp(2j * np.pi * us * l)
            c = np.linalg.lstsq(rows.astype(complex), z, rcond=1e-13)[0]
            close(rows @ c, z, f"source at l = {l:.2f} over a u range of {umax - umin:.2f}", rtol=0, atol=0.15)
            ctx.label("plane wave")
    ctx.label("umin" if case["umin"] else "", "umax" if case["umax"] else "")
    ctx.nontrivial(len(rr) > 1)


# ---------------------------------------------------------------- fits
def gen_fit(draw):
    return dict(seed=seed(draw), na=pick(draw, [3, 4]), kind=pick(draw, ["line", "grid"]), basis="square", noise=0.0, shuffle=flag(draw), pols=pick(draw, [["nn"], ["ee", "nn"]]), nt=pick(draw, [1, 2]), nf=pick(draw, [8]), ns=pick(draw, [2, 3]), spec=pick(draw, [0, 0, 2]), share=flag(draw), solver=pick(draw, ["lu_solve", "solve", "pinv", "lstsq"]), zero=flag(draw), span=flag(draw), flips=flag(draw), comps=flag(draw))


def check_fit(case, ctx):
    from hera_cal import nucal
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "fit")
    lat, pos = layout(case, rng)
    reds = reds_of(lat, case["pols"], rng, case["shuffle"])
    rr = nucal.RadialRedundancy(pos, reds=reds)
    nt, nf, ns = case["nt"], case["nf"], case["ns"]
    F = {}
    for g in rr:
        for b in g:
            F[b] = rng.normal(size=(nf, ns))
    S = np.linalg.qr(rng.normal(size=(nf, case["spec"])))[0] if case["spec"] else None
    D, W, true = {}, {}, {}
    for g in rr:
        true[g[0]] = cplx(rng, (1 if case["share"] else nt, case["spec"], ns) if S is not None else (1 if case["share"] else nt, ns))
        for b in g:
            m = np.einsum("fm,fn,tmn->tf", S, F[b], true[g[0]]) if S is not None else np.einsum("fn,tn->tf", F[b], true[g[0]])
            D[b] = m * np.ones((nt, 1)) if case["span"] else cplx(rng, (nt, nf))
            W[b] = rng.uniform(0.5, 2, size=(nt, nf))
            if case["zero"]:
                z = np.zeros((nt, nf), dtype=bool)
                z[:, rng.integers(nf)] = True
                W[b][z] = 0
                D[b][z] = 1e3
    store = {}
    for b in D:
        fl = case["flips"] and rng.integers(2)
        store[rev(b) if fl else b] = np.conj(D[b]) if fl else D[b].copy()
    data, wgts = DataContainer(store), DataContainer({k: W[k if k in W else rev(k)].copy() for k in store})
    kw = dict(share_fg_model=case["share"], solver=case["solver"], alpha=1e-12)
    comps = quiet(nucal.fit_nucal_foreground_model, data, wgts, rr, F, spectral_filters=S, return_model_comps=True, **kw)
    require(set(comps) == {g[0] for g in rr}, "components for other keys than the groups' first baselines")
    exp = {}
    for g in rr:
        X = np.concatenate([np.einsum("fm,fn->fmn", S, F[b]).reshape(nf, -1) if S is not None else F[b] for b in g])
        cs = []
        for ts in ([range(nt)] if case["share"] else [[t] for t in range(nt)]):
            XX = np.concatenate([X for t in ts])
            y = np.concatenate([D[b][t] for t in ts for b in g])
            w = np.sqrt(np.concatenate([W[b][t] for t in ts for b in g]))
            c, _, rank, sv = np.linalg.lstsq(XX * w[:, None], y * w, rcond=1e-12)
            if rank < XX.shape[1] or sv[-1] < 0.02 * sv[0]:
                return
            cs.append(c.reshape(true[g[0]].shape[1:]))
        exp[g[0]] = np.array(cs)
        close(comps[g[0]], exp[g[0]], f"components of the group of {g[0]} ({case['solver']})", rtol=1e-5, atol=1e-5)
        if case["span"]:
            close(comps[g[0]], true[g[0]], f"components of noiseless data of the group of {g[0]}", rtol=1e-5, atol=1e-5)
    model = quiet(nucal.fit_nucal_foreground_model, data, wgts, rr, F, spectral_filters=S, **kw)
    ev = quiet(nucal.evaluate_foreground_model, rr, comps, F, spectral_filters=S)
    for g in rr:
        for b in g:
            e = np.einsum("fm,fn,tmn->tf", S, F[b], exp[g[0]]) if S is not None else np.einsum("fn,tn->tf", F[b], exp[g[0]])
            for k in rr.get_redundant_group(b):
                for m in (model, ev):
                    close(m[k], e, f"model of {k}, redundant with {b}", rtol=1e-4, atol=1e-4)
                    close(m[rev(k)], np.conj(e), f"model of {rev(k)}", rtol=1e-4, atol=1e-4)
    if S is None:      # constant along the spectral axis
        from scipy.signal.windows import dpss
        Q = dpss(nf, 2.5, 5).T
        pr = nucal.project_u_model_comps_on_spec_axis(comps, Q)
        for k in comps:
            close(pr[k], comps[k][:, None] * Q.sum(axis=0)[None, :, None], f"projection of {k}", rtol=1e-9)
    bad = {k: v for k, v in comps.items()}
    bad.pop(rr[0][0])
    with expect_raises((AssertionError,), "a group has no components"):
        nucal.evaluate_foreground_model(rr, bad, F, spectral_filters=S)
    ctx.label(case["solver"], "spectral" if S is not None else "spatial", "shared" if case["share"] else "")
    ctx.nontrivial(nt > 1 or len(rr) > 1)


# ---------------------------------------------------------------- weights
def gen_wgts(draw):
    return dict(seed=seed(draw), na=ints(draw, 3, 4), kind=pick(draw, ["line", "grid"]), basis="square", noise=0.0, shuffle=flag(draw), pols=pick(draw, [["nn"], ["ee", "nn"]]), nt=ints(draw, 2, 3), nf=ints(draw, 4, 8), cuts=[flag(draw) for _ in range(4)], spw=ints(draw, 0, 2), flags=flag(draw), flips=flag(draw), times=flag(draw), member=flag(draw))


def check_wgts(case, ctx):
    from hera_cal import nucal
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "wgts")
    lat, pos = layout(case, rng)
    reds = reds_of(lat, case["pols"], rng, case["shuffle"])
    rr = nucal.RadialRedundancy(pos, reds=reds)
    nt, nf = case["nt"], case["nf"]
    shape = (nt, nf)
    freqs = 1e8 + np.cumsum(np.full(nf, 4e6))
    df = 4e6
    times = 2459000 + np.arange(nt) * 20 / 86400
    bls = [g[int(rng.integers(len(g)))] if case["member"] else g[0] for g in reds]
    if not case["member"]:
        first = {b for g in rr for b in g}
        bls = [b if b in first else rev(b) for b in bls]
    else:        # groups' keys must be found in the data
        bls = sorted(set(bls) | {b for g in rr for b in g if rev(b) not in set(bls)})
    if case["flips"]:
        bls = [rev(b) if rng.integers(2) else b for b in bls]
    FL = {b: rng.random(shape) < 0.2 if case["flags"] else np.zeros(shape, dtype=bool) for b in bls}
    NS = {b: rng.integers(0, 5, size=shape).astype(float) for b in bls}
    A = {(a, a, p): rng.uniform(1, 5, size=shape) + 0j for a in pos for p in case["pols"]}
    dfl = DataContainer({b: f.copy() for b, f in FL.items()})
    tb = {b[:2]: times for b in bls}
    tb.update({b[:2][::-1]: times for b in bls})
    dfl.freqs = freqs
    kw = {}
    if case["times"]:
        kw.update(times_by_bl=tb, df=df)
    else:
        dfl.times_by_bl = tb
    L = rr.baseline_lengths
    us = np.concatenate([L[b] * freqs / C for g in rr for b in g])
    for c, name, v in zip(case["cuts"], ["min_u_cut", "max_u_cut", "min_freq_cut", "max_freq_cut"], [np.quantile(us, rng.uniform(0, 0.5)) + 1e-6, np.quantile(us, rng.uniform(0.5, 1)) - 1e-6, freqs[0] + rng.uniform(0, 6e6), freqs[-1] - rng.uniform(0, 6e6)]):
        if c:
            kw[name] = float(v)
    if case["spw"]:
        kw["spw_range_flags"] = [tuple(np.sort(rng.uniform(freqs[0] - 1e6, freqs[-1] + 1e6, size=2)).tolist()) for _ in range(case["spw"])]
    w = nucal.build_nucal_wgts(dfl, DataContainer({b: n.copy() for b, n in NS.items()}), DataContainer(A), DataContainer({k: np.zeros(shape, dtype=bool) for k in A}), rr, freqs, **kw)
    require(set(w.keys()) == set(bls), "weights for other baselines than the data's")
    for b in bls:
        u = np.linalg.norm(pos[b[0]] - pos[b[1]]) * freqs / C
        cut = (u < kw.get("min_u_cut", -1)) | (u > kw.get("max_u_cut", 1e99)) | (freqs < kw.get("min_freq_cut", -1)) | (freqs > kw.get("max_freq_cut", 1e99))
        for lo, hi in kw.get("spw_range_flags", []):
            cut |= (freqs > lo) & (freqs < hi)
        e = np.where(FL[b] | cut, 0, NS[b] * 20 * df / np.abs(A[b[0], b[0], b[2]] * A[b[1], b[1], b[2]]))
        close(w[b], e, f"weights of {b} with {kw if not case['times'] else sorted(kw)}", rtol=1e-4)
    ctx.label(*[k for k in kw if "cut" in k])
    ctx.nontrivial(len(kw) > 0)


# ---------------------------------------------------------------- calibration
def gen_cal(draw):
    return dict(seed=seed(draw), arr=pick(draw, ["line", "L", "stretch"]), est=flag(draw), share=flag(draw), spat=flag(draw), solver=pick(draw, ["lu_solve", "solve"]), minor=pick(draw, [0, 2]), n=ints(draw, 1, 4), opt=pick(draw, ["adam", "novograd", "sgd"]), pols=pick(draw, [["nn"], ["nn"], ["ee", "nn"]]), zero=flag(draw), reuse=pick(draw, ["", "", "filter", "add", "tau"]), alpha=pick(draw, [1e-8, 1e-6]))


ARR = {"line": [(0, 0), (1, 0), (2, 0), (4, 0)], "L": [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1)], "stretch": [(0, 0), (2, 0), (4, 0), (6, 0), (0, 3), (2, 3)]}


def check_cal(case, ctx):
    from hera_cal import nucal
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "cal")
    pos = {i: np.array([4.0 * x, 5.0 * y, 0.0]) for i, (x, y) in enumerate(ARR[case["arr"]])}
    nt, nf = 2, 16
    freqs = np.linspace(120e6, 140e6, nf)
    rr = nucal.RadialRedundancy(pos, pols=list(case["pols"]))
    D, W = {}, {}
    for g in rr:
        for b in g:
            u = rr.baseline_lengths[b] * freqs / C
            ph = (pos[b[0]] - pos[b[1]]) @ np.array([0.01, -0.015, 0])
            D[b] = (1 + 0.2 * np.sin(2 * np.pi * u * 0.25)) * np.exp(1j * ph) * rng.uniform(0.95, 1.05, size=(nt, 1)) + 0.01 * cplx(rng, (nt, nf))
            W[b] = rng.uniform(0.5, 2, size=(nt, nf))
            if case["zero"]:
                W[b][:, 5] = 0
    data, wgts = DataContainer({k: v.copy() for k, v in D.items()}), DataContainer({k: v.copy() for k, v in W.items()})
    data.freqs = freqs
    fl = {(a, f"J{p}"): np.zeros((nt, nf), dtype=bool) for a in pos for p in case["pols"]}
    lr = {"adam": 1e-3, "novograd": 1e-3, "sgd": 1e-6}[case["opt"]]
    kw = dict(cal_flags=fl, spatial_estimate_only=case["spat"], alpha=case["alpha"], share_fg_model=case["share"], spectral_filter_half_width=20e-9, estimate_degeneracies=case["est"], optimizer_name=case["opt"], learning_rate=lr, minor_cycle_maxiter=case["minor"], convergence_criteria=0, return_model=True, umin=1.5, umax=14.0, spatial_filter_half_width=0.4, eigenval_cutoff=1e-9, linear_solver=case["solver"])
    cal = nucal.SpectrallyRedundantCalibrator(rr)
    if case["reuse"]:       # a calibrator with a history
        if case["reuse"] == "filter":
            quiet(cal.post_redcal_nucal, data, wgts, major_cycle_maxiter=1, **kw)
            rr.filter_radial_groups(max_bl_cut=max(rr.baseline_lengths.values()) - 0.1)
        elif case["reuse"] == "add":
            lost = max((b for g in rr for b in g), key=lambda b: rr.baseline_lengths[b])
            rr.filter_radial_groups(max_bl_cut=rr.baseline_lengths[lost] - 0.1)
            if len(rr.get_pol("nn")) == 0:
                return
            quiet(cal.post_redcal_nucal, data, wgts, major_cycle_maxiter=1, **kw)
            rr.add_radial_group([lost])
        else:
            quiet(cal.post_redcal_nucal, data, wgts, major_cycle_maxiter=1, **{**kw, "spectral_filter_half_width": 40e-9, "umax": 13.5})
    gains, pars, meta, model = quiet(cal.post_redcal_nucal, data, wgts, major_cycle_maxiter=case["n"], **kw)
    for k in D:
        same(data[k], D[k], "calibration changed the data")
    other = nucal.SpectrallyRedundantCalibrator(rr)
    g2, _, meta2, m2 = quiet(other.post_redcal_nucal, data, wgts, major_cycle_maxiter=case["n"] + 1, **kw)
    for p in case["pols"]:
        h, h2 = np.asarray(meta[p]["loss_history"]), np.asarray(meta2[p]["loss_history"])
        require(meta[p]["niter"] == case["n"] and len(h) == case["n"] * (1 + case["minor"]), f"{len(h)} losses for {meta[p]['niter']} iterations")
        close(h2[:len(h)], h, f"losses of {p}: a calibrator {'with a history' if case['reuse'] else ''} against a fresh one", rtol=1e-6)
        # the loss of the next step is that of the gains and model returned
        nxt = h2[-1]
        L = sum((W[b] * np.abs(D[b] - gains[b[0], "J" + p] * np.conj(gains[b[1], "J" + p]) * model[b])**2).sum() for g in rr.get_pol(p) for b in g)
        reg = case["alpha"] * sum(float((np.asarray(x)**2).sum()) for n in ("fg_r", "fg_i") for x in pars[p][n])
        close(L + reg, nxt, f"loss of {p} by the gains and model returned against the loss of the next step", rtol=1e-6, atol=1e-9)
    require(set(gains) == set(fl), f"gains for {sorted(gains)}")
    ctx.label(case["arr"], case["reuse"], "estimated" if case["est"] else "")
    ctx.nontrivial(case["n"] > 1 or bool(case["reuse"]))


SUBS = [Sub("groups", gen_groups, check_groups, quick=400, thorough=8000, shards=1),
        Sub("history", gen_hist, check_hist, quick=300, thorough=8000, shards=1),
        Sub("filters", gen_filt, check_filt, quick=60, thorough=1500, shards=2),
        Sub("fit", gen_fit, check_fit, quick=80, thorough=1500, shards=2),
        Sub("weights", gen_wgts, check_wgts, quick=200, thorough=4000, shards=1),
        Sub("calibrate", gen_cal, check_cal, quick=16, thorough=400, shards=2)]
