"""C30: models are matched to data by baseline, time and antenna, and calibration against them runs through files."""
import os

import numpy as np

from ..core import Sub, Violation, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions
from ..lstsim import TWOPI, drift_phase, jd_for_lst, quiet
from ..redsim import AP, ants_of, gains_for, rev, sky
from ..uvsim import freqs_of, make_cal, make_uvd, times_of
from .c18 import sun_alt

RULE = ("bls: match_baselines against brute force over separation vectors; tmap: nearest times, file matching and time listings; reds: redundant matching, mirroring and averaging; grid: interpolation, rephasing, cuts, axis moves; "
        "wgts: weights by their definition; run: post_redcal_abscal_run on simulated raw, redcal and model files (other LST grid, other antenna numbers, redundant models, redundant solutions, chunked in time), judged by calibrated data = matched, rephased model; "
        "mult: products of calibration files; mbc: run_model_based_calibration. Non-trivial: several baselines or several times matched.")
ASSUMPTIONS = ["lattice layouts, so that redundancy is unambiguous", "phase errors small enough for logarithmic calibration, as in C07", "model and data files share the frequency axis"]
HERA_LAT = -30.72152612068957


def vec(pos, b):
    return np.asarray(pos[b[0]]) - np.asarray(pos[b[1]])


def canon(b):
    return min(b, rev(b))


# ---------------------------------------------------------------- match_baselines
def gen_bls(draw):
    return dict(lay=gen_layout(draw, dims=2, nmin=2, nmax=6, span=2), mode=pick(draw, ["full", "model", "model", "both"]), pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), usep=pick(draw, [None, None, 1]),
                lo=pick(draw, [None, None, 1.0, 15.0]), hi=pick(draw, [None, None, 30.0]), renum=ints(draw, 0, 3), drop=ints(draw, 0, 4), autos=flag(draw), inc=flag(draw), off=pick(draw, [0.0, 0.0, 33.0]), seed=seed(draw))


def oriented(rng, pairs, P):
    """keys of all polarizations, each antenna pair in one random orientation"""
    out = []
    for q in pairs:
        q = q if rng.integers(2) else q[::-1]
        out += [q + (p,) for p in P]
    return out


def classes(pairs, pos):
    out = {}
    for b in pairs:
        v = np.round(vec(pos, b), 2) + 0.0
        key = (b[2], tuple(v))
        kr = (rev(b)[2], tuple(-v + 0.0))
        if kr in out:
            out[kr].append(rev(b))
        else:
            out.setdefault(key, []).append(b)
    return out


def check_bls(case, ctx):
    from hera_cal import abscal
    rng = rng_of(case["seed"])
    dpos = positions(case["lay"], 14.6)
    ants = sorted(dpos)
    mode = case["mode"]
    mnum = {a: (a if mode == "full" or case["renum"] == 0 else (case["renum"] * 7 + 3 * k) % 101) for k, a in enumerate(ants)}
    shift = np.array([case["off"], -case["off"], 0.0]) if mode != "full" else np.zeros(3)
    mpos = {mnum[a]: p + shift for a, p in dpos.items()}
    if mode != "full" and len(ants) > 2 and case["drop"] == 4:
        mpos.pop(mnum[ants[0]])
    P = case["pols"]

    def build(pos, unique):
        aa = sorted(pos)
        allb = oriented(rng, [(a, b) for k, a in enumerate(aa) for b in aa[k:] if a != b or case["autos"]], P)
        allb = [b for b in allb if b[0] != b[1] or b[2][0] == b[2][1]]
        if unique:
            # one baseline of each class, any member
            allb = [g[rng.integers(len(g))] for g in classes(allb, pos).values()]
        return [b for b in allb if rng.integers(8) >= case["drop"] % 4]
    db = build(dpos, mode == "both")
    mb = build(mpos, mode != "full")
    if not db or not mb:
        return
    pols = [P[case["seed"] % len(P)]] if case["usep"] else []
    use = pols or P
    ok = lambda b, pos: b[2] in use and (case["lo"] is None or np.linalg.norm(vec(pos, b)) >= case["lo"]) and (case["hi"] is None or np.linalg.norm(vec(pos, b)) <= case["hi"])
    D, M = [b for b in db if ok(b, dpos)], [b for b in mb if ok(b, mpos)]
    want = {}
    if mode == "full":
        for b in D:
            for m in M:
                if m == b or m == rev(b):
                    want[b] = [m]
    else:
        for b in D:
            if b[0] == b[1] and not case["inc"]:
                continue
            for m in M:
                if m[0] == m[1] and not case["inc"]:
                    continue
                if m[2] == b[2] and np.allclose(vec(mpos, m), vec(dpos, b), atol=0.1):
                    want.setdefault(b, []).append(m)
                elif rev(m)[2] == b[2] and np.allclose(-vec(mpos, m), vec(dpos, b), atol=0.1):
                    want.setdefault(b, []).append(rev(m))
    if mode != "full" and case["inc"]:
        # redundant autocorrelations: a unique solution holds one of them per polarization by construction
        pass
    dl, ml, mp = quiet(abscal.match_baselines, list(db), list(mb), dpos, model_antpos=mpos if mode != "full" else None, pols=pols, data_is_redsol=mode == "both", model_is_redundant=mode != "full", tol=1.0, min_bl_cut=case["lo"], max_bl_cut=case["hi"], include_autos=case["inc"])
    what = f"data {db} at {({a: p.tolist() for a, p in dpos.items()})}, model {mb}"
    require(set(mp) == set(want), lambda: f"{what}: matched {sorted(mp)}, expected {sorted(want)}")
    for b in want:
        # the key names the model visibility in the orientation of the data
        require(mp[b] in ([b] if mode == "full" else want[b]), lambda: f"{what}: {b} matched to {mp[b]}, expected {b if mode == 'full' else want[b]}")
    require(set(dl) == set(want) and len(dl) == len(set(dl)), lambda: f"{what}: data to load {sorted(dl)}, expected {sorted(want)}")
    wm = {m for m in mb if any(canon(m) == canon(x) for b in mp for x in [mp[b]])}
    require(set(ml) == wm and len(ml) == len(set(ml)), lambda: f"{what}: model to load {sorted(ml)}, expected {sorted(wm)}")
    ctx.label(mode, f"n={min(len(want), 3)}")
    ctx.nontrivial(len(want) > 1)


# ---------------------------------------------------------------- times
def gen_tmap(draw):
    return dict(kind=pick(draw, ["map", "map", "files", "list"]), nd=ints(draw, 1, 6), nm=ints(draw, 1, 8), lst0=pick(draw, [6.2, 0.0, 3.0, 6.28]), step=pick(draw, [1e-3, 5e-3, 0.02]), off=ints(draw, -60, 60), foff=ints(draw, -10, 50), dsc=pick(draw, [0.1, 0.6, 1.7]), ratio=pick(draw, [1.0, 0.5, 2.3]), lim=pick(draw, [0.5, 0.5, 0.1, 2.0]),
                nf=ints(draw, 1, 7), nper=[ints(draw, 1, 3) for _ in range(7)], gap=pick(draw, [0, 0, 0, 3]), start=ints(draw, 0, 40), wraplist=flag(draw), order=flag(draw), alt=pick(draw, [90.0, 90.0, 0.0, -10.0]), span=pick(draw, [None, None, 0.1]), unwrap=flag(draw), seed=seed(draw))


def write_times(path, times, fold=1.0, tint=None):
    uvd = quiet(make_uvd, {0: np.zeros(3), 1: np.array([14.6, 0, 0])}, [(0, 1)], ["ee"], times, freqs_of(2), seed=1)
    if tint is not None:
        uvd.integration_time[:] = tint
    quiet(uvd.write_uvh5, path, clobber=True)
    return np.array(uvd.lst_array)


def check_tmap(case, ctx):
    from hera_cal import abscal, io
    rng = rng_of(case["seed"])
    if case["kind"] == "map":
        dl = (case["lst0"] + case["step"] * np.arange(case["nd"]))
        ml = (case["lst0"] + case["step"] * (case["off"] / 10.0 + 0.0137 + case["ratio"] * np.arange(case["nm"])))
        if flag_of(rng):
            dl = dl % TWOPI
        if flag_of(rng):
            ml = ml % TWOPI
        dt, mt = 2458000.1 + np.arange(case["nd"]) * 1e-4, 2457000.3 + np.arange(case["nm"]) * 2e-4
        if case["order"]:
            p = rng.permutation(case["nd"])
            dl, dt = dl[p], dt[p]
        got = abscal.get_d2m_time_map(dt, dl, mt, ml, extrap_limit=case["lim"])
        require(set(got) == set(dt.tolist()), f"time map has times {sorted(got)}")
        lim = case["lim"] * case["step"] * case["ratio"]
        n = 0
        for t, x in zip(dt, dl):
            d = np.abs((ml - x + np.pi) % TWOPI - np.pi)
            srt = np.sort(d)
            if len(d) > 1 and (srt[1] - srt[0] < 1e-6 * case["step"] or abs(srt[0] - lim) < 1e-3 * case["step"]):
                continue
            E = mt[np.argmin(d)] if (len(d) == 1 or srt[0] <= lim) else None
            require(got[t] == E, f"data time at LST {x} maps to {got[t]}, expected {E}; model LSTs {ml.tolist()}, times {mt.tolist()}, limit {case['lim']}")
            n += E is not None
        ctx.label("map", f"matched={min(n, 2)}")
        ctx.nontrivial(n > 1)
        return
    tmp = ctx.tmp()
    dt = case["step"] / TWOPI * 0.99726957
    if case["kind"] == "list":
        t0 = 2458838.0 + case["start"] / 40.0 + 0.003
        if case["span"]:
            dt = case["span"]
        files, times, lsts = [], [], []
        t = t0
        for k in range(min(case["nf"], 3)):
            x = t + dt * np.arange(case["nper"][k] + 1)
            t = x[-1] + dt
            files.append(os.path.join(tmp, f"f{k}.uvh5"))
            times.append(x)
            lsts.append(write_times(files[-1], x))
        o = rng.permutation(len(files)) if case["order"] else np.arange(len(files))
        hd = quiet(io.HERAData, [files[k] for k in o] if len(files) > 1 else files[0])
        before = {f: np.array(hd.lsts[f]) for f in hd.filepaths} if len(files) > 1 else np.array(hd.lsts)
        at, al = quiet(abscal.get_all_times_and_lsts, hd, solar_horizon=case["alt"], unwrap=case["unwrap"])
        T, L = np.concatenate(times), np.concatenate(lsts)
        alt = sun_alt(T, HERA_LAT, 21.42830382686301)
        if case["alt"] < 90 and np.any(np.abs(alt - case["alt"]) < 0.05):
            return
        keep = np.ones(len(T), dtype=bool) if case["alt"] >= 90 else alt <= case["alt"]
        require(set(np.asarray(at).tolist()) == set(T[keep].tolist()) and len(at) == keep.sum(), f"times {at}, expected {T[keep]}")
        lut = dict(zip(T.tolist(), L.tolist()))
        for a, b in zip(at, al):
            x = lut[float(a)]
            e = x
            if case["unwrap"] and x < L[0]:
                e = x + TWOPI
            require(abs(e - b) < 1e-9, f"time {a} is listed with LST {b}, expected {e} (file order {o.tolist()}, unwrap={case['unwrap']})")
        for f in hd.filepaths:
            same(hd.lsts[f] if len(files) > 1 else hd.lsts, before[f] if len(files) > 1 else before, "LSTs of the HERAData object after listing them")
        ctx.label("list", f"files={len(files)}")
        ctx.nontrivial(len(files) > 1)
        return
    # match_times: model files in LST order, starting anywhere; data file somewhere
    start = case["start"] / 40.0
    tm = 2458300.0 + start
    files, ivs = [], []
    t = tm
    wide = 20.0 if case["wraplist"] else 1.0      # long files, so that the list covers most of the day
    mdt = dt * case["ratio"] * wide * {1e-3: 8.0, 5e-3: 2.0, 0.02: 1.0}[case["step"]]
    for k in range(case["nf"]):
        n = case["nper"][k]
        x = t + mdt * np.arange(n)
        t = x[-1] + mdt * (1 + case["gap"] * (k == 1))
        f = os.path.join(tmp, f"m{k}.uvh5")
        l = write_times(f, x, tint=mdt * 86400.0)
        files.append(f)
        ivs.append((l[0] - mdt / 0.99726957 * TWOPI / 2, n * mdt / 0.99726957 * TWOPI))
    if t - tm > 0.98:
        return
    tot = t - tm
    td = tm + 365.0 * 0.99726957 + tot * (case["foff"] / 40.0) + mdt * 0.137
    x = td + mdt * case["dsc"] * np.arange(case["nd"])
    df = os.path.join(tmp, "d.uvh5")
    l = write_times(df, x)
    d0, dlen = l[0] - 1e-5, (l[-1] - l[0]) % TWOPI + 2e-5

    def overlap(a, la, b, lb):
        """length of overlap of two arcs: (start, length)"""
        q = (b - a) % TWOPI
        e = 2e-6
        near = min(abs(q - la), abs(q + lb - TWOPI))
        hit = q < la or q + lb > TWOPI
        return hit, near < e
    want = []
    for f, (a, la) in zip(files, ivs):
        hit, close_ = overlap(a, la, d0, dlen)
        if close_:
            return
        if hit:
            want.append(f)
    got = quiet(abscal.match_times, df, files, filetype="uvh5")
    require(list(got) == want, lambda: f"data at LST {l[0]:.4f}..{l[-1]:.4f} matched {[os.path.basename(g) for g in got]}, expected {[os.path.basename(g) for g in want]}; model intervals {[(round(a, 4), round(a + b, 4)) for a, b in ivs]}")
    ctx.label("files", f"hits={min(len(want), 3)}")
    ctx.nontrivial(len(want) > 1)


def flag_of(rng):
    return bool(rng.integers(2))


# ---------------------------------------------------------------- redundant matching
def gen_reds(draw):
    return dict(lay=gen_layout(draw, dims=2, nmin=2, nmax=5, span=2), pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 2), nf=ints(draw, 1, 3), drop=ints(draw, 0, 3), autos=flag(draw), off=pick(draw, [0.0, 50.0]), wg=pick(draw, ["none", "binary", "frac"]), bcast=flag(draw), mirror=flag(draw), give=flag(draw), seed=seed(draw))


def check_reds(case, ctx):
    from hera_cal import abscal, datacontainer
    rng = rng_of(case["seed"])
    pos = positions(case["lay"], 14.6)
    ants = sorted(pos)
    sh = (case["nt"], case["nf"])
    P = case["pols"]
    DC = datacontainer.DataContainer
    allb = [b for b in oriented(rng, [(a, b) for k, a in enumerate(ants) for b in ants[k:] if a != b or case["autos"]], P) if b[0] != b[1] or b[2][0] == b[2][1]]
    cl = classes(allb, pos)
    val = {k: cplx(rng, sh) for k in cl}

    def of(b):
        """model value of baseline b, by separation"""
        for k, g in cl.items():
            if b in g:
                return val[k]
            if rev(b) in g:
                return np.conj(val[k])
    for k in cl:
        if k[1] == (0.0, 0.0, 0.0):
            val[k] = np.abs(val[k]) + 0j
    # match_red_baselines: one model entry per class, in either orientation; data any baselines
    mnum = {a: 2 * k + 1 for k, a in enumerate(ants)}
    mpos = {mnum[a]: p + np.array([case["off"], 0, 0]) for a, p in pos.items()}
    model = {}
    for k, g in cl.items():
        b = g[rng.integers(len(g))]
        if rng.integers(8) < case["drop"]:
            continue
        b = b if rng.integers(2) else rev(b)
        model[mnum[b[0]], mnum[b[1]], b[2]] = of(b).copy()
    data = {b: cplx(rng, sh) for b in allb if rng.integers(8) >= case["drop"]}
    if model and data:
        md, dd = DC(dict(model)), DC(dict(data))
        got = quiet(abscal.match_red_baselines, md, mpos, dd, pos, tol=1.0, verbose=False)
        want = {}
        for k, g in classes(list(model), mpos).items():
            hits = [b for b in dd.keys() if (b[2], tuple(np.round(vec(pos, b), 2) + 0.0)) == k or (rev(b)[2], tuple(-np.round(vec(pos, b), 2) + 0.0)) == k]
            if hits:
                want[min(hits)] = of(min(hits))
        require(set(got.keys()) == set(want), lambda: f"model {sorted(md.keys())} matched to data keys {sorted(got.keys())}, expected {sorted(want)} (data {sorted(dd.keys())})")
        for b in want:
            close(got[b], want[b], f"model matched to data baseline {b}", rtol=1e-12, atol=1e-12)
    # mirror: one entry per class copied to every member
    gone = {frozenset([tuple(np.abs(np.array(k[1])))]): bool(rng.integers(8) < case["drop"]) for k in cl}
    uniq = {g[rng.integers(len(g))]: k for k, g in cl.items() if not gone[frozenset([tuple(np.abs(np.array(k[1])))])]}
    uniq = {(b if len(P) > 2 or rng.integers(2) else rev(b)): k for b, k in uniq.items()}
    if uniq:
        got = quiet(abscal.mirror_data_to_red_bls, DC({b: of(b).copy() for b in uniq}), pos, tol=1.0)
        want = set()
        for b, k in uniq.items():
            want |= {canon(b)} if b[0] == b[1] else {canon(x) for x in cl[k]}
        require({canon(b) for b in got.keys()} == want, lambda: f"mirrored {sorted(uniq)} to {sorted(got.keys())}, expected {sorted(want)}")
        for b in got.keys():
            close(got[b], of(b), f"mirrored data of {b}", rtol=1e-12, atol=1e-12)
    # average
    lost = {frozenset(b[:2]): bool(rng.integers(8) < case["drop"]) for b in allb}
    dd = {b: cplx(rng, sh) for b in allb if b[0] != b[1] and not lost[frozenset(b[:2])]}
    if dd:
        wg = {b: np.ones(sh) if case["wg"] == "none" else (rng.random(sh) > 0.3).astype(float) * (rng.uniform(0.5, 2, size=sh) if case["wg"] == "frac" else 1) for b in dd}
        d0 = {b: v.copy() for b, v in dd.items()}
        groups = {k: [b for b in g if b in dd or rev(b) in dd] for k, g in cl.items()}
        groups = {k: g for k, g in groups.items() if g}
        reds = [list(g) for g in groups.values()] if case["give"] else None
        rd, rw, rk = quiet(abscal.avg_data_across_red_bls, DC(dict(dd)), pos, wgts=None if case["wg"] == "none" else DC(dict(wg)), broadcast_wgts=case["bcast"], tol=1.0, mirror_red_data=case["mirror"], reds=reds)
        D = lambda b: d0[b] if b in d0 else np.conj(d0[rev(b)])
        W = lambda b: wg[b] if b in wg else wg[rev(b)]
        seen = {}
        for b in rk:
            k = [k for k, g in groups.items() if b in g or rev(b) in g]
            require(len(k) == 1, f"averaged key {b}")
            seen.setdefault(k[0], []).append(b)
        require(set(seen) == set(groups), f"averaged groups {sorted(seen)}, expected {sorted(groups)}")
        for k, g in groups.items():
            if case["mirror"]:
                require({canon(b) for b in seen[k]} == {canon(b) for b in g}, f"mirrored keys {seen[k]}, expected {g}")
            else:
                require(len(seen[k]) == 1, f"keys {seen[k]} for one group")
            for b in seen[k]:
                mem = [x if b in g else rev(x) for x in g]
                w = np.array([W(x) for x in mem])
                v = np.array([D(x) for x in mem])
                with np.errstate(all="ignore"):
                    E = (v * w).sum(axis=0) / w.sum(axis=0)
                EW = np.prod(w, axis=0) ** (1 / len(mem)) if case["bcast"] else w.mean(axis=0)
                close(rw[b], EW, f"averaged weights of {b}", rtol=1e-9, atol=1e-12)
                g_ = w.sum(axis=0) > 0
                close(rd[b][g_], E[g_], f"averaged data of {b}", rtol=1e-9, atol=1e-12)
    ctx.label(f"npol={len(P)}", f"wg={case['wg']}")
    ctx.nontrivial(len(allb) > 2)


# ---------------------------------------------------------------- grid
def gen_grid(draw):
    return dict(what=pick(draw, ["interp", "interp", "rephase", "rephase", "cut", "fill", "axis"]), nt=ints(draw, 4, 7), nf=ints(draw, 4, 8), ndt=ints(draw, 1, 5), ndf=ints(draw, 1, 6), nk=ints(draw, 1, 3), kind=pick(draw, ["linear", "linear", "cubic"]), p=pick(draw, [0.0, 0.1, 0.4]), wts=flag(draw), flags=flag(draw),
                med=flag(draw), ext=flag(draw), fv=pick(draw, [None, None, 0.0]), extrap=flag(draw), lst0=pick(draw, [3.0, 6.2, 6.27]), inplace=flag(draw), fold=flag(draw), mfold=flag(draw), dmax=pick(draw, [0.005, 1.0, 1e-5]), lo=pick(draw, [None, 10.0, 16.0]), hi=pick(draw, [None, 20.0, 31.0]), form=pick(draw, ["antpos", "bls3", "bls2", "part"]),
                ax=ints(draw, 0, 2), seed=seed(draw))


def check_grid(case, ctx):
    {"interp": interp, "rephase": rephase, "cut": cut, "fill": fill, "axis": axis}[case["what"]](case, ctx)


def interp(case, ctx):
    from hera_cal import abscal, datacontainer
    DC = datacontainer.DataContainer
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    ml, mf = case["lst0"] + 0.01 * np.arange(nt), 1e8 + 1e6 * np.arange(nf)
    keys = [(0, 1, "ee"), (1, 2, "ee"), (0, 2, "nn")][:case["nk"]]
    lo, hi = (-0.4, 1.4) if case["extrap"] else (0.05, 0.95)
    dl = np.sort(ml[0] + 0.01 * (nt - 1) * rng.uniform(lo, hi, size=case["ndt"]))
    df = np.sort(mf[0] + 1e6 * (nf - 1) * rng.uniform(lo, hi, size=case["ndf"]))
    # bilinear truth, reproduced exactly by linear and cubic interpolation
    co = {k: cplx(rng, (4,)) for k in keys}
    F = lambda c, l, f: c[0] + c[1] * (l[:, None] - ml[0]) * 30 + c[2] * (f[None] - mf[0]) / 3e6 + c[3] * (l[:, None] - ml[0]) * 30 * (f[None] - mf[0]) / 3e6
    M = {k: F(co[k], ml, mf) for k in keys}
    fl = {k: rng.random((nt, nf)) < case["p"] for k in keys} if case["flags"] else None
    if fl is not None:
        for k in keys:
            fl[k][nt // 2, nf // 2] = False
    given = None if fl is None else DC({k: ((~f).astype(float) if case["wts"] else f.copy()) for k, f in fl.items()})
    md = DC({k: v.copy() for k, v in M.items()})
    nm, nfl = quiet(abscal.interp2d_vis, md, ml, mf, dl, df, flags=given, kind=case["kind"], flag_extrapolate=case["ext"], medfilt_flagged=case["med"], fill_value=case["fv"])
    for k in keys:
        same(md[k], M[k], f"caller's model of {k} after interpolation")
        if given is not None:
            same(given[k], (~fl[k]).astype(float) if case["wts"] else fl[k], f"caller's flags of {k} after interpolation")
    out_l = (dl > ml[-1] + 1e-6) | (dl < ml[0] - 1e-6)
    out_f = (df > mf[-1] + 1e-6) | (df < mf[0] - 1e-6)
    require(set(nm.keys()) == set(keys) and set(nfl.keys()) == set(keys), "keys of the interpolated model")
    clean = fl is None or not case["med"] or not any(f.any() for f in fl.values())
    for k in keys:
        E = F(co[k], dl, df)
        outside = out_l[:, None] | out_f[None]
        EF = np.zeros(E.shape, dtype=bool)
        if fl is not None:
            it = [int(np.argmin(np.abs(ml - x))) for x in dl]
            jf = [int(np.argmin(np.abs(mf - x))) for x in df]
            EF = fl[k][np.ix_(it, jf)].copy()
        if case["ext"]:
            EF |= outside
        same(np.asarray(nfl[k], dtype=bool), EF, f"flags of the interpolated model of {k}")
        require(nm[k].shape == E.shape, f"shape {nm[k].shape} of the interpolated model, expected {E.shape}")
        inside = ~outside
        if clean or not fl[k].any():
            ok = inside if case["fv"] is not None or case["kind"] == "cubic" else np.ones_like(inside)
            close(nm[k][ok], E[ok], f"{case['kind']} interpolation of {k}", rtol=0, atol=1e-6 if case["kind"] == "linear" else 2e-3 * np.abs(M[k]).max())
            if case["fv"] is not None:
                require(np.all(nm[k][outside] == case["fv"] * (1 + 1j)), "fill value outside the model")
    ctx.label("interp", case["kind"], f"flags={case['flags']}")
    ctx.nontrivial(case["ndt"] > 1 and case["ndf"] > 1)


def rephase(case, ctx):
    from hera_cal import abscal, datacontainer
    DC = datacontainer.DataContainer
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    freqs = freqs_of(nf)
    ml = case["lst0"] + 0.004 * np.arange(nt) + 0.0011
    dl = case["lst0"] + 0.004 * np.sort(rng.uniform(-1.3, nt + 0.3, size=case["ndt"]))
    d = np.abs((ml[None] - dl[:, None] + np.pi) % TWOPI - np.pi)
    nn = d.argmin(axis=1)
    srt = np.sort(d, axis=1)
    if np.any(srt[:, 1] - srt[:, 0] < 1e-7) or np.any(np.abs(srt[:, 0] - case["dmax"]) < 1e-8):
        return
    dlst = (dl - ml[nn] + np.pi) % TWOPI - np.pi
    if case["fold"]:
        dl = dl % TWOPI
    if case["mfold"]:
        ml = ml % TWOPI
    pos = {0: np.zeros(3), 1: np.array([14.6, 3.0, 0.5]), 2: np.array([-20.0, 31.0, -1.0])}
    keys = [(0, 1, "ee"), (2, 1, "ee"), (0, 2, "nn")][:case["nk"]]
    M = {k: cplx(rng, (nt, nf)) for k in keys}
    fl = {k: rng.random((nt, nf)) < case["p"] for k in keys} if case["flags"] else None
    md = DC({k: v.copy() for k, v in M.items()})
    gf = None if fl is None else DC({k: f.copy() for k, f in fl.items()})
    bls = {k: pos[k[0]] - pos[k[1]] for k in keys}
    dl0 = dl.copy()
    nm, nfl = quiet(abscal.rephase_vis, md, ml.copy(), dl, bls, freqs, inplace=case["inplace"], flags=gf, max_dlst=case["dmax"], latitude=HERA_LAT)
    same(dl, dl0, "caller's data LSTs after rephase_vis")
    for k in keys:
        E = M[k][nn] * drift_phase(pos[k[0]], pos[k[1]], freqs, dlst, HERA_LAT)
        close(nm[k], E, f"rephased model of {k} at data LSTs {dl0.tolist()} from {ml.tolist()}", rtol=1e-6, atol=1e-6)
        EF = (fl[k][nn] if fl is not None else np.zeros(E.shape, dtype=bool)) | (np.abs(dlst) > case["dmax"])[:, None]
        same(np.asarray(nfl[k]), EF, f"flags of the rephased model of {k}")
        if not case["inplace"]:
            same(md[k], M[k], "caller's model after rephase_vis(inplace=False)")
            if gf is not None:
                same(gf[k], fl[k], "caller's flags after rephase_vis(inplace=False)")
        else:
            close(md[k], E, "model rephased in place", rtol=1e-6, atol=1e-6)
    ctx.label("rephase", f"fold={case['fold']}", f"mfold={case['mfold']}")
    ctx.nontrivial(case["ndt"] > 1)


def cut(case, ctx):
    from hera_cal import abscal, datacontainer
    DC = datacontainer.DataContainer
    rng = rng_of(case["seed"])
    pos = {a: np.array([14.6 * x, 14.6 * y, 0.0]) for a, (x, y) in enumerate([(0, 0), (1, 0), (2, 0), (0, 1)])}
    keys = [(a, b, "ee") for a in range(4) for b in range(a + 1, 4)]
    keys = [k if rng.integers(2) else rev(k) for k in keys]
    if rng.integers(2):
        keys += [(k[0], k[1], "nn") for k in keys[:3]]
    dc = DC({k: cplx(rng, (2, 2)) for k in keys})
    miss = set()
    bls = None
    if case["form"] == "antpos":
        dc.antpos = pos
    elif case["form"] == "bls3":
        bls = {k: pos[k[1]] - pos[k[0]] for k in keys}
    elif case["form"] == "bls2":
        bls = {k[:2]: pos[k[1]] - pos[k[0]] for k in keys}
    else:
        miss = {keys[0]}
        bls = {k: pos[k[1]] - pos[k[0]] for k in keys if k not in miss}
    L = {k: np.linalg.norm(pos[k[1]] - pos[k[0]]) for k in keys}
    want = [k for k in keys if k in miss or ((case["lo"] is None or L[k] >= case["lo"]) and (case["hi"] is None or L[k] <= case["hi"]))]
    if not want:
        return
    got = abscal.cut_bls(dc, bls=bls, min_bl_cut=case["lo"], max_bl_cut=case["hi"], inplace=case["inplace"])
    require(set(got.keys()) == set(want), f"cut to {case['lo']}-{case['hi']} m kept {sorted(got.keys())}, expected {sorted(want)} (bls given as {case['form']})")
    require(len(dc.keys()) == (len(want) if case["inplace"] else len(keys)), "cut_bls and inplace")
    ctx.label("cut", case["form"])
    ctx.nontrivial(len(want) < len(keys))


def fill(case, ctx):
    from hera_cal import abscal, datacontainer
    DC = datacontainer.DataContainer
    rng = rng_of(case["seed"])
    sh = (case["nt"], case["nf"])
    keys = [(0, 1, "ee"), (1, 2, "ee"), (0, 2, "nn")][:case["nk"]]
    D, W = {k: cplx(rng, sh) for k in keys}, {k: np.ones(sh) for k in keys}
    nanm = {k: rng.random(sh) < 0.2 for k in keys}
    infm = {k: (rng.random(sh) < 0.2) & ~nanm[k] for k in keys}
    for k in keys:
        D[k][nanm[k]] = np.nan
        D[k][infm[k]] = np.inf
    nanf, inff = (0.0 if case["flags"] else None), (1.0 if case["med"] else None)
    d, w = DC({k: v.copy() for k, v in D.items()}), DC({k: v.copy() for k, v in W.items()})
    arr = case["ext"]
    if arr:
        k = keys[0]
        a, aw = D[k].copy(), W[k].copy()
        abscal.fill_dict_nans(a, wgts=aw if case["wts"] else None, nan_fill=nanf, inf_fill=inff, array=True)
        d, w = {k: a}, {k: aw}
        keys = [k]
    else:
        abscal.fill_dict_nans(d, wgts=w if case["wts"] else None, nan_fill=nanf, inf_fill=inff)
    for k in keys:
        E, EW = D[k].copy(), W[k].copy()
        if nanf is not None:
            E[nanm[k]] = nanf
            EW[nanm[k]] = 0
        if inff is not None:
            E[infm[k]] = inff
            EW[infm[k]] = 0
        same(d[k], E, f"filled data of {k}")
        same(w[k], EW if case["wts"] else W[k], f"weights after filling {k}")
    ctx.label("fill")
    ctx.nontrivial(nanf is not None)


def axis(case, ctx):
    from hera_cal import abscal
    rng = rng_of(case["seed"])
    sh = (case["ndt"], case["ndf"])
    pols = ["ee", "nn", "en"][:case["nk"]]
    D = {(a, b, p): cplx(rng, sh) for a, b in [(0, 1), (1, 2), (5, 3)] for p in pols}
    A = {k: rng.normal(size=sh) for k in D}
    ai = [0, 1, -1][case["ax"]]
    new, av, popped = abscal.data_key_to_array_axis(dict(D), 2, array_index=ai, avg_dict=dict(A))
    require(list(popped) == sorted(pols), f"popped keys {popped}")
    require(set(new) == {k[:2] for k in D}, f"keys {sorted(new)} after moving polarizations into the arrays")
    for b in new:
        E = np.stack([D[b + (p,)] for p in sorted(pols)], axis=ai)
        same(np.asarray(new[b]), E, f"{b} with polarizations along axis {ai}")
        close(av[b], np.mean([A[b + (p,)] for p in pols], axis=0), f"average of {b}", rtol=1e-12, atol=1e-12)
    back, cp = abscal.array_axis_to_data_key(new, ai, list(popped), key_index=-1, copy_dict=dict(av))
    require(set(back) == set(D), f"keys {sorted(back)} after moving them back")
    for k in D:
        same(np.asarray(back[k]), D[k], f"{k} after a round trip")
        same(np.asarray(cp[k]), av[k[:2]], f"copied {k}")
    ctx.label("axis")
    ctx.nontrivial(case["nk"] > 1)


# ---------------------------------------------------------------- weights
def gen_wgts(draw):
    return dict(lay=grid_layout(draw, nx=(2, 3), ny=(1, 2)), pols=pick(draw, [["ee"], ["nn", "ee"]]), nt=ints(draw, 2, 3), nf=ints(draw, 2, 4), red=flag(draw), p=pick(draw, [0.0, 0.2]), dead=ints(draw, 0, 2), giv=flag(draw), noauto=ints(draw, 0, 2), seed=seed(draw))


def check_wgts(case, ctx):
    from hera_cal import abscal, datacontainer
    DC = datacontainer.DataContainer
    rng = rng_of(case["seed"])
    pos = positions(case["lay"], 14.6)
    ants = sorted(pos)
    sh = (case["nt"], case["nf"])
    P = case["pols"]
    freqs, times = freqs_of(case["nf"]), times_of(case["nt"])
    df, dt = freqs[1] - freqs[0], (times[1] - times[0]) * 86400.0
    auto = {(a, a, p): rng.uniform(1.0, 9.0, size=sh) + 0j for a in ants for p in P}
    af = {k: rng.random(sh) < case["p"] for k in auto}
    if case["red"] and case["noauto"]:     # no autocorrelation: outside the calibrated array
        for p in P:
            auto.pop((ants[-1], ants[-1], p))
            af.pop((ants[-1], ants[-1], p))
    allb = [(a, b, p) if rng.integers(2) else (b, a, p) for k, a in enumerate(ants) for b in ants[k + 1:] for p in P]
    cl = classes(allb, pos)
    if case["red"]:
        bls = [g[rng.integers(len(g))] for g in cl.values()]
    else:
        bls = allb
    F = {b: rng.random(sh) < case["p"] for b in bls}
    MF = {b: rng.random(sh) < case["p"] for b in bls}
    for b in bls[:case["dead"]]:
        F[b][:] = True
    NS = {b: rng.integers(0, 4, size=sh).astype(float) for b in bls}
    flags = DC({b: f.copy() for b, f in F.items()})
    flags.freqs, flags.times_by_bl, flags.antpos, flags.data_antpos = freqs, {q: times for b in bls for q in (b[:2], b[1::-1])}, pos, pos
    kw = dict(times_by_bl=flags.times_by_bl, df=df, antpos=pos) if case["giv"] else {}
    got = quiet(abscal.build_data_wgts, flags, DC(dict(NS)), DC(dict(MF)), DC(dict(auto)), DC(dict(af)), data_is_redsol=case["red"], tol=1.0, **kw)
    require(set(got.keys()) == set(bls), "baselines of the weights")
    var = lambda b: np.abs(auto[b[0], b[0], b[2]] * auto[b[1], b[1], b[2]]) / (df * dt)
    for b in bls:
        if not case["red"]:
            v = var(b)
        else:
            g = [g for g in cl.values() if b in g or rev(b) in g][0]
            g = [x for x in g if all((a, a, b[2]) in auto for a in x[:2])]
            inv, n = np.zeros(sh), np.zeros(sh)
            for x in g:
                ok = ~(af[x[0], x[0], b[2]] | af[x[1], x[1], b[2]])
                inv += np.where(ok, 1 / var(x), 0)
                n += ok
            with np.errstate(all="ignore"):
                v = n / inv
        with np.errstate(all="ignore"):
            E = NS[b] * ~F[b] * ~MF[b] / v
        E[~np.isfinite(E)] = 0
        close(got[b], E, f"weights of {b}", rtol=1e-6, atol=1e-12)
        same(flags[b], F[b], "caller's flags")
    ctx.label(f"red={case['red']}", f"p={case['p']}")
    ctx.nontrivial(len(bls) > 1)


# ---------------------------------------------------------------- post_redcal_abscal_run
def gen_run(draw):
    return dict(lay=grid_layout(draw, nx=(3, 4), ny=(2, 3)), npol=pick(draw, [1, 2]), nt=ints(draw, 2, 4), mode=pick(draw, ["full", "model", "both"]), nload=pick(draw, [None, 1, 2]), moff=pick(draw, [0.0, 0.2, -0.3, 1.0, -2.0, 3.2]), mratio=pick(draw, [1.0, 1.0, 0.6, 1.7]), nmf=ints(draw, 1, 3), lst0=pick(draw, [3.0, 0.0]), lim=0.5,
                dead=pick(draw, [0, 0, 1]), tf=flag(draw), mf=pick(draw, [0, 0, 1]), ff=flag(draw), xo=pick(draw, ["east", "north"]), ref=flag(draw), lin=flag(draw), delta=flag(draw), autofile=flag(draw), bcut=pick(draw, [1.0, 1.0, 15.0]), nodata=flag(draw), seed=seed(draw))


def check_run(case, ctx):
    from hera_cal import abscal, io
    rng = rng_of(case["seed"])
    tmp = ctx.tmp()
    pos = positions(case["lay"], 14.6)
    ants = sorted(pos)
    nt, nf = case["nt"], 40
    freqs = freqs_of(nf, df=1.22e5)
    P = ["ee", "nn"][:case["npol"]] if case["xo"] == "east" else ["nn", "ee"][:case["npol"]]
    tint = 10.7 / 86400.0
    t0 = jd_for_lst(case["lst0"], 0) - tint * (nt / 2.0 + 0.3)
    times = t0 + tint * np.arange(nt)
    SD = 0.9972695663290843
    # model files: another season, another grid; antenna numbers differ when the model is redundant
    mint = tint * case["mratio"]
    mtot = int(np.ceil(nt / case["mratio"])) + 4
    mt0 = t0 - 200 * SD + mint * (case["moff"] - 1.31) if case["mratio"] != 1.0 or case["moff"] else t0 - 200 * SD - mint
    mtimes = mt0 + mint * np.arange(mtot)
    nper = int(np.ceil(mtot / case["nmf"]))
    mode = case["mode"]
    num = {a: a if mode == "full" else 2 * k + 5 for k, a in enumerate(ants)}
    mpos = {num[a]: p for a, p in pos.items()}
    pairs = [(a, b) if rng.integers(2) else (b, a) for k, a in enumerate(ants) for b in ants[k + 1:]]
    cl = classes([p + ("ee",) for p in pairs], pos)
    rep = {k: g[rng.integers(len(g))][:2] for k, g in cl.items()}
    if case["nodata"] and len(rep) > 6:
        rep.pop(sorted(rep)[-1])           # a separation that the model does not have
    V = {(k, p): sky(rng, (mtot, nf)) for k in cl for p in P}

    def of(pair, p):
        for k, g in cl.items():
            if pair + ("ee",) in g:
                return V[k, p]
            if pair[::-1] + ("ee",) in g:
                return np.conj(V[k, p])
    if mode == "full":
        mpairs = [p if rng.integers(2) else p[::-1] for p in pairs]
        if case["nodata"]:
            mpairs = mpairs[:-1]
    else:
        mpairs = [(num[a], num[b]) for a, b in rep.values()]
    inv = {v: k for k, v in num.items()}
    mfiles, mlsts = [], []
    mflagw = rng.random((mtot, nf)) < (0.1 if case["mf"] else 0.0)
    order = mpairs
    MFL = {}
    for q in order:
        for p in P:
            MFL[q, p] = mflagw | (rng.random((mtot, nf)) < (0.05 if case["mf"] else 0.0))
    for k in range(case["nmf"]):
        sl = slice(k * nper, min((k + 1) * nper, mtot))
        if sl.start >= mtot:
            break
        uvd = quiet(make_uvd, mpos, order, P, mtimes[sl], freqs, seed=1, orient=case["xo"], flag_frac=0.0)
        uvd.integration_time[:] = mint * 86400.0
        for q in order:
            rows = np.where((uvd.ant_1_array == q[0]) & (uvd.ant_2_array == q[1]))[0]
            rows = rows[np.argsort(uvd.time_array[rows])]
            for m, p in enumerate(P):
                uvd.data_array[rows, :, m] = of((inv[q[0]], inv[q[1]]), p)[sl]
                uvd.flag_array[rows, :, m] = MFL[q, p][sl]
        uvd.vis_units = "Jy"
        f = os.path.join(tmp, f"model{k}.uvh5")
        quiet(uvd.write_uvh5, f)
        mfiles.append(f)
        rows = np.where((uvd.ant_1_array == order[0][0]) & (uvd.ant_2_array == order[0][1]))[0]
        mlsts.append(np.array(uvd.lst_array)[rows[np.argsort(uvd.time_array[rows])]])
    mlst = np.concatenate(mlsts)
    # the data
    apairs = [(a, a) for a in ants]
    jp = {p: AP[p[0]] for p in P}
    dpairs = pairs if mode != "both" else [rep[k] for k in rep]
    duvd = quiet(make_uvd, pos, dpairs + (apairs if mode != "both" and not case["autofile"] else []), P, times, freqs, seed=2, orient=case["xo"], flag_frac=0.0, nsamp=False)
    sel = lambda u, q: (lambda r: r[np.argsort(u.time_array[r])])(np.where((u.ant_1_array == q[0]) & (u.ant_2_array == q[1]))[0])
    dlst_file = np.array(duvd.lst_array)[sel(duvd, dpairs[0])]
    dd = (mlst[None] - dlst_file[:, None] + np.pi) % TWOPI - np.pi
    near = np.abs(dd).argmin(axis=1)
    srt = np.sort(np.abs(dd), axis=1)
    step = mint / SD * TWOPI
    if np.any(srt[:, 1] - srt[:, 0] < 1e-6) or np.any(np.abs(srt[:, 0] - 0.5 * step) < 1e-6):
        return
    matched = srt[:, 0] <= 0.5 * step
    dl = -dd[np.arange(nt), near]
    # gains: full = redcal gains (flawed by degeneracies) * what absolute calibration must find
    span = max(np.linalg.norm(pos[a] - pos[b]) for a in ants for b in ants)
    cen = sum(pos.values()) / len(pos)
    deg, rc = {}, {}
    for p in P:
        A = np.exp(rng.uniform(-0.5, 0.5, size=(nt, nf)))
        T = 20e-9 / span * rng.uniform(-1, 1, size=2)
        ph0 = 0.3 / 14.6 * rng.uniform(-1, 1, size=2)
        tt = 0.1 / span * rng.uniform(-1, 1, size=(2, nt, nf))
        for a in ants:
            r = (pos[a] - cen)[:2]
            deg[a, jp[p]] = A * np.exp(1j * (2 * np.pi * (r @ T) * freqs[None] + r @ ph0 + np.tensordot(r, tt, axes=1)))
            rc[a, jp[p]] = np.exp(rng.uniform(-0.3, 0.3, size=(nt, nf)) + 1j * rng.uniform(-3, 3, size=(nt, nf)))
    rcf = {k: np.zeros((nt, nf), dtype=bool) for k in rc}
    bad = ants[0] if case["dead"] else None
    for k in rcf:
        if k[0] == bad:
            rcf[k][:] = True
        if case["tf"]:
            rcf[k][0] = True
        if case["ff"]:
            rcf[k][:, 3] = True
    D, FL = {}, {}
    for q in dpairs:
        for p in P:
            i, j = (q[0], jp[p]), (q[1], jp[p])
            m = of(q, p)[near] * drift_phase(pos[q[0]], pos[q[1]], freqs, dl, HERA_LAT)
            g = deg[i] * np.conj(deg[j])
            if mode != "both":
                g = g * rc[i] * np.conj(rc[j])
            D[q, p] = (m, g)
            v = m * g
            if bad in q and mode != "both":
                v = v * 100 * sky(rng, (nt, nf))
            duvd.data_array[sel(duvd, q), :, P.index(p)] = v
            fl = np.zeros((nt, nf), dtype=bool)
            if mode == "both":
                fl |= (case["tf"] & (np.arange(nt) == 0))[:, None] | (case["ff"] & (np.arange(nf) == 3))[None]
            duvd.flag_array[sel(duvd, q), :, P.index(p)] = fl
    auto = duvd if mode != "both" and not case["autofile"] else quiet(make_uvd, pos, apairs, P, times, freqs, seed=3, orient=case["xo"], flag_frac=0.0, nsamp=False)
    for a in ants:
        for p in P:
            auto.data_array[sel(auto, (a, a)), :, P.index(p)] = rng.uniform(5, 9) * np.abs(rc[a, jp[p]] * deg[a, jp[p]]) ** 2
    df = os.path.join(tmp, "data.uvh5")
    quiet(duvd.write_uvh5, df)
    af = None
    if auto is not duvd:
        af = os.path.join(tmp, "autos.uvh5")
        quiet(auto.write_uvh5, af)
    cf = os.path.join(tmp, "x.omni.calfits")
    uvc = quiet(make_cal, ants, rc, rcf, times, freqs, duvd.telescope, pols=[jp[p] for p in P], orient=case["xo"], quality={k: np.ones((nt, nf)) for k in rc}, total_quality={jp[p]: np.ones((nt, nf)) for p in P})
    quiet(uvc.write_calfits, cf)
    ref = None
    if case["ref"]:
        ref = {jp[p]: (ants[-1], jp[p]) for p in P}
    out = os.path.join(tmp, "x.abs.calfits")
    od = os.path.join(tmp, "delta.calfits")
    kw = dict(raw_auto_file=af, data_is_redsol=mode == "both", model_is_redundant=mode != "full", nInt_to_load=case["nload"], extrap_limit=case["lim"], min_bl_cut=case["bcut"], refant=ref, verbose=False, skip_abs_amp_lincal=not case["lin"], tol=1.0)
    if case["delta"]:
        kw.update(write_delta_gains=True, output_file_delta=od)
    hc = quiet(abscal.post_redcal_abscal_run, df, cf, list(mfiles), **kw)
    hc2 = io.HERACal(out)
    g, f, _, _ = quiet(hc2.read)
    require(set(g) == set(rc), f"antennas {sorted(g)} in the written calibration")
    what = f"post_redcal_abscal_run ({mode})"
    # which baselines took part
    use = {}
    for p in P:
        use[p] = [q for q in dpairs if np.linalg.norm(pos[q[0]] - pos[q[1]]) >= case["bcut"] and ((mode == "full" and (q in mpairs or q[::-1] in mpairs)) or (mode != "full" and any(q + ("ee",) in cl[k] or q[::-1] + ("ee",) in cl[k] for k in rep)))]
    for p in P:
        wf = np.ones((nt, nf), dtype=bool)
        for q in mpairs:
            # only model baselines that match some data baseline and the cuts count
            if np.linalg.norm(mpos[q[0]] - mpos[q[1]]) >= case["bcut"]:
                wf &= MFL[q, p][near]
        E = {}
        for a in ants:
            e = np.ones((nt, nf), dtype=bool)
            e[matched] = (rcf[a, jp[p]] | wf)[matched]
            E[a] = e
        cands = [ants[-1]] if case["ref"] else ants
        hit = [r for r in cands if all(np.array_equal(f[a, jp[p]], E[a] | E[r]) for a in ants)]
        require(hit, lambda: f"{what}: flags {({a: f[a, jp[p]].astype(int).tolist() for a in ants})}, expected {({a: E[a].astype(int).tolist() for a in ants})} (times matched {matched.tolist()})")
        real = [r for r in hit if np.all(np.abs(np.angle(g[r, jp[p]][~f[r, jp[p]]])) < 1e-4)]
        require(real, f"{what}: no reference antenna with zero phase among {hit}")
        for q in use[p]:
            i, j = (q[0], jp[p]), (q[1], jp[p])
            ok = ~f[i] & ~f[j]
            if bad in q:
                continue
            m, gg = D[q, p]
            raw = m * gg * (rc[i] * np.conj(rc[j]) if mode == "both" else 1)
            close((raw / (g[i] * np.conj(g[j])))[ok], m[ok], f"{what}: calibrated {q} {p} against the matched model (dlst {dl.tolist()})", rtol=0, atol=3e-3 * np.abs(m).max())
        for a in ants:
            un = ~matched
            close(np.abs(g[a, jp[p]][un]), np.abs(rc[a, jp[p]][un]), f"{what}: amplitude of antenna {a} at unmatched times", rtol=1e-5, atol=0)
    if case["delta"]:
        hcd = io.HERACal(od)
        gd, fd, _, _ = quiet(hcd.read)
        for k in g:
            close(gd[k], g[k] / rc[k], f"{what}: delta gains of {k}", rtol=1e-4, atol=1e-5)
            same(fd[k], f[k], f"{what}: flags of the delta gains of {k}")
    require(hc2.gain_scale == "Jy" or not matched.any(), f"gain scale {hc2.gain_scale}")
    ctx.label(mode, f"matched={min(int(matched.sum()), 2)}", f"nload={case['nload']}", f"lst0={case['lst0']}")
    ctx.nontrivial(matched.sum() > 1)


# ---------------------------------------------------------------- products of gain files
def gen_mult(draw):
    return dict(na=ints(draw, 1, 4), nt=ints(draw, 1, 3), nf=ints(draw, 1, 4), div=flag(draw), order=flag(draw), porder=flag(draw), np=ints(draw, 1, 2), exists=pick(draw, [None, None, "clobber", "refuse"]), seed=seed(draw))


def check_mult(case, ctx):
    from hera_cal import abscal
    from pyuvdata import UVCal
    from ..uvsim import make_telescope
    rng = rng_of(case["seed"])
    tmp = ctx.tmp()
    ants = list(range(0, 2 * case["na"], 2))
    pos = {a: np.array([14.6 * a, 0, 0]) for a in ants}
    tel = make_telescope(pos)
    times, freqs = times_of(case["nt"]), freqs_of(case["nf"])
    G, F, path = [], [], []
    P = ["Jee", "Jnn"][:case["np"]]
    for k in range(2):
        g = {(a, p): cplx(rng, (case["nt"], case["nf"])) + 2 for a in ants for p in P}
        f = {x: rng.random((case["nt"], case["nf"])) < 0.2 for x in g}
        oa = list(rng.permutation(ants)) if k and case["order"] else ants
        op = P[::-1] if k and case["porder"] else P
        uvc = quiet(make_cal, [int(a) for a in oa], g, f, times, freqs, tel, pols=op, quality={x: np.ones((case["nt"], case["nf"])) for x in g}, total_quality={p: np.ones((case["nt"], case["nf"])) for p in P})
        path.append(os.path.join(tmp, f"g{k}.calfits"))
        quiet(uvc.write_calfits, path[-1])
        G.append(g)
        F.append(f)
    out = os.path.join(tmp, "out.calfits")
    if case["exists"]:
        with open(out, "w") as fh:
            fh.write("x")
    try:
        quiet(abscal.multiply_gains, path[0], path[1], out, clobber=case["exists"] == "clobber", divide_gains=case["div"])
    except Exception as e:
        if case["exists"] == "refuse" and isinstance(e, (OSError, ValueError)):
            require(open(out).read() == "x", "a refused output file was changed")
            ctx.label("refused")
            return
        raise
    require(case["exists"] != "refuse", "multiply_gains overwrote an existing file without clobber")
    uvc = UVCal()
    quiet(uvc.read_calfits, out)
    uvc.use_future_array_shapes() if hasattr(uvc, "use_future_array_shapes") and not getattr(uvc, "future_array_shapes", True) else None
    jn = {"Jee": -5, "Jnn": -6}
    for a in ants:
        for p in P:
            i, j = list(uvc.ant_array).index(a), list(uvc.jones_array).index(jn[p])
            E = G[0][a, p] / G[1][a, p] if case["div"] else G[0][a, p] * G[1][a, p]
            close(uvc.gain_array[i, :, :, j].T, E, f"{'ratio' if case['div'] else 'product'} of the gains of {(a, p)} (antenna order {case['order']}, pol order {case['porder']})", rtol=1e-6, atol=1e-6)
            same(uvc.flag_array[i, :, :, j].T, F[0][a, p] | F[1][a, p], f"flags of {(a, p)}")
    ctx.label(f"order={case['order']}", f"div={case['div']}")
    ctx.nontrivial(case["na"] > 1)


# ---------------------------------------------------------------- model-based calibration
def gen_mbc(draw):
    return dict(lay=grid_layout(draw, nx=(3, 3), ny=(1, 2)), npol=pick(draw, [1, 2]), nt=ints(draw, 1, 2), nf=ints(draw, 2, 5), inflate=flag(draw), pre=flag(draw), autos=flag(draw), noamp=pick(draw, [False, False, True]), nophs=pick(draw, [False, False, True]), fl=pick(draw, [0.0, 0.0, 0.1]), dead=pick(draw, [0, 0, 1]), ref=flag(draw), obj=flag(draw), seed=seed(draw))


def check_mbc(case, ctx):
    from hera_cal import abscal, io
    rng = rng_of(case["seed"])
    tmp = ctx.tmp()
    pos = positions(case["lay"], 14.6)
    ants = sorted(pos)
    nt, nf = case["nt"] + 1, case["nf"]
    times, freqs = times_of(nt), freqs_of(nf)
    P = ["ee", "nn"][:case["npol"]]
    pairs = [(a, b) for k, a in enumerate(ants) for b in ants[k + 1:]]
    cl = classes([q + ("ee",) for q in pairs], pos)
    V = {(k, p): sky(rng, (nt, nf)) for k in cl for p in P}
    g = {(a, AP[p[0]]): np.exp((0 if case["noamp"] else 1) * rng.uniform(-0.3, 0.3, size=(nt, nf)) + (0 if case["nophs"] else 1) * 1j * rng.uniform(-0.3, 0.3, size=(nt, nf))) for a in ants for p in P}
    pre = {k: np.exp(rng.uniform(-0.3, 0.3, size=(nt, nf)) + 1j * rng.uniform(-3, 3, size=(nt, nf))) if case["pre"] else np.ones((nt, nf), dtype=complex) for k in g}
    bad = ants[-1] if case["dead"] else None
    sel = lambda u, q: (lambda r: r[np.argsort(u.time_array[r])])(np.where((u.ant_1_array == q[0]) & (u.ant_2_array == q[1]))[0])

    def of(q, p):
        for k, gr in cl.items():
            if q + ("ee",) in gr:
                return V[k, p]
            if q[::-1] + ("ee",) in gr:
                return np.conj(V[k, p])
    duvd = quiet(make_uvd, pos, pairs, P, times, freqs, seed=2, flag_frac=0.0, nsamp=False)
    tf = np.zeros((nt, nf), dtype=bool)
    if case["fl"]:
        tf = rng.random((nt, nf)) < case["fl"]
    for q in pairs:
        for p in P:
            i, j = (q[0], AP[p[0]]), (q[1], AP[p[0]])
            v = of(q, p) * g[i] * np.conj(g[j]) * pre[i] * np.conj(pre[j])
            duvd.data_array[sel(duvd, q), :, P.index(p)] = v
            duvd.flag_array[sel(duvd, q), :, P.index(p)] = tf | (bad in q)
    mpairs = [gr[0][:2] for gr in cl.values()] if case["inflate"] else pairs
    muvd = quiet(make_uvd, pos, mpairs, P, times, freqs, seed=3, flag_frac=0.0, nsamp=False)
    for q in mpairs:
        for p in P:
            muvd.data_array[sel(muvd, q), :, P.index(p)] = of(q, p)
    df, mf, out = (os.path.join(tmp, x) for x in ("d.uvh5", "m.uvh5", "o.calfits"))
    quiet(duvd.write_uvh5, df)
    quiet(muvd.write_uvh5, mf)
    pf = af = None
    if case["pre"]:
        pf = os.path.join(tmp, "p.calfits")
        uvc = quiet(make_cal, ants, pre, {k: np.zeros((nt, nf), dtype=bool) for k in pre}, times, freqs, duvd.telescope, pols=[AP[p[0]] for p in P])
        quiet(uvc.write_calfits, pf)
    if case["autos"]:
        af = os.path.join(tmp, "a.uvh5")
        auvd = quiet(make_uvd, pos, [(a, a) for a in ants], P, times, freqs, seed=4, flag_frac=0.0, nsamp=False)
        for a in ants:
            for p in P:
                auvd.data_array[sel(auvd, (a, a)), :, P.index(p)] = rng.uniform(3, 5, size=(nt, nf))
        quiet(auvd.write_uvh5, af)
    ref = None if not case["ref"] else (ants[0], AP[P[0][0]])
    if ref is not None and len(P) > 1:
        ref = {AP[p[0]]: (ants[0], AP[p[0]]) for p in P}
    quiet(abscal.run_model_based_calibration, df, mf, out, auto_file=af, precalibration_gain_file=pf, inflate_model_by_redundancy=case["inflate"], clobber=True, tol=1e-9, max_iter=30, refant=ref, no_ampcal=case["noamp"], no_phscal=case["nophs"])
    hc = io.HERACal(out)
    G, F, _, _ = quiet(hc.read)
    require(set(G) == set(g), f"antennas {sorted(G)} in the calibration")
    for k in g:
        E = tf | (k[0] == bad)
        same(F[k], E, f"flags of {k}")
    for q in pairs:
        for p in P:
            i, j = (q[0], AP[p[0]]), (q[1], AP[p[0]])
            ok = ~F[i] & ~F[j]
            v = of(q, p) * g[i] * np.conj(g[j]) * pre[i] * np.conj(pre[j])
            close((v / (G[i] * np.conj(G[j])))[ok], of(q, p)[ok], f"calibrated {q} {p} against the model", rtol=0, atol=2e-3)
    ctx.label(f"inflate={case['inflate']}", f"pre={case['pre']}", f"autos={case['autos']}")
    ctx.nontrivial()


SUBS = [
    Sub("bls", gen_bls, check_bls, quick=300, thorough=8000),
    Sub("tmap", gen_tmap, check_tmap, quick=120, thorough=4000, shards=2),
    Sub("reds", gen_reds, check_reds, quick=150, thorough=4000),
    Sub("grid", gen_grid, check_grid, quick=300, thorough=8000),
    Sub("wgts", gen_wgts, check_wgts, quick=150, thorough=4000),
    Sub("run", gen_run, check_run, quick=24, thorough=500, shards=3),
    Sub("mult", gen_mult, check_mult, quick=40, thorough=1500),
    Sub("mbc", gen_mbc, check_mbc, quick=24, thorough=800, shards=2),
]
