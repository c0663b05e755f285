"""C14: LST binning puts every integration in the one bin that holds its LST, with its own data, and loses nothing."""
import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed, subset
from ..lstsim import TWOPI, Nights, gen_nights, quiet, drift_phase
from ..layouts import true_groups

RULE = ("align: random rows, bins (any branch, uneven, full circle) through lst_align; files/red/single/stack: one to three nights of small uvh5 files placed "
        "around a target LST (often at 0/2 pi), with missing baselines, mixed orientation, calibration (files or a caller's loader), where-inpainted files, band "
        "and polarization selections, through lst_bin_files_for_baselines, redundantly averaged files, SingleBaselineStacker, and configurator -> config -> "
        "lst_bin_files_from_config addressed by file, bin or LST. Non-trivial: at least two integrations fall in the bins.")
ASSUMPTIONS = ["LSTs within 1e-9 rad (2e-6 for file matching) of a bin edge are not judged", "files of one night are equally long except the last, as HERA writes them",
               "rephasing is judged against the drift of a source at the zenith of the observation"]
LAT = -30.72152


# ---------------------------------------------------------------- lst_align on arrays
def gen_align(draw):
    nb = ints(draw, 1, 6)
    return dict(nbins=nb, start=pick(draw, [0.0, 0.3, -0.4, 3.0, 6.0, 6.25, TWOPI, 7.0, -9.0, 13.0]), full=ints(draw, 0, 4) == 0,
                uneven=flag(draw), nt=ints(draw, 0, 14), nbl=ints(draw, 1, 3), nf=ints(draw, 1, 4), npol=ints(draw, 1, 4), rephase=flag(draw),
                flags=flag(draw), ns=flag(draw), wip=flag(draw), seed=seed(draw), lat=pick(draw, [None, LAT, -30.72152, 0.0, 51.0]))


def edges_of(case, rng):
    nb = case["nbins"]
    w = rng.uniform(0.5, 2.0, size=nb) if case["uneven"] else np.ones(nb)
    span = TWOPI if case["full"] else rng.uniform(0.05, 5.5)
    e = case["start"] + np.concatenate([[0], np.cumsum(w)]) / w.sum() * span
    if case["full"]:
        e[-1] = e[0] + TWOPI
    return e


def which_bin(lst, edges):
    """index of the bin holding the LST (any branch), or None; also the distance to the nearest edge"""
    near = np.min(np.abs((lst - edges + np.pi) % TWOPI - np.pi))
    for k in range(len(edges) - 1):
        x = (lst - edges[k]) % TWOPI
        if 0 < x < edges[k + 1] - edges[k]:
            return k, near
    return None, near


def check_align(case, ctx):
    """lst_align returns, per bin, exactly the rows whose LST lies in it, in input order, phased to the bin centre."""
    from hera_cal.lst_stack import binning
    rng = rng_of(case["seed"])
    edges = edges_of(case, rng)
    nt, nbl, nf, npol = (case[k] for k in ("nt", "nbl", "nf", "npol"))
    lsts = rng.uniform(-1, 8, size=nt)
    inside = rng.random(nt) < 0.6
    lsts = np.where(inside, rng.uniform(edges[0], edges[-1], size=nt), lsts)
    lsts = lsts + TWOPI * rng.integers(-1, 2, size=nt)
    which = [which_bin(x, edges) for x in lsts]
    ok = np.array([w[1] > 1e-6 for w in which], dtype=bool)
    lsts, which = lsts[ok], [w[0] for w in which if w[1] > 1e-6]
    nt = len(lsts)
    freqs = np.linspace(1e8, 2e8, nf)
    ants = {k: np.array([14.0 * k, 9.0 * k * k, 2.0 * k]) for k in range(4)}
    pairs = [(0, 1), (3, 1), (2, 2)][:nbl]
    sh = (nt, nbl, nf, npol)
    data = cplx(rng, sh)
    flags = rng.random(sh) < 0.3
    ns = rng.integers(0, 5, size=sh).astype(float)
    wip = rng.random(sh) < 0.3
    e_in, d_in = edges.copy(), data.copy()
    kw = {} if case["lat"] is None else {"lat": case["lat"]}
    lat = LAT if case["lat"] is None else case["lat"]
    lsts_in = lsts.copy()
    cen, D, F, N, W = binning.lst_align(d_in, lsts_in, pairs, e_in, freqs, flags=flags.copy() if case["flags"] else None,
                                        nsamples=ns.copy() if case["ns"] else None, where_inpainted=wip.copy() if case["wip"] else None,
                                        rephase=case["rephase"], antpos=ants if case["rephase"] else None, **kw)
    ecen = (edges[1:] + edges[:-1]) / 2
    require(len(cen) == len(ecen) and np.allclose(np.exp(1j * np.asarray(cen)), np.exp(1j * ecen), atol=1e-9), f"bin centres {cen} for edges {edges}")
    require(len(D) == len(F) == len(N) == len(W) == case["nbins"], "one entry per bin")
    same(lsts_in, lsts, "caller's LSTs")
    for k in range(case["nbins"]):
        rows = [i for i in range(nt) if which[i] == k]
        exp = data[rows].copy()
        if case["rephase"]:
            d = np.array([(ecen[k] - lsts[i] + np.pi) % TWOPI - np.pi for i in rows])
            for b, (i, j) in enumerate(pairs):
                if rows:
                    exp[:, b] *= drift_phase(ants[i], ants[j], freqs, d, lat)[..., None]
        close(D[k], exp, f"data of bin {k}", rtol=1e-7, atol=1e-7)
        same(F[k], flags[rows] if case["flags"] else np.zeros((len(rows),) + sh[1:], dtype=bool), f"flags of bin {k}")
        same(N[k], ns[rows] if case["ns"] else np.ones((len(rows),) + sh[1:]), f"nsamples of bin {k}")
        if case["wip"]:
            same(W[k], wip[rows], f"where_inpainted of bin {k}")
        else:
            require(W[k] is None, "where_inpainted without input")
    hit = sum(w is not None for w in which)
    ctx.label(f"hits={min(hit, 5)}", f"full={case['full']}", "wraps" if int(edges[0] // TWOPI) != int(edges[-1] // TWOPI) else "no wrap")
    ctx.nontrivial(hit >= 2)


# ---------------------------------------------------------------- files
def gen_files(draw):
    c = gen_nights(draw)
    c.update(nb=ints(draw, 1, 5), wide=pick(draw, [0.6, 1.0, 2.5]), e0=ints(draw, -30, 10), tidx=flag(draw), rephase=flag(draw), full=ints(draw, 0, 4) == 0,
             cal=ints(draw, 0, 3), inp=ints(draw, 0, 2), sel=pick(draw, [None, None, "min", "max", "both"]), workers=pick(draw, [1, 1, 2, 4]),
             psel=pick(draw, ["none", "str", "num", "sub"]), metas=flag(draw), ignore=ints(draw, 0, 5) == 0, branch=pick(draw, [0, 0, 1, -1]),
             e2pi=ints(draw, 0, 4) == 0)
    return c


def file_edges(case, W):
    dl = case["tint"] / 86400.0 * TWOPI * 1.0027379
    w = dl * case["wide"]
    nb = case["nb"]
    if case["full"]:
        nb = max(nb, 2)
        return case["lst0"] + TWOPI * case["branch"] + np.linspace(0, TWOPI, nb + 1)
    e = case["lst0"] + case["e0"] / 10.0 * dl + w * np.arange(nb + 1)
    if case["e2pi"] and case["lst0"] in (0.0, 6.2, 0.02):     # a bin edge exactly at 2 pi
        k = min(case["seed"] % (nb + 1), nb)
        e = TWOPI + w * (np.arange(nb + 1) - k)
    return e + TWOPI * case["branch"]


def expect_rows(W, edges, skip=1e-9):
    """[(file, time index, bin)] of every integration inside the edges, and whether any lies on an edge"""
    rows, tie = [], False
    for k, fl in enumerate(W.files):
        for t, lst in enumerate(fl["lsts"]):
            b, near = which_bin(lst, edges)
            tie |= near < skip
            if b is not None:
                rows.append((k, t, b))
    return rows, tie


def cal_factor(gains, cflags, k, t, pair, pol, chans):
    g, f = gains[k], cflags[k]
    a, b = (pair[0], "J" + pol[0] * 2), (pair[1], "J" + pol[1] * 2)
    t = min(t, g[a].shape[0] - 1)
    return (g[a][t] * g[b][t].conj())[chans], (f[a][t] | f[b][t])[chans]


def check_files(case, ctx):
    """lst_bin_files_for_baselines returns every integration of every file in its bin with calibrated, conjugated, selected data."""
    from hera_cal.lst_stack import binning
    from pyuvdata.uvdata import FastUVH5Meta
    W = Nights(case, ctx.tmp())
    rng = rng_of(case["seed"], "files")
    edges = file_edges(case, W)
    rows, tie = expect_rows(W, edges)
    if tie:
        ctx.label("edge tie")
        return
    cals, gains, cflags = None, {}, {}
    if case["cal"]:
        cals = []
        for k in range(len(W.files)):
            if case["cal"] == 2 and k % 2:
                cals.append(None)
            else:
                p, gains[k], cflags[k] = W.make_cal(k, one=case["seed"] % 3 == 0 or case["cal"] == 3)
                cals.append(p)
    inps, masks = None, {}
    if case["inp"]:
        inps = []
        for k in range(len(W.files)):
            if case["inp"] == 2 and k % 2:
                inps.append(None)
            else:
                p, masks[k] = W.make_inpaint(k)
                inps.append(p)
    allp = sorted({tuple(sorted(p)) for f in W.files for p in f["pairs"]})
    req = [p if rng.integers(3) else p[::-1] for p in allp]
    req = [p for k, p in enumerate(req) if rng.random() < 0.8 or not k]
    if flag_of(case):
        req = req + [(W.ants[0], W.ants[-1])] if (W.ants[0], W.ants[-1]) not in req and (W.ants[-1], W.ants[0]) not in req else req
    pols = list(W.pols)
    parg = None
    if case["psel"] == "sub":
        pols = [p for p in pols if rng.integers(2)][::-1] or pols[:1]
        if "en" in pols and "ne" not in pols or "ne" in pols and "en" not in pols:
            pols = [p for p in pols if p[0] == p[1]] or ["ee"]
        parg = list(pols)
    elif case["psel"] == "str":
        parg = list(pols)
    elif case["psel"] == "num":
        from ..uvsim import POLNUM, POLNUM_N
        parg = [(POLNUM if case["xo"] == "east" else POLNUM_N)[p] for p in pols]
    fmin = fmax = None
    if case["sel"] in ("min", "both"):
        fmin = W.freqs[1] - 1.0
    if case["sel"] in ("max", "both"):
        fmax = W.freqs[max(len(W.freqs) - 2, 1)] + 1.0
    chans = [k for k, x in enumerate(W.freqs) if (fmin is None or x >= fmin) and (fmax is None or x <= fmax)]
    kw = {}
    calls, lkw = [], {"extra": 7}
    if case["cal"] == 3:        # solutions through a caller's own reader
        def loader(path, antpairs, polarizations, **kws):
            calls.append(kws)
            k = cals.index(path)
            require(kws.get("extra") == 7, "loader keyword lost")
            return {a: g[:, chans] for a, g in gains[k].items()}, {a: f[:, chans] for a, f in cflags[k].items()}
        kw.update(cal_file_loader=loader, cal_file_loader_kwargs=lkw)
    if case["tidx"]:
        kw["time_idx"] = [np.array([t for (kk, t, _) in rows if kk == k], dtype=int) for k in range(len(W.files))]
        # a superset must do no harm: times outside every bin are dropped later
        if case["seed"] % 2:
            kw["time_idx"] = [np.arange(len(f["times"])) for f in W.files]
    fls = [FastUVH5Meta(f["path"], blts_are_rectangular=True) if case["metas"] else f["path"] for f in W.files]
    ein = edges.copy()
    if parg is None and W.pols != ["ee"]:
        pols = list(FastUVH5Meta(W.files[0]["path"]).pols)
    cen, D, F, N, WI, T, L = quiet(binning.lst_bin_files_for_baselines, fls, ein, req, pols=parg, cal_files=cals, ignore_flags=case["ignore"],
                                   rephase=case["rephase"], freq_min=fmin, freq_max=fmax, where_inpainted_files=inps, n_workers=case["workers"],
                                   freqs=W.freqs if case["seed"] % 5 else None, **kw)
    same(ein, edges, "caller's bin edges")
    require(lkw == {"extra": 7}, f"the caller's loader keywords became {sorted(lkw)}")
    for kws in calls:
        e = np.asarray(kws["lst_bin_edges"])
        require(np.allclose(np.exp(1j * e), np.exp(1j * edges), atol=1e-9) and len(e) == len(edges), "the loader was told other LST bins")
    nb = len(edges) - 1
    ecen = (edges[1:] + edges[:-1]) / 2
    require(len(D) == len(F) == len(N) == len(T) == len(L) == nb and len(cen) == nb, f"{len(D)} bins for {nb}")
    require(np.allclose(np.exp(1j * np.asarray(cen)), np.exp(1j * ecen), atol=1e-9), f"bin centres {cen}, expected {ecen}")
    enu = W.enu
    nval = 0
    for b in range(nb):
        here = [(k, t) for k, t, bb in rows if bb == b]
        same(np.sort(T[b]), np.sort([W.files[k]["times"][t] for k, t in here]), f"times in bin {b}")
        order = []
        for x in T[b]:
            order.append(next(r for r in here if W.files[r[0]]["times"][r[1]] == x))
        if len(here):
            exl = np.array([W.files[k]["lsts"][t] for k, t in order])
            require(np.allclose(np.exp(1j * np.asarray(L[b])), np.exp(1j * exl), atol=1e-9), f"LSTs in bin {b}")
        require(D[b].shape == (len(here), len(req), len(chans), len(pols)), f"bin {b} shape {D[b].shape}")
        for r, (k, t) in enumerate(order):
            for i, pair in enumerate(req):
                for j, pol in enumerate(pols):
                    got = W.get(k, pair, pol)
                    w = f"bin {b} file {k} time {t} {pair}{pol}"
                    if got is None:
                        require(np.all(np.isnan(D[b][r, i, :, j])), f"{w}: absent baseline has data")
                        if not case["ignore"]:
                            require(np.all(F[b][r, i, :, j]), f"{w}: absent baseline not flagged")
                        require(np.all(N[b][r, i, :, j] == 0), f"{w}: absent baseline has samples")
                        if WI[b] is not None:
                            require(not np.any(WI[b][r, i, :, j]), f"{w}: absent baseline inpainted")
                        continue
                    d, f, n = (x[t][chans] for x in got)
                    f = f.copy()
                    if k in gains:
                        g, gf = cal_factor(gains, cflags, k, t, pair, pol, chans)
                        with np.errstate(all="ignore"):
                            d = d / g
                        f = f | gf
                    if case["rephase"]:
                        dd = (ecen[b] - W.files[k]["lsts"][t] + np.pi) % TWOPI - np.pi
                        d = d * drift_phase(enu[pair[0]], enu[pair[1]], W.freqs[chans], dd, LAT)
                    tol = 2e-4 if case["rephase"] else 2e-5
                    ok = ~f     # flagged samples carry no information
                    close(D[b][r, i, :, j][ok], d[ok], f"{w}: data", rtol=tol, atol=tol)
                    same(F[b][r, i, :, j], np.zeros_like(f) if case["ignore"] else f, f"{w}: flags")
                    close(N[b][r, i, :, j], n, f"{w}: nsamples", rtol=1e-6)
                    nval += int(ok.sum())
                    if inps is not None:
                        m = np.zeros(len(chans), dtype=bool)
                        if k in masks:
                            fl = W.files[k]
                            if pair in fl["pairs"]:
                                m = masks[k][t, fl["pairs"].index(pair)][:, W.pols.index(pol)][chans]
                            else:
                                m = masks[k][t, fl["pairs"].index(pair[::-1])][:, W.pols.index(pol[::-1])][chans]
                        same(WI[b][r, i, :, j], m, f"{w}: where_inpainted")
        if inps is None:
            require(WI[b] is None, "where_inpainted without files")
    ctx.label(f"cal={case['cal']}", f"inp={case['inp']}", f"hit={min(len(rows), 4)}", f"sel={case['sel']}", f"psel={case['psel']}",
              f"wrap={edges[0] % TWOPI > edges[-1] % TWOPI}", f"tidx={case['tidx']}", f"full={case['full']}")
    ctx.nontrivial(nval > 0 and len(rows) >= 2)


def flag_of(case):
    return case["seed"] % 4 == 0


# ---------------------------------------------------------------- redundantly averaged files
def gen_red(draw):
    c = gen_nights(draw, red=True)
    c.update(nb=ints(draw, 1, 4), wide=pick(draw, [1.0, 2.5]), e0=ints(draw, -30, 10), rephase=flag(draw), inp=flag(draw), full=False, branch=0, e2pi=False,
             keys=pick(draw, ["ubl", "any"]))
    return c


def member_of(groups):
    """{pair: (group, stored the other way round)}"""
    member = {}
    for g in groups:
        for p in g:
            member[tuple(p)] = (tuple(g[0]), False)
    for g in groups:
        for p in g:
            member.setdefault(tuple(p)[::-1], (tuple(g[0]), True))
    return member


def check_red(case, ctx):
    """Redundantly averaged files: the one stored member of a group, in either orientation, is returned for the group's key."""
    from hera_cal.lst_stack import binning
    from hera_cal.red_groups import RedundantGroups
    groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=case["autos"]).items())]

    def pairs_of(n, f, rng):
        out = []
        for k, g in enumerate(groups):
            if rng.integers(6) == 0 and k:
                continue
            p = g[rng.integers(len(g))]
            out.append(tuple(p) if case["orient"] == "minmax" or rng.integers(2) else tuple(p)[::-1])
        return out
    W = Nights(case, ctx.tmp(), pairs_of=pairs_of)
    rng = rng_of(case["seed"], "red")
    edges = file_edges(case, W)
    rows, tie = expect_rows(W, edges)
    if tie:
        return
    reds = RedundantGroups.from_antpos(antpos={a: np.array(p) for a, p in W.enu.items()}, include_autos=True)
    req = []
    for g in groups:
        p = tuple(g[rng.integers(len(g))])
        if rng.integers(2):
            p = p[::-1]
        req.append(tuple(reds.get_ubl_key(p)) if case["keys"] == "ubl" else p)
    req = list(dict.fromkeys(req))
    inps, masks = None, {}
    if case["inp"]:
        inps = []
        for k in range(len(W.files)):
            p, masks[k] = W.make_inpaint(k)
            inps.append(p)
    if case["keys"] == "any":      # keys other than the group's own name: only groups are promised, so ask by name
        req = [tuple(reds.get_ubl_key(p)) for p in req]
        req = list(dict.fromkeys(req))
    pols = list(W.pols)
    cen, D, F, N, WI, T, L = quiet(binning.lst_bin_files_for_baselines, [f["path"] for f in W.files], edges.copy(), req, pols=pols, rephase=case["rephase"],
                                   redundantly_averaged=True, reds=reds, where_inpainted_files=inps, antpos={a: np.array(p) for a, p in W.enu.items()})
    member = member_of(groups)
    ecen = (edges[1:] + edges[:-1]) / 2
    nval = nconj = 0
    for b in range(len(ecen)):
        here = [(k, t) for k, t, bb in rows if bb == b]
        same(np.sort(T[b]), np.sort([W.files[k]["times"][t] for k, t in here]), f"times in bin {b}")
        order = [next(r for r in here if W.files[r[0]]["times"][r[1]] == x) for x in T[b]]
        for r, (k, t) in enumerate(order):
            for i, key in enumerate(req):
                g, krev = member[key]
                st = [p for p in W.files[k]["pairs"] if member[p][0] == g]
                for j, pol in enumerate(pols):
                    w = f"bin {b} file {k} time {t} {key}{pol} stored as {st}"
                    if not st:
                        require(np.all(F[b][r, i, :, j]) and np.all(N[b][r, i, :, j] == 0), f"{w}: absent group")
                        continue
                    p = st[0]
                    conj = member[p][1] != krev
                    want = p[::-1] if conj else p
                    d, f, n = (x[t] for x in W.get(k, want, pol))
                    if case["rephase"]:
                        dd = (ecen[b] - W.files[k]["lsts"][t] + np.pi) % TWOPI - np.pi
                        d = d * drift_phase(W.enu[want[0]], W.enu[want[1]], W.freqs, dd, LAT)
                    close(D[b][r, i, :, j][~f], d[~f], f"{w}: data", rtol=2e-4, atol=2e-4)
                    same(F[b][r, i, :, j], f, f"{w}: flags")
                    close(N[b][r, i, :, j], n, f"{w}: nsamples", rtol=1e-6)
                    if inps is not None:
                        pp = pol[::-1] if conj else pol
                        same(WI[b][r, i, :, j], masks[k][t, W.files[k]["pairs"].index(p)][:, W.pols.index(pp)], f"{w}: where_inpainted")
                    nval += 1
                    nconj += conj
    ctx.label(f"conj={nconj > 0}", f"inp={case['inp']}")
    ctx.nontrivial(nval > 1)


# ---------------------------------------------------------------- the configured pipeline
def gen_stack(draw):
    c = gen_nights(draw, maxfiles=3)
    for night in c["nights"]:         # files of a night have one length, only the last may be shorter
        for f in night:
            f["nt"] = night[0]["nt"]
        night[-1]["nt"] = min(night[-1]["nt"], ints(draw, 1, 5))
    c.update(mult=pick(draw, [0.7, 1.0, 3.3, 40.0]), per=pick(draw, [1, 2, 3, 7, 10**6]), cal=ints(draw, 0, 2) == 0, inp=ints(draw, 0, 2) == 0,
             regex=flag(draw), window=ints(draw, 0, 2), rephase=flag(draw), chunks=pick(draw, [1, 1, 2, 5]), sel=pick(draw, [None, None, "min", "max", "both"]),
             disk=flag(draw), ign=ints(draw, 0, 4) == 0, by=pick(draw, ["outfile", "outfile", "bin", "lst", "binlst"]))
    return c


def infer_red(W, groups):
    """the documented guess: averaged if, in every night's middle file, no two baselines are redundant"""
    name = {}
    for g in groups:
        for p in g:
            name[tuple(p)] = name[tuple(p)[::-1]] = tuple(g[0])
    for n in sorted({f["night"] for f in W.files}):
        fl = [f for f in W.files if f["night"] == n]
        mid = fl[len(fl) // 2]
        if len({name[p] for p in mid["pairs"]}) != len(mid["pairs"]):
            return False
    return True


def check_stack(case, ctx):
    """Configurator -> matched files -> config -> stacks: every integration inside the grid appears once, in its bin, nothing else does."""
    from hera_cal.lst_stack import binning, config
    W = Nights(case, ctx.tmp())
    groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=True).items())]
    red = infer_red(W, groups)
    if red:
        names = [{tuple(sorted(p)) for p in f["pairs"]} for f in W.files]
        member = {tuple(sorted(p)): tuple(g[0]) for g in groups for p in g}
        if len({member[p] for n in names for p in n}) != len({p for n in names for p in n}):
            ctx.label("ambiguous redundancy")
            return
    dl = case["tint"] / 86400.0 * TWOPI * 1.0027379
    dlst = dl * case["mult"]
    kw = {}
    if case["window"]:
        lo = max(0.0, min(f["lsts"].min() for f in W.files) - case["seed"] % 7 * dl)
        if case["window"] == 2:
            lo = lo + 2.3 * dl
        hi = min(TWOPI, lo + dlst * (2.5 + case["seed"] % 11))
        if hi - lo < 1.5 * dlst:
            lo = max(0.0, hi - 3 * dlst)
        kw = dict(lst_start=float(lo), lst_end=float(hi))
    elif dlst < 0.004:
        dlst = 0.004
    data_files = [[f["path"] for f in W.files if f["night"] == n] for n in range(len(case["nights"]))]
    gains, cflags, masks = {}, {}, {}
    if case["cal"] and not red:
        for k in range(len(W.files)):
            p, gains[k], cflags[k] = W.make_cal(k, one=case["seed"] % 3 == 0)
        kw["calfile_rules"] = [(".uvh5", ".calfits")]
    if case["inp"]:
        for k in range(len(W.files)):
            p, masks[k] = W.make_inpaint(k)
        kw["where_inpainted_file_rules"] = [(".sum.uvh5", ".where_inpainted.h5")]
    ign = ()
    if case["ign"] and not red and len(W.ants) > 2:
        ign = (W.ants[1],)
        kw["ignore_ants"] = ign
    if max(len(n) for n in case["nights"]) > 2 or case["seed"] % 2:     # by default only the first and last file of a night are searched for baselines
        kw["antpairs_from_last_file_each_night"] = False
    if not case["regex"]:
        kw["jd_regex"] = None if case["seed"] % 2 else ""
    cfgr = quiet(config.LSTBinConfigurator, data_files=data_files, dlst=dlst, nlsts_per_file=case["per"] if case["per"] < 10**6 else 10**4, **kw)
    grid = np.asarray(cfgr.lst_grid)
    edges = np.concatenate([grid - cfgr.dlst / 2, [grid[-1] + cfgr.dlst / 2]])
    rows, tie = expect_rows(W, edges, skip=2e-6)
    if tie:
        ctx.label("edge tie")
        return
    if not rows:
        return
    mf = quiet(cfgr.get_matched_files)
    cfg = quiet(cfgr.create_config, mf)
    if case["disk"]:
        import os
        p = os.path.join(W.tmp, "cfg.h5")
        cfg.write(p)
        cfg = quiet(config.LSTConfig.from_file, p)
    ok_ant = lambda p: not (set(p) & set(ign))
    allp = {tuple(sorted(p)) for f in W.files for p in f["pairs"] if ok_ant(p)}
    got = [tuple(p) for p in list(cfg.antpairs) + list(cfg.autopairs)]
    require(sorted(tuple(sorted(p)) for p in got) == sorted(allp) or red, f"config antpairs {sorted(got)} for files holding {sorted(allp)}")
    require(len(got) == len(allp), f"{len(got)} antpairs in the config for {len(allp)} baselines")
    fmin = W.freqs[1] - 1.0 if case["sel"] in ("min", "both") else None
    fmax = W.freqs[max(len(W.freqs) - 2, 1)] + 1.0 if case["sel"] in ("max", "both") else None
    chans = [k for k, x in enumerate(W.freqs) if (fmin is None or x >= fmin) and (fmax is None or x <= fmax)]
    # every way of addressing the pieces
    pieces = []
    lg = np.atleast_2d(cfg.lst_grid)
    for i in range(lg.shape[0]):
        if case["by"] == "outfile":
            pieces.append(quiet(cfg.at_single_outfile, outfile=i))
        elif case["by"] == "lst":
            pieces.append(quiet(cfg.at_single_outfile, lst=float(lg[i][np.isfinite(lg[i])][case["seed"] % int(np.isfinite(lg[i]).sum())])))
        else:
            js = [j for j in range(lg.shape[1]) if np.isfinite(lg[i, j])]
            if len(js) > 60:
                near = {b for _, _, b in rows}
                js = [j for j in js if int(np.argmin(np.abs(grid - lg[i, j]))) in near]
            for j in js:
                if case["by"] == "bin":
                    pieces.append(quiet(cfg.at_single_bin, bin_index=i * lg.shape[1] + j))
                else:
                    pieces.append(quiet(cfg.at_single_bin, lst=float(lg[i, j])))
    if len(pieces) > 150:
        ctx.label("too many pieces")
        return
    mem = member_of(groups)

    def stored(k, pair):
        """the baseline of file k, oriented like pair, that stands for pair"""
        if not red:
            return pair
        for p in W.files[k]["pairs"]:
            if mem[p][0] == mem[pair][0]:
                return p if mem[p][1] == mem[pair][1] or p[0] == p[1] else p[::-1]
        return pair
    seen = {}
    for piece in pieces:
        plan = [(c, case["chunks"]) for c in range(case["chunks"])] + ([("autos", 1)] if cfg.autopairs else [])
        for chunk, nch in plan:
            if chunk != "autos" and not len(cfg.antpairs[int(np.ceil(len(cfg.antpairs) / nch)) * chunk:]):
                continue
            stacks = quiet(binning.lst_bin_files_from_config, piece, bl_chunk_to_load=chunk, nbl_chunks=nch, rephase=case["rephase"], freq_min=fmin, freq_max=fmax)
            if stacks is None:
                continue
            pg = np.asarray(piece.lst_grid)
            pg = pg[np.isfinite(pg)]
            require(len(stacks) == len(pg), f"{len(stacks)} stacks for {len(pg)} bins")
            for s, cen in zip(stacks, pg):
                if s is None:
                    continue
                b = int(np.argmin(np.abs(grid - cen)))
                close(np.asarray(s.freq_array), W.freqs[chans], "stack frequencies")
                require(sorted(s.pols) == sorted(W.pols), f"stack pols {s.pols}")
                for r, tm in enumerate(s.times):
                    where = [(k, int(np.argmin(np.abs(f["times"] - tm)))) for k, f in enumerate(W.files) if np.min(np.abs(f["times"] - tm)) < 1e-8]
                    require(len(where) == 1, f"stack time {tm} is in {len(where)} files")
                    k, t = where[0]
                    for i, pair in enumerate(s.antpairs):
                        pair = (int(pair[0]), int(pair[1]))
                        key = (k, t, pair)
                        require(key not in seen, f"file {k} time {t} baseline {pair} appears twice: bins {seen.get(key)} and {b}")
                        seen[key] = b
                        pair = stored(k, pair)
                        for j, pol in enumerate(s.pols):
                            w = f"bin {b} file {k} time {t} {pair}{pol}"
                            v = W.get(k, pair, pol)
                            d, f, n = s.data[r, i, :, j], s.flags[r, i, :, j], s.nsamples[r, i, :, j]
                            if v is None:
                                require(np.all(f) and np.all(n == 0), f"{w}: absent baseline")
                                continue
                            ed, ef, en = (x[t][chans] for x in v)
                            if k in gains:
                                g, gf = cal_factor(gains, cflags, k, t, pair, pol, chans)
                                ed, ef = ed / g, ef | gf
                            if case["rephase"]:
                                dd = (grid[b] - W.files[k]["lsts"][t] + np.pi) % TWOPI - np.pi
                                ed = ed * drift_phase(W.enu[pair[0]], W.enu[pair[1]], W.freqs[chans], dd, LAT)
                            close(d[~ef], ed[~ef], f"{w}: data", rtol=2e-4, atol=2e-4)
                            m = np.zeros(len(chans), dtype=bool)
                            if k in masks:
                                fl = W.files[k]
                                if pair in fl["pairs"]:
                                    m = masks[k][t, fl["pairs"].index(pair)][:, W.pols.index(pol)][chans]
                                else:
                                    m = masks[k][t, fl["pairs"].index(pair[::-1])][:, W.pols.index(pol[::-1])][chans]
                            same(f, ef & ~m, f"{w}: flags")
                            close(n, np.where(m, -en, en), f"{w}: nsamples", rtol=1e-6)
    # nothing lost
    for k, t, b in rows:
        for pair in got:
            require(seen.get((k, t, pair)) == b, f"integration {t} of file {k} (LST {W.files[k]['lsts'][t]:.6f}, bin {b}: "
                    f"{edges[b]:.6f}..{edges[b + 1]:.6f}) baseline {pair}: found in {seen.get((k, t, pair))}")
    require(len(seen) == len(rows) * len(got), f"{len(seen)} integrations stacked, {len(rows) * len(got)} in the grid")
    ctx.label(f"by={case['by']}", f"red={red}", f"regex={case['regex']}", f"window={case['window']}", f"per={case['per']}", f"cal={bool(gains)}", f"inp={case['inp']}")
    ctx.nontrivial(len(rows) >= 2)


# ---------------------------------------------------------------- single-baseline stacker
def gen_single(draw):
    c = gen_nights(draw, maxfiles=2)
    c.update(nb=ints(draw, 1, 6), wide=pick(draw, [1.0, 2.5, 6.0]), e0=ints(draw, -30, 10), full=ints(draw, 0, 3) == 0, cal=flag(draw), inp=ints(draw, 0, 2),
             cut=pick(draw, [None, 0.0, 0.5, 3.0, "in", "in"]), psel=flag(draw), keep=ints(draw, 0, 4) == 0, allflag=ints(draw, 0, 2) == 0, as_samples=flag(draw),
             workers=pick(draw, [1, 1, 3]), auto=ints(draw, 0, 3) == 0)
    return c


def check_single(case, ctx):
    """SingleBaselineStacker: all nights of one baseline, in the last file's orientation, rolled to the branch cut, trimmed, and averaged as documented."""
    import os
    from hera_cal.lst_stack import binning, config
    dl = case["tint"] / 86400.0 * TWOPI * 1.0027379

    def pairs_of(n, f, rng):
        a = W_ants
        p = [(a[0], a[-1]), (a[0], a[0]) if case["auto"] else (a[-1], a[0] if len(a) < 3 else a[1])][f]
        if case["orient"] == "random" and rng.integers(2):
            p = p[::-1]
        return [p]
    from ..layouts import positions
    W_ants = sorted(positions(case["lay"], 14.6))
    if len(W_ants) < 3:
        case = dict(case, nights=[nt[:1] for nt in case["nights"]])
    W = Nights(dict(case, autos=True), ctx.tmp(), pairs_of=pairs_of)
    rng = rng_of(case["seed"], "single")
    if case["allflag"]:       # some integrations are flagged throughout
        for fl in W.files:
            u = fl["uvd"]
            for t in range(len(fl["times"])):
                if rng.integers(2):
                    u.flag_array[np.abs(u.time_array - fl["times"][t]) < 1e-8] = True
                    fl["flags"][t] = True
            quiet(u.write_uvh5, fl["path"], clobber=True)
    nights = [str(2459500 + n) for n in range(len(case["nights"]))]
    gains, cflags, masks = {}, {}, {}
    for k, fl in enumerate(W.files):
        a, b = fl["pairs"][0]
        new = os.path.join(W.tmp, f"zen.{nights[fl['night']]}.{a}_{b}.sum.uvh5")
        os.rename(fl["path"], new)
        fl["path"] = new
        if case["inp"] == 2 or case["inp"] == 1 and len(case["nights"]) > 1:
            masks[k] = W.make_inpaint(k)[1]
    names = [case_bl(fl["pairs"][0]) for fl in W.files]
    cfgr = config.LSTBinConfiguratorSingleBaseline(W.tmp, nights, "zen.{night}.{baseline}.sum.uvh5")
    got = {k: [os.path.basename(x) for x in v] for k, v in cfgr.bl_to_file_map.items()}
    exp = {}
    for fl, nm in zip(W.files, names):
        key = next((e for e in exp if sorted(e.split("_")) == sorted(nm.split("_"))), nm)
        exp.setdefault(key, []).append(os.path.basename(fl["path"]))
    require({tuple(sorted(k.split("_"))): v for k, v in got.items()} == {tuple(sorted(k.split("_"))): v for k, v in exp.items()},
            f"baseline to file map {got}, files {exp}")
    bl_str = sorted(cfgr.bl_to_file_map)[case["seed"] % len(cfgr.bl_to_file_map)]
    mine = [k for k, fl in enumerate(W.files) if fl["path"] in cfgr.bl_to_file_map[bl_str]]
    if case["cal"]:
        for k in mine:      # one calibration per night
            p, gains[k], cflags[k] = W.make_cal(k)
            os.rename(p, os.path.join(W.tmp, f"cal.{nights[W.files[k]['night']]}.calfits"))
        cmap = cfgr.build_visfile_to_calfile_map(os.path.join(W.tmp, "cal.{night}.calfits"))
        for k, fl in enumerate(W.files):
            require(os.path.basename(cmap[fl["path"]]) == f"cal.{nights[fl['night']]}.calfits", f"{fl['path']} is calibrated with {cmap[fl['path']]}")
    nb = case["nb"]
    if case["full"]:
        edges = np.linspace(0, TWOPI, max(nb, 2) * 3 + 1)
    else:
        lo = case["lst0"] + case["e0"] / 10.0 * dl
        edges = lo + dl * case["wide"] * np.arange(nb + 1)
        edges = edges - max(0.0, edges[-1] - TWOPI)
        edges = edges - min(0.0, edges[0])
        edges[0], edges[-1] = max(edges[0], 0.0), min(edges[-1], TWOPI)
    nb = len(edges) - 1
    rows, tie = expect_rows(W, edges)
    if tie:
        ctx.label("edge tie")
        return
    rows = [r for r in rows if r[0] in mine]
    cen = (edges[1:] + edges[:-1]) / 2
    cut = case["cut"]
    if cut == "in":
        cut = float(rng.uniform(edges[0], edges[-1]))
    if cut is not None and np.min(np.abs(cen - cut)) < 1e-9:
        cut = cut + 1e-3
    pols = list(W.pols)
    if case["psel"]:
        pols = [p for p in pols if p[0] == p[1]][:1 + case["seed"] % 2]
    kw = {}
    if case["inp"]:
        if len(masks) < len(W.files):
            return
        kw["where_inpainted_file_rules"] = [[".sum.uvh5", ".where_inpainted.h5"]]
    if case["keep"]:
        kw["to_keep_slice"] = slice(0, nb)
    sb = quiet(binning.SingleBaselineStacker.from_configurator, cfgr, bl_str, edges.copy(), lst_branch_cut=cut, n_workers=case["workers"],
               pols=pols if case["psel"] else None, **kw)
    order = list(range(nb))
    ecen = cen.copy()
    if cut is not None:
        order = [b for b in range(nb) if cen[b] >= cut] + [b for b in range(nb) if cen[b] < cut]
        ecen = np.where(cen < cut, cen + TWOPI, cen)
    last = W.files[mine[-1]]
    pair = last["pairs"][0]
    require([tuple(p) for p in sb.hd.antpairs] == [pair], f"stacker antpairs {sb.hd.antpairs}, the last file has {pair}")
    spols = list(sb.hd.pols)
    require(sorted(spols) == sorted(pols), f"stacker pols {spols}, expected {pols}")
    # reference stack per bin
    ref = {}
    for b in range(nb):
        here = [(k, t) for k, t, bb in rows if bb == b]
        D = np.zeros((len(here), len(W.freqs), len(spols)), dtype=complex)
        F, N, M = np.zeros(D.shape, dtype=bool), np.zeros(D.shape), np.zeros(D.shape, dtype=bool)
        for r, (k, t) in enumerate(here):
            st = W.files[k]["pairs"][0]
            for j, pol in enumerate(spols):
                d, f, n = (x[t] for x in W.get(k, pair, pol))
                if k in gains:
                    g, gf = cal_factor(gains, cflags, k, t, pair, pol, slice(None))
                    d, f = d / g, f | gf
                dd = (cen[b] - W.files[k]["lsts"][t] + np.pi) % TWOPI - np.pi
                D[r, :, j] = d * drift_phase(W.enu[pair[0]], W.enu[pair[1]], W.freqs, dd, LAT)
                F[r, :, j], N[r, :, j] = f, n
                if k in masks:
                    M[r, :, j] = masks[k][t, 0][:, W.pols.index(pol if st == pair else pol[::-1])]
        ref[b] = here, D, F, N, M
    has = [len(ref[b][0]) > 0 and not np.all(ref[b][2]) for b in order]
    if case["keep"]:
        kept = list(range(nb))
    elif any(has):
        kept = list(range(has.index(True), nb - has[::-1].index(True)))
    else:
        kept = []
    require(len(sb.data) == len(kept), f"{len(sb.data)} bins kept, expected {len(kept)} of {nb} (bins with data {has})")
    close(sb.bin_lst, [ecen[order[i]] for i in kept], "bin LSTs", rtol=0, atol=1e-9)
    wt = sb.average_over_nights(inpainted_data_are_samples=True) if case["as_samples"] else sb.average_over_nights()
    nn = 0
    for pos, i in enumerate(kept):
        here, D, F, N, M = ref[order[i]]
        w = f"bin {order[i]} ({pos} of the stack)"
        T = np.asarray(sb.times_in_bins[pos])
        same(np.sort(T), np.sort([W.files[k]["times"][t] for k, t in here]), f"{w}: times")
        perm = [next(r for r, (k, t) in enumerate(here) if W.files[k]["times"][t] == x) for x in T]
        require(np.allclose(np.exp(1j * np.asarray(sb.lsts_in_bins[pos])), np.exp(1j * np.array([W.files[k]["lsts"][t] for k, t in here])[perm] if here else np.zeros(0)),
                            atol=1e-9), f"{w}: LSTs")
        D, F, N, M = D[perm], F[perm], N[perm], M[perm]
        same(sb.flags[pos], F, f"{w}: flags")
        close(np.where(F, 0, sb.data[pos]), np.where(F, 0, D), f"{w}: data", rtol=2e-4, atol=2e-4)
        close(sb.nsamples[pos], N, f"{w}: nsamples", rtol=1e-6)
        if case["inp"]:
            same(sb.where_inpainted[pos], M, f"{w}: where_inpainted")
        if not len(here):
            require(np.all(wt[0][pos] == 0) and np.all(wt[1][pos]) and np.all(wt[2][pos] == 0), f"{w}: empty bin averages to something")
            continue
        good = ~F.all(axis=0)
        ww = np.where(F, 0, N)
        with np.errstate(all="ignore"):
            avg = (ww * np.where(F, 0, D)).sum(axis=0) / ww.sum(axis=0)
        same(wt[1][pos], ~good, f"{w}: averaged flags")
        close(wt[0][pos][good], avg[good], f"{w}: average", rtol=5e-4, atol=5e-4)
        require(np.all(np.isfinite(wt[0][pos])), f"{w}: average not finite")
        close(wt[2][pos], np.where(F | (M & (not case["as_samples"])), 0, N).sum(axis=0), f"{w}: averaged nsamples", rtol=1e-6)
        nn += len(here) > 1
    ctx.label(f"cut={case['cut'] is not None}", f"cal={case['cal']}", f"inp={case['inp']}", f"kept={len(kept)}/{nb}" if len(kept) < nb else "kept all", f"several={nn > 0}")
    ctx.nontrivial(len(rows) >= 2)


def case_bl(p):
    return f"{p[0]}_{p[1]}"


SUBS = [Sub("align", gen_align, check_align, quick=300), Sub("files", gen_files, check_files, quick=64, shards=8),
        Sub("red", gen_red, check_red, quick=40, shards=8), Sub("single", gen_single, check_single, quick=64, shards=8),
        Sub("stack", gen_stack, check_stack, quick=48, shards=8)]
