"""C15: LST-binned statistics and output files are the documented reductions of the integrations in each bin."""
import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..uvsim import POLNUM, POLNUM_N
from ..lstsim import TWOPI, Nights, gen_nights, quiet, drift_phase

RULE = ("reduce: random stacks (0-6 nights, 1-3 baselines, 1-6 channels) with flags, nan/inf data, zero and negative (in-painted) nsamples, through "
        "get_masked_data/lst_average/reduce_lst_bins in both modes; outfiles: nights of small uvh5 files through lst_bin_files and read back; inpaint: "
        "stacks with flagged gaps through the two in-painting averages. Non-trivial: at least two nights contribute to a sample (reduce, outfiles), "
        "or some night is in-painted where others are not (inpaint).")
ASSUMPTIONS = ["infinite standard deviations are only judged to be non-finite", "the DPSS basis itself is hera_filters' own"]
LAT = -30.72152


# ---------------------------------------------------------------- reference reduction
def reference(data, flags, ns, inpainted, fill=np.nan):
    """Straight from the documented definitions; arrays (night, bl, freq, pol)."""
    sh = data.shape[1:]
    out = dict(data=np.full(sh, fill, dtype=complex), flags=np.ones(sh, dtype=bool), nsamples=np.zeros(sh), days_binned=np.zeros(sh),
               std=np.full(sh, np.inf, dtype=complex), median=np.full(sh, np.nan, dtype=complex), mad=np.full(sh, np.nan, dtype=complex))
    bad = flags | ~np.isfinite(data)
    orig = bad | (ns < 0)
    n = np.where(orig, 0.0, ns)
    if inpainted:
        cnt = (~orig).sum(axis=2, keepdims=True)
        n = np.where(cnt > 0, n.sum(axis=2, keepdims=True) / np.maximum(cnt, 1), 0.0) * np.ones(data.shape)
        use = ~bad
    else:
        use = ~orig
    for ix in np.ndindex(*sh):
        s = (slice(None),) + ix
        u, o, d, w = use[s], ~orig[s], data[s], n[s]
        out["flags"][ix] = not u.any()
        out["days_binned"][ix] = o.sum()
        out["nsamples"][ix] = w[o].sum()
        if w[u].sum() > 0:
            m = out["data"][ix] = (d[u] * w[u]).sum() / w[u].sum()
            if w[o].sum() > 0:
                vr = ((d[o].real - m.real) ** 2 * w[o]).sum() / w[o].sum()
                vi = ((d[o].imag - m.imag) ** 2 * w[o]).sum() / w[o].sum()
                out["std"][ix] = np.sqrt(vr) + 1j * np.sqrt(vi)
        if u.any():
            med = np.median(d[u].real) + 1j * np.median(d[u].imag)
            out["median"][ix] = med
            out["mad"][ix] = 1.482579 * (np.median(np.abs(d[u].real - med.real)) + 1j * np.median(np.abs(d[u].imag - med.imag)))
    return out


def compare(got, ref, what, tol=1e-8, std=True, med=False):
    same(np.asarray(got["flags"]), ref["flags"], f"{what}: flags")
    close(got["nsamples"], ref["nsamples"], f"{what}: nsamples", rtol=max(tol, 1e-7))
    close(got["days_binned"], ref["days_binned"], f"{what}: days binned")
    ok = np.isfinite(ref["data"])
    close(np.asarray(got["data"])[ok], ref["data"][ok], f"{what}: mean", rtol=tol, atol=tol)
    if std:
        fin = np.isfinite(ref["std"])
        close(np.asarray(got["std"])[fin], ref["std"][fin], f"{what}: std", rtol=max(tol, 1e-6), atol=max(tol, 1e-6))
        require(not np.any(np.isfinite(np.asarray(got["std"])[~fin])), f"{what}: finite std without samples")
    if med:
        ok = ~ref["flags"]
        close(np.ma.getdata(got["median"])[ok], ref["median"][ok], f"{what}: median", rtol=tol, atol=tol)
        close(np.ma.getdata(got["mad"])[ok], ref["mad"][ok], f"{what}: MAD", rtol=tol, atol=tol)


def gen_reduce(draw):
    return dict(nn=ints(draw, 0, 6), nbl=ints(draw, 1, 3), nf=ints(draw, 1, 6), npol=ints(draw, 1, 2), fl=pick(draw, [0.0, 0.3, 0.7]), inp=pick(draw, [0.0, 0.3, 0.6]),
                nan=flag(draw), zero=flag(draw), uniform=flag(draw), fill=pick(draw, ["nan", "0", "inf"]), allf=flag(draw), seed=seed(draw), std=flag(draw), mad=flag(draw))


def check_reduce(case, ctx):
    """reduce_lst_bins gives the documented mean, flags, nsamples, days, std, median and MAD, in both modes, leaving its input alone."""
    from hera_cal.lst_stack import averaging as avg
    rng = rng_of(case["seed"])
    sh = (case["nn"], case["nbl"], case["nf"], case["npol"])
    d = cplx(rng, sh)
    f = rng.random(sh) < case["fl"]
    n = rng.integers(1, 6, size=sh if not case["uniform"] else (case["nn"], case["nbl"], 1, case["npol"])).astype(float) * np.ones(sh)
    n = np.where(rng.random(sh) < case["inp"], -n, n)
    if case["zero"]:
        n[rng.random(sh) < 0.2] = 0.0
    if case["nan"]:
        d[rng.random(sh) < 0.15] = np.nan
        d[rng.random(sh) < 0.05] = np.inf
    if case["allf"] and case["nn"]:
        f[:, 0, 0] = True
        f[0] = True
    fill = dict(nan=np.nan, inf=np.inf)[case["fill"]] if case["fill"] != "0" else 0.0
    d0, f0, n0 = d.copy(), f.copy(), n.copy()
    for mode in (False, True):
        got = quiet(avg.reduce_lst_bins, data=d, flags=f, nsamples=n, inpainted_mode=mode, get_mad=case["mad"], get_std=case["std"], mean_fill_value=fill)
        same(d, d0, "caller's data")
        same(f, f0, "caller's flags")
        same(n, n0, "caller's nsamples")
        w = f"inpainted={mode}"
        if not case["nn"]:
            require(np.all(got["flags"]) and np.all(got["nsamples"] == 0) and np.all(got["days_binned"] == 0) and got["data"].shape == sh[1:], f"{w}: empty stack")
            continue
        ref = reference(d0, f0, n0, mode, fill)
        compare(got, ref, w, std=case["std"], med=case["mad"])
        none = ~np.isfinite(ref["data"]) if case["fill"] != "0" else ref["data"] == 0
        v = np.asarray(got["data"])[none]
        require(np.all(np.isnan(v) if case["fill"] == "nan" else np.isinf(v) if case["fill"] == "inf" else v == 0), f"{w}: fill {case['fill']}, mean {v[:4]}")
    # what is not there cannot be averaged
    if case["nn"]:
        for k in range(3):
            args = dict(data=d, flags=f, nsamples=n)
            del args[["data", "flags", "nsamples"][k]]
            try:
                quiet(avg.reduce_lst_bins, **args)
            except ValueError:
                pass
            else:
                require(False, f"a stack without {list(args)} is averaged")
        dm, _, nm = quiet(avg.get_masked_data, d, f, n, inpainted_mode=False)
        s1, n1 = quiet(avg.compute_std, dm, nm)
        ref = reference(d0, f0, n0, False, np.nan)
        ok = ref["nsamples"] > 0
        close(np.asarray(n1)[ok], ref["nsamples"][ok], "samples behind the standard deviation")
        close(np.asarray(s1)[ok], ref["std"][ok], "standard deviation about the data's own mean")
    # a night that is flagged throughout changes nothing
    if case["nn"]:
        ex = [np.concatenate([a, b]) for a, b in ((d, cplx(rng, (1,) + sh[1:])), (f, np.ones((1,) + sh[1:], dtype=bool)), (n, np.ones((1,) + sh[1:])))]
        a = quiet(avg.reduce_lst_bins, data=d, flags=f, nsamples=n, inpainted_mode=True)
        b = quiet(avg.reduce_lst_bins, data=ex[0], flags=ex[1], nsamples=ex[2], inpainted_mode=True)
        for k in ("data", "nsamples", "days_binned"):
            close(b[k], a[k], f"a fully flagged night changes {k}")
        same(b["flags"], a["flags"], "a fully flagged night changes the flags")
    ctx.label(f"nights={case['nn']}", f"inp={case['inp']}", f"fill={case['fill']}")
    ctx.nontrivial(case["nn"] >= 2)


# ---------------------------------------------------------------- output files
def gen_out(draw):
    c = gen_nights(draw, maxfiles=2)
    for night in c["nights"]:
        for f in night:
            f["nt"] = night[0]["nt"]
        night[-1]["nt"] = min(night[-1]["nt"], ints(draw, 1, 5))
    c.update(autos=pick(draw, [True, True, True, False]), per=pick(draw, [1, 2, 3, 5]), mult=pick(draw, [1.0, 3.3, 20.0]), window=ints(draw, 1, 2), cal=ints(draw, 0, 2) == 0,
             inp=flag(draw), rephase=flag(draw), chunk=pick(draw, [None, 1, 2, 3, 100]), sel=pick(draw, [None, None, "min", "max", "both"]), med=flag(draw),
             oflag=flag(draw), oinp=pick(draw, [None, None, True, False]), disk=flag(draw), only=ints(draw, 0, 3) == 0, acorr=ints(draw, 0, 9) == 0, exists=ints(draw, 0, 4) == 0)
    return c


def check_out(case, ctx):
    """lst_bin_files writes, per LST bin, baseline and polarization, the reduction of exactly the integrations in that bin."""
    import os
    from hera_cal.lst_stack import config, wrappers
    from pyuvdata import UVData
    from .c14 import cal_factor, expect_rows, infer_red, member_of
    from ..layouts import true_groups
    nums = case["lay"]["nums"]
    W = Nights(case, ctx.tmp(), pairs_of=(lambda n, f, rng: [(a, a) for a in nums]) if case["acorr"] else None)
    groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=True).items())]
    red = infer_red(W, groups)
    mem = member_of(groups)
    if red:
        if len({tuple(sorted(p)) for f in W.files for p in f["pairs"]}) != len({mem[p][0] for f in W.files for p in f["pairs"]}) or case["cal"]:
            ctx.label("ambiguous redundancy")
            return
    dl = case["tint"] / 86400.0 * TWOPI * 1.0027379
    dlst = dl * case["mult"]
    lo = max(0.0, min(f["lsts"].min() for f in W.files) - case["seed"] % 7 * dl)
    if case["window"] == 2:
        lo = lo + 2.3 * dl
    hi = min(TWOPI, lo + dlst * (2.5 + case["seed"] % 9))
    if hi - lo < 1.5 * dlst:
        lo = max(0.0, hi - 3 * dlst)
    kw = dict(lst_start=float(lo), lst_end=float(hi), antpairs_from_last_file_each_night=False)
    gains, cflags, masks = {}, {}, {}
    if case["cal"]:
        for k in range(len(W.files)):
            _, gains[k], cflags[k] = W.make_cal(k)
        kw["calfile_rules"] = [(".uvh5", ".calfits")]
    if case["inp"]:
        for k in range(len(W.files)):
            _, masks[k] = W.make_inpaint(k)
        kw["where_inpainted_file_rules"] = [(".sum.uvh5", ".where_inpainted.h5")]
    data_files = [[f["path"] for f in W.files if f["night"] == n] for n in range(len(case["nights"]))]
    cfgr = quiet(config.LSTBinConfigurator, data_files=data_files, dlst=dlst, nlsts_per_file=case["per"], **kw)
    grid = np.asarray(cfgr.lst_grid)
    edges = np.concatenate([grid - cfgr.dlst / 2, [grid[-1] + cfgr.dlst / 2]])
    rows, tie = expect_rows(W, edges, skip=2e-6)
    if tie or not rows:
        return
    mf = quiet(cfgr.get_matched_files)
    cfg = quiet(cfgr.create_config, mf)
    arg = cfg
    if case["disk"]:
        arg = os.path.join(W.tmp, "cfg.h5")
        cfg.write(arg)
    fmin = W.freqs[1] - 1.0 if case["sel"] in ("min", "both") else None
    fmax = W.freqs[max(len(W.freqs) - 2, 1)] + 1.0 if case["sel"] in ("max", "both") else None
    chans = [k for k, x in enumerate(W.freqs) if (fmin is None or x >= fmin) and (fmax is None or x <= fmax)]
    modes = [True] * bool(case["inp"] if case["oinp"] is None else case["oinp"]) + [False] * case["oflag"]
    outdir = os.path.join(W.tmp, "out")
    lg = np.atleast_2d(cfg.lst_grid)
    select = [case["seed"] % len(lg)] if case["only"] else None
    call = dict(output_file_select=select, outdir=outdir, rephase=case["rephase"], bl_chunk_size=case["chunk"], freq_min=fmin, freq_max=fmax,
                output_inpainted=case["oinp"], output_flagged=case["oflag"], write_med_mad=case["med"], history="HIST",
                fname_format="zen.{kind}.{lst:9.7f}.{inpaint_mode}.uvh5")
    if not modes:
        try:
            quiet(wrappers.lst_bin_files, arg, **call)
        except ValueError:
            return
        have = [i for i in (select or range(len(lg))) if any(int(np.argmin(np.abs(grid - c))) in {b for _, _, b in rows} for c in lg[i][np.isfinite(lg[i])])]
        require(not have, "no output asked for, none refused")
        return
    res = quiet(wrappers.lst_bin_files, arg, **call)
    want = list(range(len(lg))) if select is None else select
    require(len(res) == len(want), f"{len(res)} outputs for {len(want)} files")
    allp = {tuple(sorted(p)) for f in W.files for p in f["pairs"]}
    nn = 0
    paths = set()
    for i, files in zip(want, res):
        cens = lg[i][np.isfinite(lg[i])]
        bins = [int(np.argmin(np.abs(grid - c))) for c in cens]
        if not any(b in bins for _, _, b in rows):
            require(files is None, f"output {i} has no integrations but files {files}")
            continue
        require(files is not None, f"output {i} was not written")
        kinds = ["LST", "STD"] + ["MED", "MAD"] * case["med"]
        require(set(files) == {(k, m) for k in kinds for m in modes}, f"output kinds {sorted(files)}")
        refs = {}
        for (kind, mode), path in files.items():
            require(path not in paths and os.path.dirname(os.path.realpath(path)) == os.path.realpath(outdir), f"output path {path}")
            paths.add(path)
            u = UVData()
            quiet(u.read, str(path))
            w = f"output {i} {kind} {'inpaint' if mode else 'flagged'}"
            close(u.freq_array, W.freqs[chans], f"{w}: frequencies")
            require("HIST" in u.history, f"{w}: history")
            num = {v: k for k, v in (POLNUM if case["xo"] == "east" else POLNUM_N).items()}
            pols = [num[int(p)] for p in u.polarization_array]
            require(sorted(pols) == sorted(W.pols), f"{w}: pols {pols}")
            pairs = [(int(a), int(b)) for a, b in u.get_antpairs()]
            if red:
                require(sorted(mem[p][0] for p in pairs) == sorted(mem[p][0] for p in allp), f"{w}: baselines {pairs}, inputs hold {sorted(allp)}")
            else:
                require(sorted(tuple(sorted(p)) for p in pairs) == sorted(allp), f"{w}: baselines {pairs}, inputs hold {sorted(allp)}")
            bvec = np.array([np.asarray(W.enu[int(b)]) - np.asarray(W.enu[int(a)]) for a, b in zip(u.ant_1_array, u.ant_2_array)])
            close(u.uvw_array, bvec, f"{w}: uvws", rtol=0, atol=0.05)
            for pair in pairs:
                rws = np.where((u.ant_1_array == pair[0]) & (u.ant_2_array == pair[1]))[0]
                rws = rws[np.argsort(u.time_array[rws])]
                require(len(rws) == len(cens), f"{w}: {len(rws)} times for {len(cens)} bins")
                require(np.allclose(np.exp(1j * u.lst_array[rws]), np.exp(1j * cens), atol=1e-7), f"{w}: LSTs {u.lst_array[rws]}, bins {cens}")
                for q, b in enumerate(bins):
                    key = (pair, b, mode)
                    if key not in refs:
                        refs[key] = stack_of(W, case, rows, b, pair, pols, chans, grid[b], gains, cflags, masks, mode, cal_factor, mem if red else None)
                    ref, cnt = refs[key]
                    nn = max(nn, cnt)
                    d, f, n = u.data_array[rws[q]], u.flag_array[rws[q]], u.nsample_array[rws[q]]
                    ww = f"{w} {pair} bin {b} ({cnt} integrations)"
                    same(f, ref["flags"][0], f"{ww}: flags")
                    close(n, ref["nsamples" if kind in ("LST", "MED") else "days_binned"][0], f"{ww}: nsamples", rtol=1e-5)
                    val = ref[dict(LST="data", STD="std", MED="median", MAD="mad")[kind]][0]
                    ok = np.isfinite(val) & ~ref["flags"][0]
                    close(d[ok], val[ok], f"{ww}: values", rtol=1e-3, atol=1e-3)
    if case["exists"] and paths:
        try:
            quiet(wrappers.lst_bin_files, arg, **call)
        except FileExistsError:
            pass
        else:
            require(False, "existing output overwritten without being asked")
        quiet(wrappers.lst_bin_files, arg, **dict(call, overwrite=True))
    ctx.label(f"modes={modes}", f"chunk={case['chunk']}", f"most={min(nn, 4)}", f"autos={case['autos']}", f"sel={case['sel']}")
    ctx.nontrivial(nn >= 2)


def stack_of(W, case, rows, b, pair, pols, chans, cen, gains, cflags, masks, mode, cal_factor, mem):
    want = pair
    here = [(k, t) for k, t, bb in rows if bb == b]
    sh = (len(here), 1, len(chans), len(pols))
    D, F, N = np.zeros(sh, dtype=complex), np.ones(sh, dtype=bool), np.zeros(sh)
    cnt = 0
    for r, (k, t) in enumerate(here):
        if mem is not None:     # the member of the group that this file holds
            for p in W.files[k]["pairs"]:
                if mem[p][0] == mem[want][0]:
                    pair = p if mem[p][1] == mem[want][1] or p[0] == p[1] else p[::-1]
        for j, pol in enumerate(pols):
            v = W.get(k, pair, pol)
            if v is None:
                continue
            d, f, n = (x[t][chans] for x in v)
            if k in gains:
                g, gf = cal_factor(gains, cflags, k, t, pair, pol, chans)
                d, f = d / g, f | gf
            if case["rephase"]:
                dd = (cen - W.files[k]["lsts"][t] + np.pi) % TWOPI - np.pi
                d = d * drift_phase(W.enu[pair[0]], W.enu[pair[1]], W.freqs[chans], dd, LAT)
            if k in masks:
                fl = W.files[k]
                st = pair if pair in fl["pairs"] else pair[::-1]
                m = masks[k][t, fl["pairs"].index(st)][:, W.pols.index(pol if st == pair else pol[::-1])][chans]
                f, n = f & ~m, np.where(m, -n, n)
            D[r, 0, :, j], F[r, 0, :, j], N[r, 0, :, j] = d, f, n
        cnt += 1
    if not here:
        sh = (1, len(chans), len(pols))
        return dict(flags=np.ones(sh, dtype=bool), nsamples=np.zeros(sh), days_binned=np.zeros(sh), data=np.full(sh, np.nan), std=np.full(sh, np.nan),
                    median=np.full(sh, np.nan), mad=np.full(sh, np.nan)), 0
    return reference(D, F, N, mode), cnt


# ---------------------------------------------------------------- averaging with in-painting
def gen_inp(draw):
    nn = ints(draw, 1, 5)
    return dict(nn=nn, nf=ints(draw, 40, 64), hw=pick(draw, [150e-9, 250e-9, 400e-9]), bands=pick(draw, ["all", "all", "two"]), spws=pick(draw, ["all", "all", "two"]),
                gaps=[[(ints(draw, 0, 63), ints(draw, 1, 3)) for _ in range(ints(draw, 0, 2))] for _ in range(nn)], allgap=pick(draw, [None, None, 1, 2, 25]),
                edge=ints(draw, 0, 3) == 0, whole=ints(draw, -1, 4), cov=flag(draw), unb=flag(draw), frac=pick(draw, [0.0, 0.5, 1.0]), seed=seed(draw), fac=pick(draw, [2.03, 2.03, 0.31, 50.0]),
                truth=pick(draw, ["same", "same", "scaled"]), stack=False)


def gen_inpstack(draw):
    c = gen_inp(draw)
    c.update(stack=True, nbl=ints(draw, 1, 3), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), neg=flag(draw), convfrac=pick(draw, [0.667, 0.667, 0.3, 1.0]), buf=pick(draw, [2, 2, 0, 5]), cut=pick(draw, [1e-5, 1e-5, 1e-8]))
    return c


def tones(rng, freqs, hw, n=3):
    tau = rng.uniform(-0.5, 0.5, size=n) * hw
    amp = cplx(rng, n)
    return (amp[:, None] * np.exp(2j * np.pi * tau[:, None] * (freqs - freqs.mean()))).sum(axis=0)


def make_stack(case, rng, freqs):
    nn, nf = case["nn"], case["nf"]
    f = np.zeros((nn, nf), dtype=bool)
    for k, gs in enumerate(case["gaps"][:nn]):
        for a, w in gs:
            f[k, a % nf:a % nf + w] = True
    if case["allgap"]:
        a = int(rng.integers(3, nf - 6))
        f[:, a:a + case["allgap"]] = True
    if case["edge"]:
        f[:, :2] = True
    if 0 <= case["whole"] < nn:
        f[case["whole"]] = True
    t = tones(rng, freqs, case["hw"])
    d = t * np.ones((nn, 1)) * (rng.uniform(0.5, 2.0, size=(nn, 1)) if case["truth"] == "scaled" else 1.0)
    n = rng.integers(1, 6, size=(nn, 1)).astype(float) * np.ones((nn, nf))
    return t, d, f, n


def mean_of(d, f, n, model, post):
    """sum over nights (not flagged throughout) of n (model if flagged else data), over sum of n"""
    num, den = np.zeros(d.shape[1], dtype=complex), np.zeros(d.shape[1])
    for k in range(len(d)):
        if not f[k].all():
            w = n[k] * (~post[k])
            num += w * np.where(f[k], model[k], d[k])
            den += w
    return num, den


def without_model(f, bands, cov):
    """flagged data that nothing replaces: outside the bands, or in a band without data on any night (without covariance: on that night)"""
    out = f.copy()
    for b in bands:
        for k in range(len(f)):
            if not (f[:, b].all() if cov else f[k, b].all()):
                out[k, b] = False
    return out


def longest(f):
    best = run = 0
    for x in f:
        run = run + 1 if x else 0
        best = max(best, run)
    return best


def check_inpaint(case, ctx):
    """In-painting averages: the weighted mean of data and model, the true spectrum where nights agree, blind to flagged values, cache-independent."""
    from hera_cal.lst_stack import averaging as avg
    rng = rng_of(case["seed"])
    nf, nn = case["nf"], case["nn"]
    freqs = 120e6 + 0.5e6 * np.arange(nf)
    bands = (slice(0, nf),) if case["bands"] == "all" else (slice(0, nf // 2), slice(nf // 2 + 1, nf))
    spws = (slice(0, nf),) if case["spws"] == "all" else (slice(0, nf // 3), slice(nf // 3, nf))
    t, d, f, n = make_stack(case, rng, freqs)
    noise = (0.01 * rng.uniform(0.5, 2, size=(nn, 1)) * np.ones((nn, nf)))
    hw = case["hw"]
    cache = {}

    def run(d, f, n, noise, c=None, cut=1e-5, fr=freqs, bd=bands):
        kw = dict(freqs=fr, stackd=d.copy(), stackf=f.copy(), stackn=n.copy(), base_noise_var=noise.copy(), df=0.5e6, filter_half_widths=[hw], filter_centers=[0.0],
                  inpaint_bands=bd, max_gap_factor=case["fac"], max_convolved_flag_frac=0.667, eigenval_cutoff=[cut], cache=c)
        if case["cov"]:
            return quiet(avg.average_and_inpaint_simultaneously_single_bl, use_unbiased_estimator=case["unb"], sample_cov_fraction=case["frac"], **kw)
        return quiet(avg.average_and_inpaint_per_night_single_bl, spws=spws, **kw)
    m, af, model, post = run(d, f, n, noise, cache)
    inband = np.zeros(nf, dtype=bool)
    for b in bands:
        inband[b] = True
    none = without_model(f, bands, case["cov"])
    p = none if post is None else np.asarray(post)
    require(m.shape == (nf,) and af.shape == (nf,) and model.shape == (nn, nf), "shapes")
    if not np.all(af):
        num, den = mean_of(d, f, n, model, p)
        ok = ~af & (den > 0)
        close(m[ok], num[ok] / den[ok], "mean of data and model", rtol=1e-8, atol=1e-10)
    if not case["cov"]:
        _, den = mean_of(d, f, n, model, p)
        same(af, den <= 0, "flags of the average are where nothing contributes")
        gap = case["fac"] / hw / 0.5e6
        require(np.all(p[none]), "data without a model enter the average")
        for s in spws:
            require(all((p | none)[k, s].all() or not (p & ~none)[k, s].any() for k in range(nn)), "flags after in-painting are uniform in each spectral window")
        for k in range(nn):
            if not f[k].any():
                require(not p[k].any(), "an unflagged night is flagged after in-painting")
    # the data pass through where no night is flagged
    clean = ~f.any(axis=0) & ~p.any(axis=0)
    if not f.all(axis=1).any():
        with np.errstate(all="ignore"):
            close(m[clean & ~af], ((d * n).sum(axis=0) / n.sum(axis=0))[clean & ~af], "unflagged channels are the plain average")
    # outside the bands there is only the flagged average
    out = ~inband & ~f.all(axis=0) & ~af
    num, den = mean_of(d, f, n, d, p | f)
    close(m[out], num[out] / den[out], "channels outside the bands are the flagged average", rtol=1e-8, atol=1e-10)
    require(np.all(af[f.all(axis=0) & ~inband]), "channels outside the bands without data are not flagged")
    if case["cov"] and len(bands) > 1 and all(not f[k, b].all() for k in range(nn) for b in bands):
        for b in bands:
            mb, ab, _, _ = run(d[:, b], f[:, b], n[:, b], noise[:, b], fr=freqs[b], bd=(slice(None),))
            same(ab, af[b], "flags of a band depend on another band")
            if nn == 1:        # with more nights, see below: rounding decides
                close(mb[~ab], m[b][~ab], "mean of a band depends on another band", rtol=1e-5, atol=1e-7)
    # the true spectrum is restored across short gaps
    easy = inband & ~af & np.array([True] * nf)
    short = all(longest(f[k, b]) * 0.5e6 <= 0.5 / hw and (~f[k, b]).sum() > 6 + 4 * hw * 0.5e6 * nf for k in range(nn) for b in bands if not f[k].all())
    edge = max([longest(f[k, b.start:b.start + 3]) + longest(f[k, b.stop - 3:b.stop]) for k in range(nn) for b in bands if not f[k].all()] or [0])
    if case["truth"] == "same" and short and not edge and not (case["cov"] and (case["unb"] or case["frac"])):      # without noise, the full covariance is rounding errors, the unbiased one not positive
        ok = easy & np.isfinite(m)
        close(m[ok], t[ok], "identical noiseless nights give back the spectrum", rtol=0, atol=2e-2 * np.abs(t).max())
        ctx.label("truth")
    # values under flags do not matter
    d2 = np.where(f, 1e3 * cplx(rng, d.shape), d)
    m2, af2, model2, _ = run(d2, f, n, noise)
    same(af2, af, "flags depend on flagged data")
    close(m2[~af], m[~af], "mean depends on flagged data", rtol=1e-6, atol=1e-8)
    # nor does the order of nights, nor what the cache was used for
    perm = rng.permutation(nn)
    m3, af3, model3, _ = run(d[perm], f[perm], n[perm], noise[perm], cache)
    same(af3, af, "flags depend on the order of nights")
    if not case["cov"]:      # the night-to-night covariance is singular by construction here: rounding decides its pseudo-inverse
        close(m3[~af], m[~af], "mean depends on the order of nights or on the cache", rtol=1e-5, atol=1e-6)
        m5, _, model5, _ = run(d, f, n, noise, cache, cut=1e-2)
        m6, _, model6, _ = run(d, f, n, noise, None, cut=1e-2)
        close(model5, model6, "models depend on what the cache was used for", rtol=1e-6, atol=1e-8)
        c = complex(rng.normal(), rng.normal())
        m4, _, _, _ = run(c * d, f, n, noise, cache)
        if short and not edge:
            close(m4[~af], c * m[~af], "mean does not scale with the data", rtol=1e-4, atol=1e-5)
    ctx.label(f"cov={case['cov']}", f"flagged={np.all(af)}", f"short={short}", f"post={bool(p.any())}")
    ctx.nontrivial(bool((f.any(axis=0) & ~f.all(axis=0)).any()) and not np.all(af))


def check_inpstack(case, ctx):
    """average_and_inpaint_simultaneously treats every baseline and polarization of a stack by itself, from the right data, flags and autos."""
    from hera_cal.lst_stack import averaging as avg
    from hera_cal.lst_stack.binning import LSTStack
    from ..uvsim import make_uvd
    rng = rng_of(case["seed"])
    nf, nn = case["nf"], case["nn"]
    freqs = 120e6 + 0.5e6 * np.arange(nf)
    enu = {0: (0.0, 0, 0), 1: (14.6, 0, 0), 2: (5.0, 25.0, 0)}
    pairs = [(0, 1), (2, 0), (1, 2)][:case["nbl"]]
    times = 2459500.3 + np.arange(nn) * 0.9973
    pols = case["pols"]

    def stack(prs, sd):
        u = quiet(make_uvd, enu, prs, pols, times, freqs, seed=sd, flag_frac=0.0, time_fast=False, nsamp=False)
        u.data_array = u.data_array.astype(complex)
        u.nsample_array = u.nsample_array.astype(float)
        u.integration_time[:] = 10.0
        u.channel_width[:] = 0.5e6
        return u
    u, a = stack(pairs, 1), stack([(0, 0), (1, 1)], 2)
    a.data_array[:] = np.repeat(rng.uniform(1, 5, size=nn), 2)[:, None, None]
    D, F, N, T = {}, {}, {}, {}
    for i, pr in enumerate(pairs):
        for j, pol in enumerate(pols):
            sub = dict(case, gaps=[g if rng.integers(3) else [] for g in case["gaps"]], whole=case["whole"] if rng.integers(2) else -1)
            t, d, f, n = make_stack(sub, rng, freqs)
            if rng.integers(8) == 0:
                f[:] = True
            elif rng.integers(8) == 0:
                f[:] = False
            v = np.where(f & (rng.random(f.shape) < 0.5), -n, n) if case["neg"] else n
            rows = np.arange(nn) * len(pairs) + i
            u.data_array[rows, :, j], u.flag_array[rows, :, j], u.nsample_array[rows, :, j] = d, f & (v > 0), v
            D[i, j], F[i, j], N[i, j], T[i, j] = d, f, n, t
    st, ast = LSTStack(u), LSTStack(a)
    keep = [u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()]
    bands = (slice(0, None),) if case["bands"] == "all" else (slice(0, nf // 2), slice(nf // 2 + 1, nf))
    spws = (slice(0, None),) if case["spws"] == "all" else (slice(0, nf // 3), slice(nf // 3, None))
    opt = dict(inpaint_bands=bands, eigenval_cutoff=[case["cut"]], max_gap_factor=case["fac"], max_convolved_flag_frac=case["convfrac"])
    night = dict(spws=spws, post_inpaint_flag_buffer_size=case["buf"])
    covo = dict(use_unbiased_estimator=case["unb"], sample_cov_fraction=case["frac"])
    kw = dict(use_night_to_night_cov=case["cov"], filter_properties=dict(min_dly=case["hw"] * 1e9, standoff=0.0, horizon=1.0), round_filter_half_width=False, **opt, **night, **covo)
    lst, models, pf = quiet(avg.average_and_inpaint_simultaneously, st, ast, **kw)
    for x, y, w in zip(keep, (u.data_array, u.flag_array, u.nsample_array), ("data", "flags", "nsamples")):
        same(y, x, f"caller's stack {w}")
    nn_ = 0
    for i, pr in enumerate(pairs):
        for j, pol in enumerate(pols):
            d, f, n = D[i, j], F[i, j], N[i, j]
            w = f"{pr}{pol}"
            got, gf = lst["data"][i, :, j], lst["flags"][i, :, j]
            close(lst["nsamples"][i, :, j], np.where(f, 0, n).sum(axis=0), f"{w}: nsamples count only real samples")
            close(lst["days_binned"][i, :, j], (~f).sum(axis=0), f"{w}: days")
            require(np.all(np.isnan(got[gf])), f"{w}: flagged average is not nan")
            if f.all():
                require(gf.all(), f"{w}: everything is flagged, the average is not")
                continue
            if not f.any():
                require(not gf.any(), f"{w}: nothing is flagged, the average is")
                close(got, (d * n).sum(axis=0) / n.sum(axis=0), f"{w}: plain average")
                continue
            post = without_model(f, bands, True) if case["cov"] else pf.flags[:, i, :, j]
            require((pr[0], pr[1], pol) in models, f"{w}: no model")
            # the same from this baseline's data alone
            auto = a.data_array[::2, :, 0].real ** 2 / (10.0 * 0.5e6) * np.ones((nn, nf))
            one = avg.average_and_inpaint_simultaneously_single_bl if case["cov"] else avg.average_and_inpaint_per_night_single_bl
            bl_len = np.linalg.norm(np.subtract(enu[pr[0]], enu[pr[1]])) / 299792458.0
            hws = max(case["hw"], max(bl_len, 7.0 / 299792458.0))
            m1, a1, mod1, p1 = quiet(one, freqs=freqs, stackd=d.copy(), stackf=f.copy(), stackn=n.copy(), base_noise_var=auto, df=0.5e6, filter_half_widths=[hws], filter_centers=[0.0],
                                     **opt, **(covo if case["cov"] else night))
            same(gf, a1, f"{w}: flags differ from those of this baseline alone")
            inner = ~f[:, :3].any() and ~f[:, -3:].any() and all(longest(f[k]) * 0.5e6 <= 0.5 / hws for k in range(nn) if not f[k].all())
            if not case["cov"]:
                same(post, p1, f"{w}: flags after in-painting differ from those of this baseline alone")
                use = ~gf if inner and case["bands"] == "all" else ~gf & ~f.any(axis=0)         # long gaps and edges: ill-conditioned
                close(got[use], m1[use], f"{w}: mean differs from that of this baseline alone", rtol=1e-4, atol=1e-5)
            elif inner and case["bands"] == "all" and case["frac"] == 0 and not case["unb"]:
                close(got[~gf], m1[~gf], f"{w}: mean differs from that of this baseline alone", rtol=1e-3, atol=1e-4)
            num, den = mean_of(d, f, n, models[pr[0], pr[1], pol], post)
            ok = ~gf & (den > 0)
            close(got[ok], num[ok] / den[ok], f"{w}: mean of data and model", rtol=1e-8, atol=1e-10)
            for b in bands:         # a band with fewer channels of data than unknowns makes the covariance method's equations singular
                if not case["cov"] or (~f[:, b]).sum(axis=1).max() > 6 + 4 * hws * 0.5e6 * nf:
                    require(np.all(np.isfinite(got[b][~gf[b]])), f"{w}: unflagged average not finite")
            short = all(longest(f[k]) * 0.5e6 <= 0.5 / case["hw"] and (~f[k]).sum() > 6 + 4 * case["hw"] * 0.5e6 * nf for k in range(nn) if not f[k].all())
            if case["truth"] == "same" and case["bands"] == "all" and not (case["cov"] and (case["unb"] or case["frac"])) and short and not f[:, :3].any() and not f[:, -3:].any():
                close(got[~gf], T[i, j][~gf], f"{w}: identical noiseless nights give back the spectrum", rtol=0, atol=2e-2 * np.abs(T[i, j]).max())
            nn_ += 1
    ctx.label(f"cov={case['cov']}", f"npol={len(pols)}", f"inpainted={nn_ > 0}")
    ctx.nontrivial(nn_ > 0)


def gen_spw(draw):
    nf = ints(draw, 1, 40)
    nn = ints(draw, 1, 3)

    def cuts(k):
        c = sorted({ints(draw, 0, nf) for _ in range(k)})
        return [(lo, hi) for lo, hi in zip(c[:-1], c[1:])] or [(0, nf)]
    return dict(nf=nf, nn=nn, runs=[[(ints(draw, 0, nf), ints(draw, 1, 12)) for _ in range(ints(draw, 0, 4))] for _ in range(nn)], spws=cuts(ints(draw, 1, 5)),
                bands=cuts(ints(draw, 1, 4)), buf=ints(draw, 0, 4), gap=pick(draw, [0, 1, 2, 3.5, 6, 11, np.inf]), opened=flag(draw))


def check_spw(case, ctx):
    """Gaps longer than allowed flag, on their night, the spectral windows they reach into - all of each, and no others."""
    from hera_cal.lst_stack.averaging import broadcast_flags_over_spws
    nf, nn = case["nf"], case["nn"]
    f = np.zeros((nn, nf), dtype=bool)
    for k, rs in enumerate(case["runs"]):
        for a, w in rs:
            f[k, a:a + w] = True

    def sl(lo, hi):
        if case["opened"]:
            return slice(None if lo == 0 else lo, None if hi == nf else hi)
        return slice(lo, hi)
    keep = f.copy()
    got = broadcast_flags_over_spws(f, case["gap"], spws=[sl(*s) for s in case["spws"]], inpaint_bands=[sl(*b) for b in case["bands"]], buffer_size=case["buf"])
    same(f, keep, "caller's flags")
    count = np.zeros(nf, dtype=bool)
    for lo, hi in case["bands"]:
        count[lo:hi] = True
    want = np.zeros_like(f)
    for k in range(nn):
        c = 0
        while c < nf:
            e = c
            while e < nf and f[k, e] and count[e]:
                e += 1
            if e - c > case["gap"]:
                for lo, hi in case["spws"]:
                    if c < hi - case["buf"] and e > lo + case["buf"]:
                        want[k, lo:hi] = True
            c = max(e, c + 1)
    same(got, want, "spectral windows flagged by long gaps")
    require(got.dtype == bool, "dtype")
    ctx.label(f"flagged={bool(want.any())}", f"open={case['opened']}")
    ctx.nontrivial(bool(want.any()) and not want.all())


SUBS = [Sub("spws", gen_spw, check_spw, quick=400), Sub("reduce", gen_reduce, check_reduce, quick=400), Sub("outfiles", gen_out, check_out, quick=40, shards=8),
        Sub("inpaint", gen_inp, check_inpaint, quick=240), Sub("inpstack", gen_inpstack, check_inpstack, quick=80)]
