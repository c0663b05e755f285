"""C27: file-to-file tools write exactly the selected, combined or flagged contents of their inputs."""
import os
import runpy
import sys

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..uvsim import POLNUM, POLNUM_N, freqs_of, make_cal, make_telescope, times_of
from .c12 import File, gen_file, quiet

RULE = ("Small uvh5 and calfits files (any antenna numbers, baseline orientations, polarization and blt orders, feed orientation) through each tool and script, the output read back with pyuvdata alone and compared "
        "sample by sample with what the inputs were made from. Non-trivial: more than one baseline and the tool drops, joins or changes something.")
ASSUMPTIONS = ["every baseline has every time (no baseline-dependent averaging)", "files of one chunk have the same baselines, polarizations and channels",
               "extract_hh is given integer (correlator) data", "gains are judged to single precision"]
REPO = os.environ.get("VERIF_REPO", "/repo")


def contents(path):
    """{(i, j, pol): (times, data, flags, nsamples)} by pyuvdata alone, time-sorted; and the frequencies."""
    from pyuvdata import UVData
    u = UVData()
    quiet(u.read, path)
    x = u.telescope.get_x_orientation_from_feeds()
    names = {v: k for k, v in (POLNUM if x == "east" else POLNUM_N).items()}
    out = {}
    for i, j in sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))):
        rows = np.where((u.ant_1_array == i) & (u.ant_2_array == j))[0]
        rows = rows[np.argsort(u.time_array[rows], kind="stable")]
        for k, p in enumerate(u.polarization_array):
            out[(i, j, names[int(p)])] = (u.time_array[rows],) + tuple(np.array(a[rows][:, :, k]) for a in (u.data_array, u.flag_array, u.nsample_array))
    return out, np.array(u.freq_array), u


def lookup(c, k):
    if k in c:
        return c[k]
    r = (k[1], k[0], k[2][::-1])
    require(r in c, f"baseline {k} is missing from the output, which holds {sorted(c)}")
    t, d, f, n = c[r]
    return t, np.conj(d), f, n


def compare(path, F, what, keys=None, ts=None, fs=None, data=None, flags=None, ns=None, rtol=0, exact=True):
    """The file holds exactly `keys` (default all) of File F at times ts and channels fs. data/flags/ns: functions of (key, true value)."""
    c, freqs, u = contents(path)
    keys = sorted(F.truth) if keys is None else keys
    ts = np.arange(len(F.times)) if ts is None else np.asarray(ts)
    fs = np.arange(len(F.freqs)) if fs is None else np.asarray(fs)
    same(freqs, F.freqs[fs], f"{what}: frequencies")
    if exact:
        require(len(c) == len(keys), f"{what}: {sorted(c)} in the file, expected {sorted(keys)}")
    for k in keys:
        t, d, f, n = lookup(c, k)
        same(t, F.times[ts], f"{what}: times of {k}")
        D, FL, N = (x[ts][:, fs] for x in F.truth[k])
        if data is not None:
            D = data(k, D)
        if flags is not None:
            FL = flags(k, FL)
        if ns is not None:
            N = ns(k, N)
        if rtol:
            close(d, D, f"{what}: data of {k}", rtol=rtol, atol=rtol)
        else:
            same(d, D.astype(d.dtype), f"{what}: data of {k}")
        same(f, FL, f"{what}: flags of {k}")
        same(n, N.astype(n.dtype), f"{what}: nsamples of {k}")
    return u


def world_cal(F, tmp, rng, name="c", times=None, ants=None, p=0.2, pols=("Jee", "Jnn"), zero=False, jitter=0.0):
    """Gains for the antennas of F at times (default: all of them); returns path, gains, flags."""
    times = F.times if times is None else times
    ants = list(F.f["nums"]) if ants is None else ants
    sh = (len(times), len(F.freqs))
    g = {(a, q): ((rng.normal(size=sh) + 1j * rng.normal(size=sh)) * 0.3 + 1).astype(np.complex64).astype(complex) for a in ants for q in pols}
    f = {k: rng.random(sh) < p for k in g}
    if zero:
        for k in g:
            g[k][f[k]] = 0
    tel = make_telescope(F.enu, F.f["orient"])
    c = quiet(make_cal, ants, g, f, times, F.freqs, tel, pols=list(pols), orient=F.f["orient"])
    path = os.path.join(tmp, name + ".calfits")
    quiet(c.write_calfits, path, clobber=True)
    return path, g, f


def read_cal(path):
    from pyuvdata import UVCal
    u = UVCal()
    quiet(u.read_calfits, path)
    x = u.telescope.get_x_orientation_from_feeds()
    names = {-5: "Jee", -6: "Jnn"} if x == "east" else {-5: "Jnn", -6: "Jee"}
    out = {}
    for k, a in enumerate(u.ant_array):
        for m, p in enumerate(u.jones_array):
            out[(int(a), names[int(p)])] = (u.gain_array[k, :, :, m].T, u.flag_array[k, :, :, m].T)
    return out, np.array(u.time_array), np.array(u.freq_array)


def script(name, *args):
    """Run a command-line script of the repository in this process."""
    old = sys.argv
    sys.argv = [name] + [str(a) for a in args]
    try:
        quiet(runpy.run_path, os.path.join(REPO, "scripts", name), run_name="__main__")
    except SystemExit as e:
        require(not e.code, f"{name} {' '.join(map(str, args))} exited with {e.code}")
    finally:
        sys.argv = old


def ends(k):
    return (k[0], "J" + k[2][0] * 2), (k[1], "J" + k[2][1] * 2)


# ---------------------------------------------------------------- autocorrelations
def gen_autos(draw):
    f = gen_file(draw)
    f["pairs"] = f["pairs"] + [[a, a] for a in f["nums"] if [a, a] not in f["pairs"] and flag(draw)]
    if not any(a == b for a, b in f["pairs"]):
        f["pairs"].append([f["nums"][0]] * 2)
    return dict(file=f, cal=pick(draw, ["none", "all", "some", "two"]), conv=pick(draw, ["divide", "multiply"]), what=pick(draw, ["autos", "noise"]), seed=seed(draw))


def check_autos(case, ctx):
    T = ctx.tmp()
    from hera_cal import autos, noise
    rng = rng_of(case["seed"])
    F = File(case["file"], T)
    if case["what"] == "noise" and (F.f["nt"] < 2 or F.f["nf"] < 2):
        return
    out = os.path.join(T, "out.uvh5")
    keys = [k for k in sorted(F.truth) if k[0] == k[1] and k[2][0] == k[2][1]]
    kw, g, gf = {}, None, None
    if case["cal"] != "none":
        two = case["cal"] == "two" and F.f["nt"] > 1
        cuts = np.array_split(np.arange(F.f["nt"]), 2 if two else 1)
        ants = F.f["nums"] if case["cal"] != "some" else F.f["nums"][:1]
        paths, g, gf = [], None, None
        for m, c in enumerate(cuts):
            p, g1, f1 = world_cal(F, T, rng, f"c{m}", times=F.times[c], ants=list(ants))
            paths.append(p)
            g = g1 if g is None else {k: np.vstack([g[k], g1[k]]) for k in g}
            gf = f1 if gf is None else {k: np.vstack([gf[k], f1[k]]) for k in gf}
        kw = dict(calfile=paths if two else paths[0], gain_convention=case["conv"])
    fn = autos.read_and_write_autocorrelations if case["what"] == "autos" else noise.write_per_antenna_noise_std_from_autos
    quiet(fn, F.paths[0], out, add_to_history="hello there", **kw)

    def D(k, d):
        if g is not None and ends(k)[0] in g:
            fac = np.abs(g[ends(k)[0]]) ** 2
            d = d / fac if case["conv"] == "divide" else d * fac
        if case["what"] == "noise":
            dt = np.median(np.diff(F.times)) * 86400
            d = np.abs(d) / np.sqrt(dt * np.median(np.diff(F.freqs)))
        return d

    def FL(k, f):
        if g is None:
            return f
        return f | gf[ends(k)[0]] if ends(k)[0] in g else np.ones_like(f)
    u = compare(out, F, f"{case['what']} ({case['cal']})", keys, data=D, flags=FL, rtol=1e-4)
    require("hello there" in u.history, "history")
    with expect_raises((OSError, ValueError, IOError), "writing over an existing file"):
        quiet(fn, F.paths[0], out, **kw)
    quiet(fn, F.paths[0], out, clobber=True, **kw)
    ctx.label(case["what"], case["cal"])
    ctx.nontrivial(len(keys) < len(F.truth))


# ---------------------------------------------------------------- chunks of files
def gen_chunk(draw):
    return dict(file=gen_file(draw, ntmin=2, ntmax=6), nfiles=pick(draw, [2, 1, 3, 4]), kind=pick(draw, ["data", "gains"]), start=ints(draw, 0, 3), size=pick(draw, [2, 1, 3, 4]), pols=flag(draw), spw=flag(draw), a=ints(draw, 0, 3), b=ints(draw, 1, 4),
                shuffle=flag(draw), seed=seed(draw))


def check_chunk(case, ctx):
    T = ctx.tmp()
    from hera_cal import chunker
    rng = rng_of(case["seed"])
    F = File(case["file"], T, nfiles=case["nfiles"])
    n = len(F.paths)
    start = case["start"] % n
    paths = list(F.paths)
    gains = {}
    jp = ["Jee", "Jnn"]
    if case["kind"] == "gains":
        paths = []
        for m, sl in enumerate(F.slices):
            p, g, f = world_cal(F, T, rng, f"g{m}", times=F.times[sl])
            paths.append(p)
            gains[m] = (g, f)
    given = list(paths)
    if case["shuffle"]:
        rng.shuffle(given)
    use = list(range(start, min(start + case["size"], n)))
    ts = np.concatenate([F.slices[m] for m in use])
    kw = {}
    fs = np.arange(F.f["nf"])
    if case["spw"] and F.f["nf"] > 1:
        a = case["a"] % F.f["nf"]
        b = min(a + case["b"], F.f["nf"])
        kw["spw_range"] = (a, b)
        fs = np.arange(a, b)
    if case["pols"]:
        kw["polarizations"] = F.pols[:1] if case["kind"] == "data" else ["ee"]
    out = os.path.join(T, "out.uvh5" if case["kind"] == "data" else "out.calfits")
    quiet(chunker.chunk_files, given, paths[start], out, case["size"], type=case["kind"], **kw)
    if case["kind"] == "data":
        keys = [k for k in sorted(F.truth) if not case["pols"] or k[2] == F.pols[0]]
        compare(out, F, f"chunk of {use}", keys, ts=ts, fs=fs)
    else:
        got, t, fr = read_cal(out)
        same(t, F.times[ts], "times of the chunk")
        same(fr, F.freqs[fs], "frequencies of the chunk")
        want = [(a, p) for a in F.f["nums"] for p in (["Jee"] if case["pols"] else jp)]
        require(set(got) == set(want), f"antennas {sorted(got)}")
        for k in want:
            close(got[k][0], np.vstack([gains[m][0][k] for m in use])[:, fs], f"gains of {k}", rtol=1e-6, atol=1e-6)
            same(got[k][1], np.vstack([gains[m][1][k] for m in use])[:, fs], f"flags of {k}")
    with expect_raises((OSError, ValueError), "writing over an existing file"):
        quiet(chunker.chunk_files, given, paths[start], out, case["size"], type=case["kind"], **kw)
    with expect_raises((ValueError,), "an unknown type"):
        quiet(chunker.chunk_files, given, paths[start], out + "2", case["size"], type="flags")
    ctx.label(case["kind"], f"files={len(use)}", f"spw={'spw_range' in kw}")
    ctx.nontrivial(len(use) > 1 or len(fs) < F.f["nf"])


# ---------------------------------------------------------------- products of gains
def gen_comb(draw):
    return dict(file=gen_file(draw), n=pick(draw, [2, 1, 3]), broadcast=flag(draw), zero=flag(draw), p=pick(draw, [0.0, 0.3]), perm=flag(draw), seed=seed(draw))


def check_comb(case, ctx):
    T = ctx.tmp()
    from hera_cal import utils
    rng = rng_of(case["seed"])
    F = File(case["file"], T)
    sets = []
    for m in range(case["n"]):
        ants = list(F.f["nums"])
        pols = ["Jee", "Jnn"]
        if case["perm"] and m > 0:
            rng.shuffle(ants)
            ants = [int(a) for a in ants]
            pols = pols[::-1]
        sets.append(world_cal(F, T, rng, f"m{m}", ants=ants, pols=pols, p=case["p"], zero=case["zero"]))
    quiet(utils.combine_calfits, [s[0] for s in sets], "prod.calfits", outdir=T, broadcast_flags=case["broadcast"], verbose=False)
    out = os.path.join(T, "prod.calfits")
    got, t, fr = read_cal(out)
    require(set(got) == set(sets[0][1]), "antennas of the product")
    for k in got:
        fl = [s[2][k] for s in sets]
        f = np.any(fl, axis=0) if case["broadcast"] else np.all(fl, axis=0)
        same(got[k][1], f, f"flags of the product of {k} (broadcast={case['broadcast']})")
        exp = np.prod([np.where(s[2][k], 1.0, s[1][k]) for s in sets], axis=0)
        close(got[k][0], exp, f"product of the gains of {k}", rtol=1e-5, atol=1e-6)
    with expect_raises((OSError,), "writing over an existing file"):
        quiet(utils.combine_calfits, [s[0] for s in sets], "prod.calfits", outdir=T, verbose=False)
    ctx.label(f"n={case['n']}", f"perm={case['perm']}", f"zero={case['zero']}")
    ctx.nontrivial(case["n"] > 1)


# ---------------------------------------------------------------- dropping flagged antennas
def gen_throw(draw):
    return dict(file=gen_file(draw), bad=ints(draw, 0, 3), full=flag(draw), nfull=ints(draw, 0, 3), yaml=flag(draw), seed=seed(draw))


def check_throw(case, ctx):
    T = ctx.tmp()
    from hera_cal import io
    rng = rng_of(case["seed"])
    F = File(case["file"], T)
    u = F.uvd
    full = set()
    prs = list(F.antpairs)
    for m in range(case["nfull"]):
        p = prs[int(rng.integers(len(prs)))]
        rows = (u.ant_1_array == p[0]) & (u.ant_2_array == p[1])
        u.flag_array[rows] = True
        full.add(p)
    full |= {p for p in prs if u.flag_array[(u.ant_1_array == p[0]) & (u.ant_2_array == p[1])].all()}
    from ..uvsim import truth
    F.truth = truth(u, F.pols)
    quiet(u.write_uvh5, F.paths[0], clobber=True)
    kw = {}
    bad = set()
    if case["yaml"]:
        bad = {F.f["nums"][int(rng.integers(len(F.f["nums"])))] for _ in range(case["bad"])}
        y = os.path.join(T, "a.yaml")
        with open(y, "w") as h:
            h.write("ex_ants: [" + ", ".join(str(b) for b in sorted(bad)) + "]\nfreq_flags: []\nJD_flags: []\nLST_flags: []\n")
        kw["yaml_file"] = y
    keep = [p for p in prs if not (set(p) & bad) and not (case["full"] and p in full)]
    if not keep:
        return
    out = os.path.join(T, "out.uvh5")
    quiet(io.throw_away_flagged_ants, F.paths[0], out, throw_away_fully_flagged_data_baselines=case["full"], **kw)
    compare(out, F, f"without {bad} and fully flagged {full if case['full'] else ''}", [k for k in sorted(F.truth) if k[:2] in keep])
    with expect_raises((OSError, ValueError), "writing over an existing file"):
        quiet(io.throw_away_flagged_ants, F.paths[0], out, throw_away_fully_flagged_data_baselines=case["full"], **kw)
    ctx.label(f"bad={len(bad)}", f"full={case['full'] and len(full)}")
    ctx.nontrivial(len(keep) < len(prs))


# ---------------------------------------------------------------- from baseline chunks to time chunks
def gen_corner(draw):
    return dict(file=gen_file(draw, ntmin=2, ntmax=8), ntf=pick(draw, [2, 1, 3, 2]), nblf=pick(draw, [2, 1, 3, 3]), mode=pick(draw, ["exact", "bounds"]), jit=flag(draw), sub=flag(draw), drop=flag(draw), seed=seed(draw))


def check_corner(case, ctx):
    T = ctx.tmp()
    from hera_cal import vis_clean
    rng = rng_of(case["seed"])
    F = File(case["file"], T, nfiles=case["ntf"])
    if min(len(s) for s in F.slices) < 2 and case["mode"] == "bounds":
        return
    # baseline chunks hold other (filtered) data for all times
    G = File(dict(case["file"], seed=case["seed"] % 2**31), T, name="z")
    u = G.uvd
    u.telescope = F.uvd.telescope
    quiet(u.set_uvws_from_antenna_positions)
    fs = np.arange(F.f["nf"])
    pols = list(F.pols)
    if case["sub"]:
        if F.f["nf"] > 1:
            fs = fs[1:]
        pols = pols[:1] if len(pols) > 1 else pols
    prs = list(F.antpairs)
    rng.shuffle(prs)
    prs = [tuple(int(x) for x in p) for p in prs]
    parts = [p for p in np.array_split(np.arange(len(prs)), case["nblf"]) if len(p)]
    if case["drop"] and len(parts) > 1:
        parts = parts[:-1]
    have = [prs[m] for p in parts for m in p]
    files = []
    for m, p in enumerate(parts):
        v = quiet(u.select, bls=[prs[k] for k in p], freq_chans=fs, polarizations=[(POLNUM if F.f["orient"] == "east" else POLNUM_N)[q] for q in pols], inplace=False)
        files.append(os.path.join(T, f"bl{m}.uvh5"))
        quiet(v.write_uvh5, files[-1], clobber=True)
    seen = []
    for m, sl in enumerate(F.slices):
        out = os.path.join(T, f"out{m}.uvh5")
        quiet(vis_clean.time_chunk_from_baseline_chunks, F.paths[m], files, out, time_bounds=case["mode"] == "bounds")
        keys = [k for k in sorted(F.truth) if k[2] in pols]
        if case["mode"] == "bounds":
            keys = [k for k in keys if k[:2] in have]
            compare(out, G, f"time chunk {m}", keys, ts=sl, fs=fs)
        else:
            inn = {k for k in keys if k[:2] in have}
            compare(out, G, f"time chunk {m}", keys, ts=sl, fs=fs, data=lambda k, d: d if k in inn else 0 * d, flags=lambda k, f: f if k in inn else f | True,
                    ns=lambda k, n: n if k in inn else 0 * n)
        seen += list(sl)
        with expect_raises((OSError, ValueError), "writing over an existing file"):
            quiet(vis_clean.time_chunk_from_baseline_chunks, F.paths[m], files, out, time_bounds=case["mode"] == "bounds")
    ctx.label(case["mode"], f"files={len(F.slices)}x{len(parts)}", f"sub={case['sub']}")
    ctx.nontrivial(len(F.slices) > 1 and len(parts) > 1)


# ---------------------------------------------------------------- channels
def gen_spw(draw):
    return dict(file=gen_file(draw, nfmax=9), cuts=[ints(draw, 0, 9) for _ in range(4)], two=flag(draw), none=ints(draw, 0, 5) == 0, cli=flag(draw), tilde=flag(draw), seed=seed(draw))


def check_spw(case, ctx):
    T = ctx.tmp()
    from hera_cal import utils
    F = File(case["file"], T)
    nf = F.f["nf"]
    c = sorted({min(x, nf) for x in case["cuts"]})
    if len(c) < 2:
        c = [0, nf]
    rng = [(c[0], c[1])] + ([(c[2], c[3])] if case["two"] and len(c) > 3 else [])
    if case["none"]:
        rng = None
    fs = np.arange(nf) if rng is None else np.concatenate([np.arange(a, b) for a, b in rng])
    if len(fs) == 0 or (len(fs) > 1 and len(set(np.diff(fs))) > 1 and False):
        return
    out = os.path.join(T, "out.uvh5")
    if case["cli"]:
        sep = "~" if case["tilde"] else " "
        args = [F.paths[0], out] + ([] if rng is None else ["--spw_ranges", ",".join(f"{a}{sep}{b}" for a, b in rng)])
        script("select_spw_ranges.py", *args)
    else:
        quiet(utils.select_spw_ranges, F.paths[0], out, spw_ranges=rng)
    compare(out, F, f"channels {rng}", fs=fs)
    with expect_raises((OSError, ValueError), "writing over an existing file"):
        quiet(utils.select_spw_ranges, F.paths[0], out, spw_ranges=rng)
    quiet(utils.select_spw_ranges, F.paths[0], out, spw_ranges=rng, clobber=True)
    ctx.label(f"ranges={0 if rng is None else len(rng)}", f"cli={case['cli']}")
    ctx.nontrivial(len(fs) < nf and len(F.antpairs) > 1)


# ---------------------------------------------------------------- flags from file to file
def gen_flags(draw):
    return dict(file=gen_file(draw), which=pick(draw, ["all", "transfer", "transfer"]), zd=flag(draw), zn=flag(draw), keep=flag(draw), order=pick(draw, ["same", "blt", "conj", "pol"]), seed=seed(draw))


def check_flags(case, ctx):
    T = ctx.tmp()
    rng = rng_of(case["seed"])
    F = File(case["file"], T)
    out = os.path.join(T, "out.uvh5")
    if case["which"] == "all":
        script("flag_all.py", F.paths[0], out, *(["--fill_data_with_zeros"] if case["zd"] else []), *(["--fill_nsamples_with_zeros"] if case["zn"] else []))
        compare(out, F, "flag_all", data=lambda k, d: 0 * d if case["zd"] else d, ns=lambda k, n: 0 * n if case["zn"] else n, flags=lambda k, f: f | True)
    else:
        G = File(dict(case["file"], seed=case["seed"] % 2**31), T, name="z")
        u = G.uvd
        u.telescope = F.uvd.telescope
        quiet(u.set_uvws_from_antenna_positions)
        if case["order"] == "blt":
            quiet(u.reorder_blts, "baseline" if not F.f["fast"] else "time")
        elif case["order"] == "conj":
            quiet(u.conjugate_bls, "ant2<ant1")
        elif case["order"] == "pol":
            quiet(u.reorder_pols, order=np.arange(len(F.pols))[::-1])
        quiet(u.write_uvh5, G.paths[0], clobber=True)
        script("transfer_flags.py", G.paths[0], F.paths[0], out, *(["--keep_old_flags"] if case["keep"] else []))
        compare(out, F, f"transfer_flags with the origin's {case['order']} order", flags=lambda k, f: (f | G.truth[k][1]) if case["keep"] else G.truth[k][1])
    ctx.label(case["which"], case["order"])
    ctx.nontrivial(len(F.truth) > 1)


# ---------------------------------------------------------------- subselect, extract_hh
def gen_select(draw):
    return dict(file=gen_file(draw, ntmin=1, ntmax=5), by=subset(draw, ["freq", "spw", "tidx", "time", "lst", "pol"], 0, 3), bl=pick(draw, ["none", "none", "ants", "cal", "bls", "autos", "cross", "len", "ew"]), a=ints(draw, 0, 9), b=ints(draw, 0, 9),
                hours=flag(draw), lo=flag(draw), hi=flag(draw), seed=seed(draw))


def check_select(case, ctx):
    T = ctx.tmp()
    rng = rng_of(case["seed"])
    F = File(case["file"], T)
    nt, nf = F.f["nt"], F.f["nf"]
    out = os.path.join(T, "out.uvh5")
    args = []
    ts, fs, keys = np.arange(nt), np.arange(nf), sorted(F.truth)

    def span(n):
        x, y = sorted((case["a"] % n, case["b"] % n))
        return x, y
    lo, hi = case["lo"], case["hi"] or not case["lo"]
    by = list(case["by"])
    if "freq" in by and "spw" in by:
        by.remove("spw")
    for what in by:
        if what == "freq":
            x, y = span(nf)
            if lo:
                args += ["--freq-min", repr(float(F.freqs[x] - 1e4))]
                fs = fs[fs >= x]
            if hi:
                args += ["--freq-max", repr(float(F.freqs[y] + 1e4))]
                fs = fs[fs <= y]
        elif what == "spw":
            x, y = span(nf)
            args += ["--freq-spws", f"{x}~{y + 1}"]
            fs = fs[(fs >= x) & (fs <= y)]
        elif what == "tidx":
            x, y = span(nt)
            args += ["--time-idxs", f"{x}~{y + 1}"]
            ts = ts[(ts >= x) & (ts <= y)]
        elif what == "time":
            x, y = span(nt)
            if lo:
                args += ["--time-min", repr(float(F.times[x] - 1e-5))]
                ts = ts[ts >= x]
            if hi:
                args += ["--time-max", repr(float(F.times[y] + 1e-5))]
                ts = ts[ts <= y]
        elif what == "lst":
            x, y = span(nt)
            L = F.lsts()
            if np.any(np.diff(L) < 0):
                return
            u = 12 / np.pi if case["hours"] else 1.0
            if lo:
                args += ["--lst-min", repr(float((L[x] - 1e-4) * u))]
                ts = ts[ts >= x]
            if hi:
                args += ["--lst-max", repr(float((L[y] + 1e-4) * u))]
                ts = ts[ts <= y]
            if case["hours"]:
                args += ["--lst-in-hours"]
        elif what == "pol":
            ps = F.pols[:1 + case["a"] % len(F.pols)]
            args += ["--pols", ",".join(ps)]
            keys = [k for k in keys if k[2] in ps]
    nums = F.f["nums"]
    pos = {a: F.enu[a] for a in nums}
    bl = case["bl"]
    if bl == "ants":
        x, y = span(len(nums))
        args += ["--antennas", f"{nums[x]}~{nums[y] + 1}"]
        keys = [k for k in keys if nums[x] <= k[0] <= nums[y] and nums[x] <= k[1] <= nums[y]]
    elif bl == "cal":
        bad = nums[case["a"] % len(nums)]
        path, g, f = world_cal(F, T, rng, p=0.3)
        for q in ("Jee", "Jnn"):
            f[(bad, q)][:] = True
        for k in f:
            if k[0] != bad:
                f[k][:1, :1] = False
        tel = make_telescope(F.enu, F.f["orient"])
        quiet(quiet(make_cal, list(nums), g, f, F.times, F.freqs, tel, orient=F.f["orient"]).write_calfits, path, clobber=True)
        args += ["--calfile", path]
        keys = [k for k in keys if bad not in k[:2]]
    elif bl == "bls":
        sel = [p for p in F.antpairs if rng.random() < 0.5] or F.antpairs[:1]
        args += ["--bls", ",".join(f"{i}:{j}" for i, j in sel)]
        keys = [k for k in keys if k[:2] in sel]
    elif bl == "autos":
        args += ["--only-autos"]
        keys = [k for k in keys if k[0] == k[1]]
    elif bl == "cross":
        args += ["--only-cross"]
        keys = [k for k in keys if k[0] != k[1]]
    elif bl in ("len", "ew"):
        def length(k):
            d = pos[k[0]] - pos[k[1]]
            return np.linalg.norm(d) if bl == "len" else abs(d[0])
        Ls = sorted({round(length(p), 3) for p in F.antpairs})
        x, y = span(len(Ls))
        n = "bl" if bl == "len" else "ew"
        if lo:
            args += [f"--min-{n}-length", repr(float(Ls[x] - 0.01))]
            keys = [k for k in keys if length(k) >= Ls[x] - 0.01]
        if hi:
            args += [f"--max-{n}-length", repr(float(Ls[y] + 0.01))]
            keys = [k for k in keys if length(k) <= Ls[y] + 0.01]
    if not (len(ts) and len(fs) and keys):
        return
    script("subselect.py", F.paths[0], out, *args)
    compare(out, F, f"subselect {' '.join(args)}", keys, ts=ts, fs=fs)
    ctx.label(bl, *by)
    ctx.nontrivial(len(args) > 0 and len(F.antpairs) > 1)


def gen_hh(draw):
    f = gen_file(draw)
    f["nums"] = sorted(set(f["nums"]) | {351})
    f["pairs"] = f["pairs"] + [[1, 351]] + ([[351, 351]] if flag(draw) else [])
    return dict(file=f, plain=flag(draw), over=flag(draw))


def check_hh(case, ctx):
    T = ctx.tmp()
    F = File(case["file"], T)
    u = F.uvd
    u.data_array = np.round(u.data_array * 50)
    from ..uvsim import truth
    F.truth = truth(u, F.pols)
    quiet(u.write_uvh5, F.paths[0], clobber=True)
    out = os.path.join(T, "out.uvh5")
    if case["over"]:
        with open(out, "w") as h:
            h.write("mine")
        script("extract_hh.py", F.paths[0], out)
        with open(out) as h:
            require(h.read() == "mine", "extract_hh replaced an existing file unasked")
    script("extract_hh.py", F.paths[0], out, *(["--overwrite"] if case["over"] else []))
    keys = [k for k in sorted(F.truth) if max(k[:2]) < 350]
    v = compare(out, F, "extract_hh", keys)
    ants = {a for k in keys for a in k[:2]}
    require(set(int(a) for a in v.telescope.antenna_numbers) == ants, f"antennas {v.telescope.antenna_numbers}, expected {sorted(ants)}")
    P = quiet(v.telescope.get_enu_antpos)
    for n, a in enumerate(v.telescope.antenna_numbers):
        close(P[n], F.enu[int(a)], f"position of {a}", atol=1e-4, rtol=0)
        require(v.telescope.antenna_names[n] == f"HH{a}", f"name of antenna {a} is {v.telescope.antenna_names[n]}")
    ctx.label(f"over={case['over']}")
    ctx.nontrivial(len(keys) < len(F.truth))



SUBS = [
    Sub("autos", gen_autos, check_autos, quick=80, thorough=1500, shards=2),
    Sub("chunk", gen_chunk, check_chunk, quick=60, thorough=1500, shards=2),
    Sub("comb", gen_comb, check_comb, quick=80, thorough=1500, shards=2),
    Sub("throw", gen_throw, check_throw, quick=60, thorough=1500),
    Sub("corner", gen_corner, check_corner, quick=50, thorough=1500, shards=2),
    Sub("spw", gen_spw, check_spw, quick=25, thorough=1500),
    Sub("flags", gen_flags, check_flags, quick=80, thorough=1500),
    Sub("select", gen_select, check_select, quick=80, thorough=2000, shards=2),
    Sub("hh", gen_hh, check_hh, quick=40, thorough=600),
]
