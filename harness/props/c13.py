"""C13: calibration files - writing, selective reading, updating and redcal metadata round-trip."""
import contextlib
import copy
import io as _io
import os
import warnings

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, perm, pick, seed
from ..uvsim import freqs_of, make_cal, make_telescope, times_of

RULE = ("Gain, flag, quality and total-quality waterfalls for 1-6 antennas with arbitrary numbers and one or both polarizations (antennas may "
        "lack one), written with write_cal or as a UVCal object, as one or several files. Oracle: the dictionaries they were made from. "
        "Non-trivial: more than one antenna-polarization and more than one sample.")


def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def gen_set(draw, ntmin=1, ntmax=5):
    nums = sorted({ints(draw, 0, 60) for _ in range(ints(draw, 1, 6))})
    pols = pick(draw, [["Jee"], ["Jnn"], ["Jee", "Jnn"], ["Jnn", "Jee"]])
    return dict(nums=perm(draw, nums), pols=pols, drop=ints(draw, 0, 3), nt=ints(draw, ntmin, ntmax), nf=ints(draw, 2, 6), orient=pick(draw, ["east", "north"]), seed=seed(draw),
                zeros=flag(draw), tq=flag(draw))


class Cal:
    def __init__(self, c):
        rng = rng_of(c["seed"], "cal")
        self.c = c
        self.times, self.freqs = times_of(c["nt"]), freqs_of(c["nf"])
        sh = (c["nt"], c["nf"])
        self.ants = [(a, p) for a in c["nums"] for p in c["pols"]]
        if c["drop"] and len(c["pols"]) == 2 and len(self.ants) > 2:
            self.ants.pop(rng.integers(len(self.ants)))
        # float32 values, so that files keep them exactly
        self.g = {a: (rng.normal(size=sh) + 1j * rng.normal(size=sh) + 3).astype(np.complex64).astype(complex) for a in self.ants}
        self.f = {a: rng.random(size=sh) < 0.3 for a in self.ants}
        self.q = {a: rng.uniform(0, 4, size=sh).astype(np.float32).astype(float) for a in self.ants}
        self.tq = {p: rng.uniform(0, 4, size=sh).astype(np.float32).astype(float) for p in sorted({a[1] for a in self.ants})} if c["tq"] else None
        self.pos = {a: np.append(rng.uniform(-60, 60, size=2), 0.0) for a in c["nums"]}
        self.pols = sorted({a[1] for a in self.ants})
        self.full = [(a, p) for a in sorted(set(c["nums"])) for p in self.pols]

    def expect(self):
        """what reading back gives: missing antenna-polarizations are unit gains, flagged; zero gains are unit, flagged"""
        sh = (self.c["nt"], self.c["nf"])
        g = {a: self.g.get(a, np.ones(sh, dtype=complex)).copy() for a in self.full}
        f = {a: self.f.get(a, np.ones(sh, dtype=bool)).copy() for a in self.full}
        q = {a: self.q.get(a, np.ones(sh)).copy() for a in self.full}
        for a in g:
            z = np.abs(g[a]) < 1e-9
            g[a][z] = 1
            f[a][z] = True
        return g, f, q, self.tq


def compare(got, exp, what, ts=None, fs=None, keys=None, tol=1e-6):
    ts = slice(None) if ts is None else ts
    fs = slice(None) if fs is None else fs
    keys = list(exp[0]) if keys is None else keys
    for nm, g, e in zip(("gains", "flags", "quality"), got[:3], exp[:3]):
        if g is None:
            continue
        require({(int(a), str(p)) for a, p in g} == set(keys), f"{what}: {nm} of antennas {sorted(g)}, expected {sorted(keys)}")
        for k in keys:
            if nm == "flags":
                require(g[k].dtype == bool, f"{what}: flags are {g[k].dtype}")
                same(g[k], e[k][ts][:, fs], f"{what}: {nm} of {k}")
            else:
                close(g[k], e[k][ts][:, fs], f"{what}: {nm} of {k}", rtol=tol, atol=tol)
    if len(got) > 3:
        if exp[3] is None:
            require(got[3] is None, f"{what}: total quality appeared from nowhere")
        else:
            for p in {k[1] for k in keys}:
                close(got[3][p], exp[3][p][ts][:, fs], f"{what}: total quality of {p}", rtol=tol, atol=tol)


def gen_rw(draw):
    return dict(c=gen_set(draw), sel=[dict(kind=pick(draw, ["all", "ants", "pols", "chans", "freqs", "times", "mix"]), seed=seed(draw)) for _ in range(ints(draw, 1, 3))],
                nfiles=pick(draw, [1, 1, 2, 3]), conv=pick(draw, ["divide", "multiply"]))


def check_rw(case, ctx):
    """write_cal then every reader, with selections, from one or several files"""
    from hera_cal import io
    C = Cal(case["c"])
    tmp = ctx.tmp()
    rng = rng_of(case["c"]["seed"], "z")
    nt, nf = C.c["nt"], C.c["nf"]
    if case["c"]["zeros"]:
        for a in C.g:
            C.g[a][rng.random(size=(nt, nf)) < 0.2] = 0
    before = copy.deepcopy((C.g, C.f, C.q, C.tq))
    kw = dict(antpos=C.pos, outdir=tmp, x_orientation=C.c["orient"], gain_convention=case["conv"], history="hist", integration_time=9.66)
    paths, cuts = [], [c for c in np.array_split(np.arange(nt), min(case["nfiles"], nt))]
    for n, c in enumerate(cuts):
        sub = lambda D: None if D is None else {k: v[c] for k, v in D.items()}
        uvc = quiet(io.write_cal, f"c{n}.calfits", sub(C.g), C.freqs, C.times[c], flags=sub(C.f), quality=sub(C.q), total_qual=sub(C.tq), overwrite=False, **kw)
        paths.append(os.path.join(tmp, f"c{n}.calfits"))
        require(uvc.gain_convention == case["conv"], "write_cal gain convention")
    for a, b, nm in zip((C.g, C.f, C.q), before, ("gains", "flags", "quality")):
        for k in a:
            same(a[k], b[k], f"write_cal changed its input {nm}")
    exp = C.expect()
    multi = len(paths) > 1
    hc = quiet(io.HERACal, paths if multi else paths[0])
    got = quiet(hc.read)
    compare(got, exp, "HERACal.read")
    close(hc.times, C.times, "times", rtol=0, atol=2e-9)
    close(hc.freqs, C.freqs, "freqs", rtol=1e-12)
    require(hc.gain_convention == case["conv"] and "hist" in hc.history, "gain convention or history lost")
    require({(int(a), p) for a, p in hc.ants} == set(C.full), "ants")
    compare(quiet(io.load_cal, paths if multi else paths[0], return_meta=True)[:4], exp, "load_cal")
    for s in case["sel"]:
        r = rng_of(s["seed"], "sel")
        kws, ts, fs, ants, pols = {}, None, None, sorted(set(C.c["nums"])), C.pols
        if s["kind"] in ("ants", "mix"):
            ants = [a for a in ants if r.random() < 0.5] or ants[:1]
            kws["antenna_nums"] = ants + [9999] if r.random() < 0.3 else ants
        if s["kind"] in ("pols", "mix"):
            pols = [p for p in C.pols if r.random() < 0.6] or C.pols[:1]
            kws["pols"] = pols
        if s["kind"] in ("chans", "mix"):
            fs = np.arange(*sorted(r.choice(nf + 1, 2, replace=False)))
            kws["freq_chans"] = fs
        if s["kind"] == "freqs":
            fs = np.arange(*sorted(r.choice(nf + 1, 2, replace=False)))
            kws["frequencies"] = np.asarray(hc_freqs(paths[0]))[fs]
        if s["kind"] in ("times", "mix"):
            ts = np.arange(*sorted(r.choice(nt + 1, 2, replace=False)))
            kws["times"] = np.asarray(got_times(paths))[ts]
        keys = [k for k in C.full if k[0] in ants and k[1] in pols]
        h2 = quiet(io.HERACal, paths if multi else paths[0])
        compare(quiet(h2.read, **kws), exp, f"HERACal.read({s['kind']})", ts, fs, keys)
        ctx.label(s["kind"])
    # fast reader: files in any order
    order = [paths[i] for i in rng.permutation(len(paths))]
    rv = quiet(io.read_hera_calfits, order, read_flags=True, read_quality=True, read_tot_quality=C.tq is not None)
    compare((rv["gains"], rv["flags"], rv["quality"]) + ((rv["total_quality"],) if C.tq else ()), exp, "read_hera_calfits")
    close(rv["info"]["times"], C.times, "read_hera_calfits times", rtol=0, atol=2e-9)
    some = [k for k in C.full if rng.random() < 0.5] or C.full[:1]
    rv = quiet(io.read_hera_calfits, order, ants=some, read_flags=True)
    compare((rv["gains"], rv["flags"]), exp, "read_hera_calfits(ants)", keys=some)
    some = [a for a in sorted(set(C.c["nums"])) if rng.random() < 0.5] or [C.c["nums"][0]]
    rv = quiet(io.read_hera_calfits, order, ants=some, pols=C.pols[:1], read_flags=True)
    compare((rv["gains"], rv["flags"]), exp, "read_hera_calfits(ants, pols)", keys=[k for k in C.full if k[0] in some and k[1] == C.pols[0]])
    # an existing file is left alone
    b = open(paths[0], "rb").read()
    quiet(io.write_cal, "c0.calfits", {k: v * 0 + 1 for k, v in C.g.items()}, C.freqs, C.times, overwrite=False, **kw)
    require(open(paths[0], "rb").read() == b, "write_cal(overwrite=False) replaced an existing file")
    ctx.label(f"files {len(paths)}", "zeros" if case["c"]["zeros"] else "nozeros", "missing" if len(C.ants) < len(C.full) else "complete")
    ctx.nontrivial(len(C.full) > 1 and nt * nf > 1)


def hc_freqs(p):
    from pyuvdata import UVCal
    u = UVCal()
    quiet(u.read_calfits, p)
    return u.freq_array


def got_times(paths):
    from pyuvdata import UVCal
    t = []
    for p in paths:
        u = UVCal()
        quiet(u.read_calfits, p)
        t.append(u.time_array)
    return np.concatenate(t)


def gen_upd(draw):
    return dict(c=gen_set(draw), ops=[dict(what=pick(draw, ["gains", "flags", "quals", "total_qual", "all"]), sl=pick(draw, ["full", "t", "f", "tf"]), seed=seed(draw))
                                      for _ in range(ints(draw, 1, 4))], spoof=flag(draw), noq=flag(draw), seed=seed(draw))


def check_upd(case, ctx):
    """update() of slices; update_cal; writing with missing channels filled in"""
    from hera_cal import io
    C = Cal(case["c"])
    C.ants = C.full
    tmp = ctx.tmp()
    nt, nf = C.c["nt"], C.c["nf"]
    exp = [copy.deepcopy(x) for x in C.expect()]
    tel = make_telescope({a: C.pos[a] for a in C.pos}, C.c["orient"])
    num = {"Jee": -5, "Jnn": -6} if C.c["orient"] == "east" else {"Jnn": -5, "Jee": -6}
    pols = sorted(C.pols, key=lambda p: -num[p])
    uvc = quiet(make_cal, sorted(set(C.c["nums"])), exp[0], exp[1], C.times, C.freqs, tel, quality=exp[2], total_quality=exp[3], pols=tuple(pols), orient=C.c["orient"])
    src = os.path.join(tmp, "src.calfits")
    uvc.history = "start"
    quiet(uvc.write_calfits, src)
    hc = quiet(io.HERACal, src)
    quiet(hc.read)
    for op in case["ops"]:
        r = rng_of(op["seed"], "op")
        tS = slice(*sorted(r.choice(nt + 1, 2, replace=False).tolist())) if "t" in op["sl"] else None
        fS = slice(*sorted(r.choice(nf + 1, 2, replace=False).tolist())) if op["sl"] in ("f", "tf") else None
        st, sf = tS or slice(0, nt), fS or slice(0, nf)
        sh = (st.stop - st.start, sf.stop - sf.start)
        keys = [k for k in C.full if r.random() < 0.5]
        kw = {}
        for n, nm in enumerate(("gains", "flags", "quals")):
            if op["what"] in (nm, "all"):
                kw[nm] = {k: [r.integers(1, 9, size=sh) + 1j * r.integers(-9, 9, size=sh), r.random(size=sh) < 0.5, r.integers(0, 9, size=sh) * 1.0][n] for k in keys}
                for k in keys:
                    exp[n][k][st, sf] = kw[nm][k]
        if op["what"] in ("total_qual", "all"):
            kw["total_qual"] = {p: r.integers(0, 9, size=sh) * 1.0 for p in C.pols}
            if exp[3] is None:
                exp[3] = {p: np.zeros((nt, nf)) for p in C.pols}
            for p in C.pols:
                exp[3][p][st, sf] = kw["total_qual"][p]
        quiet(hc.update, tSlice=tS, fSlice=fS, **kw)
        ctx.label(op["sl"])
    compare(quiet(hc.build_calcontainers), exp, "after update")
    out = os.path.join(tmp, "out.calfits")
    quiet(hc.write, out)
    compare(quiet(quiet(io.HERACal, out).read), exp, "written")
    # update_cal on the original
    o2 = os.path.join(tmp, "o2.calfits")
    g, f, q, tq = quiet(hc.build_calcontainers)
    quiet(io.update_cal, src, o2, gains=g, flags=f, quals=q, add_to_history="more")
    h2 = quiet(io.HERACal, o2)
    compare(quiet(h2.read)[:3], exp, "update_cal")
    require("start" in h2.history and "more" in h2.history, "update_cal history")
    with expect_raises((IOError, OSError), "update_cal over an existing file without clobber"):
        quiet(io.update_cal, src, o2, gains=g)
    compare(quiet(quiet(io.HERACal, src).read)[0:1], C.expect(), "the input of update_cal")
    if case["spoof"] and nf >= 4:
        r = rng_of(case["seed"], "spoof")
        inner = [i for i in range(2, nf - 1) if r.random() < 0.6] or [nf - 2]
        keep = np.array([i for i in range(nf) if i not in inner])
        h3 = quiet(io.HERACal, out)
        quiet(h3.read)
        h3 = quiet(io.to_HERACal, quiet(h3.select, freq_chans=keep, inplace=False))
        if case["noq"]:
            h3.total_quality_array = None
        quiet(h3._extract_metadata)
        before = np.array(h3.gain_array)
        o3 = os.path.join(tmp, "o3.calfits")
        quiet(h3.write, o3, spoof_missing_channels=True)
        same(h3.gain_array, before, "write(spoof_missing_channels) changed the object")
        h4 = quiet(io.HERACal, o3)
        got = quiet(h4.read)
        e4 = [copy.deepcopy(x) for x in exp]
        for k in e4[0]:
            e4[0][k][:, inner] = 1
            e4[1][k][:, inner] = True
            e4[2][k][:, inner] = 0
        if e4[3] is not None:
            for p in e4[3]:
                e4[3][p][:, inner] = 0
        if case["noq"]:
            e4[3] = None
        require(len(h4.freqs) == nf, "write(spoof_missing_channels) did not restore the frequency axis")
        close(h4.freqs, C.freqs, "write(spoof_missing_channels) frequencies", rtol=1e-9)
        compare(got, e4, "write(spoof_missing_channels)")
        ctx.label("spoof")
    ctx.nontrivial(len(C.full) > 1 and nt * nf > 1)


def gen_meta(draw):
    return dict(nums=sorted({ints(draw, 0, 300) for _ in range(ints(draw, 1, 6))}), pols=pick(draw, [["Jee"], ["Jee", "Jnn"]]), keys=pick(draw, [["Jee"], ["Jee", "Jnn"], ["['ee', 'nn']"]]),
                nt=ints(draw, 1, 4), nf=ints(draw, 1, 5), seed=seed(draw))


def check_meta(case, ctx):
    """redcal metadata round trip and clobber protection"""
    from hera_cal import io
    r = rng_of(case["seed"], "meta")
    ants = [(a, p) for a in case["nums"] for p in case["pols"]]
    nt, nf = case["nt"], case["nf"]
    fc = dict(dlys={a: r.normal(size=nt) * 1e-7 for a in ants}, polarity_flips={a: r.random(size=nt) < 0.5 for a in ants})
    om = {n: {k: r.uniform(size=(nt, nf)) if n != "iter" else r.integers(0, 99, size=(nt, nf)) for k in case["keys"]} for n in ("chisq", "iter", "conv_crit")}
    times, freqs, lsts = times_of(nt), freqs_of(nf), r.uniform(0, 6, size=nt)
    pos = {a: r.normal(size=3) for a in case["nums"]}
    p = os.path.join(ctx.tmp(), "m.hdf5")
    io.save_redcal_meta(p, fc, om, freqs, times, lsts, pos, "some history")
    fc2, om2, f2, t2, l2, pos2, h = io.read_redcal_meta(p)
    for a, b, nm in ((f2, freqs, "freqs"), (t2, times, "times"), (l2, lsts, "lsts")):
        same(a, b, f"redcal metadata {nm}")
    require(h == "some history", f"history {h!r}")
    require(set(map(int, pos2)) == set(pos), "antenna numbers")
    for a in pos:
        same(pos2[a], pos[a], "antpos")
    for n in fc:
        require(set(fc2[n]) == set(fc[n]), f"{n} keys {sorted(fc2[n])}")
        for a in ants:
            same(fc2[n][a], fc[n][a], f"{n} of {a}")
    for n in om:
        require(set(om2[n]) == set(om[n]), f"{n} keys {sorted(om2[n])}")
        for k in om[n]:
            same(om2[n][k], om[n][k], f"{n} of {k}")
    b = open(p, "rb").read()
    with expect_raises((OSError,), "save_redcal_meta over an existing file with clobber=False"):
        io.save_redcal_meta(p, fc, om, freqs, times, lsts, pos, "x", clobber=False)
    require(open(p, "rb").read() == b, "save_redcal_meta(clobber=False) touched the file")
    ctx.nontrivial(len(ants) > 1)


SUBS = [Sub("readwrite", gen_rw, check_rw, quick=160, thorough=1500, shards=4),
        Sub("update", gen_upd, check_upd, quick=160, thorough=1500, shards=3),
        Sub("redcal-meta", gen_meta, check_meta, quick=80, thorough=1500, shards=1)]
