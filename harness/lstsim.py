"""Several nights of small uvh5 files whose LSTs surround a chosen LST."""
import os

import numpy as np

from .core import rng_of
from .gens import cplx, flag, ints, pick, seed
from .layouts import gen_layout, grid_layout, positions
from .uvsim import freqs_of, make_cal, make_uvd

SDAY = 0.99726956633            # sidereal day in days
JDREF = 2459500.25
TWOPI = 2 * np.pi
LSTREF = []


def quiet(f, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def lst_ref():
    """LST of HERA at JDREF, to place files; the files' own LSTs are what checks are judged by."""
    if not LSTREF:
        from pyuvdata import utils as uvutils
        from pyuvdata import Telescope
        t = Telescope.from_known_telescopes("HERA")
        LSTREF.append(float(np.atleast_1d(uvutils.get_lst_for_time(np.array([JDREF]), telescope_loc=t.location))[0]))
    return LSTREF[0]


def jd_for_lst(lst, night):
    """A JD with (roughly) this LST, always in the same part of the (UT) night, on the given night of the season."""
    per_day = TWOPI * (1.0 / SDAY - 1.0)          # how much later in LST the same clock time is, per day
    days = ((lst - lst_ref()) % TWOPI) / per_day
    whole = np.floor(days)
    return JDREF + whole + (days - whole) * per_day / TWOPI * SDAY + night * SDAY


def gen_nights(draw, red=False, maxnights=3, maxfiles=2, maxt=5, one_bl=False):
    """Geometry, file layout and target LST."""
    lay = grid_layout(draw, nx=(2, 3), ny=(1, 2)) if (red or flag(draw)) else gen_layout(draw, dims=2, nmin=2, nmax=4, span=2)
    tint = pick(draw, [10.7, 30.0, 120.0])
    nights = []
    for _ in range(ints(draw, 1, maxnights)):
        nights.append([dict(nt=ints(draw, 1, maxt), off=ints(draw, -30, 30), drop=ints(draw, 0, 3)) for _ in range(ints(draw, 1, maxfiles))])
    # hours matter only through the wrap: near 0/2pi, in the middle, near the JD midnight/noon change
    lst0 = pick(draw, [0.0, 0.0, 6.2, 0.02, 3.0, 1.5, 5.0])
    return dict(lay=lay, tint=tint, nights=nights, lst0=lst0, seed=seed(draw), pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]),
                nf=ints(draw, 2, 5), orient=pick(draw, ["minmax", "random"]), autos=flag(draw), xo=pick(draw, ["east", "north"]),
                fast=flag(draw), jitter=flag(draw))


class Nights:
    """Files on disk plus what is in them: self.files[k] = dict(path, times, lsts, pairs, data, flags, ns) with data (nt, npair, nf, npol)."""

    def __init__(self, case, tmp, pairs_of=None, one_orient=False, samples=True):
        self.case, self.tmp = case, tmp
        rng = self.rng = rng_of(case["seed"], "nights")
        self.enu = positions(case["lay"], 14.6)
        self.ants = sorted(self.enu)
        self.pols = case["pols"]
        self.freqs = freqs_of(case["nf"], df=1e6)
        allp = [(a, b) for k, a in enumerate(self.ants) for b in self.ants[k:] if a != b or case["autos"]]
        self.files = []
        dl = case["tint"] / 86400.0
        for n, night in enumerate(case["nights"]):
            shift = (rng.random() - 0.5) * dl if case["jitter"] else 0.0
            t = jd_for_lst(case["lst0"], n) + shift + (night[0]["off"] / 10.0 + 0.137) * dl
            for f, spec in enumerate(night):
                times = t + dl * np.arange(spec["nt"])
                t = times[-1] + dl
                if pairs_of is not None:
                    pairs = pairs_of(n, f, rng)
                else:
                    pairs = [p for k, p in enumerate(allp) if (k * 5 + n * 3 + f + case["seed"]) % 8 >= spec["drop"]] or allp[:1]
                    if case["orient"] == "random":
                        pairs = [p if rng.integers(2) else p[::-1] for p in pairs]
                self.add(n, f, times, pairs, samples)

    def add(self, n, f, times, pairs, samples):
        case = self.case
        uvd = quiet(make_uvd, self.enu, pairs, self.pols, times, self.freqs, seed=int(self.rng.integers(2**31)), orient=case["xo"], flag_frac=0.2,
                    time_fast=case["fast"])
        if "en" in self.pols:
            auto = uvd.ant_1_array == uvd.ant_2_array
            for arr in (uvd.flag_array, uvd.nsample_array):
                arr[auto, :, self.pols.index("en")] = arr[auto, :, self.pols.index("ne")]
        uvd.integration_time[:] = case["tint"]
        uvd.vis_units = "Jy"
        # HERA names a file by the end of its first integration; more digits than usual, so that the name is as good as the metadata
        path = os.path.join(self.tmp, f"zen.{times[0] + case['tint'] / 86400.0 / 2:.8f}.{n}.{f}.sum.uvh5")
        quiet(uvd.write_uvh5, path)
        sh = (len(times), len(pairs), len(self.freqs), len(self.pols))
        d, fl, ns = np.zeros(sh, dtype=complex), np.zeros(sh, dtype=bool), np.zeros(sh)
        lsts = np.zeros(len(times))
        for k, (a, b) in enumerate(pairs):
            rows = np.where((uvd.ant_1_array == a) & (uvd.ant_2_array == b))[0]
            rows = rows[np.argsort(uvd.time_array[rows])]
            d[:, k], fl[:, k], ns[:, k] = uvd.data_array[rows], uvd.flag_array[rows], uvd.nsample_array[rows]
            lsts[:] = uvd.lst_array[rows]
        self.files.append(dict(path=path, night=n, times=np.array(times), lsts=lsts, pairs=[tuple(p) for p in pairs], data=d, flags=fl, ns=ns, uvd=uvd))
        return self.files[-1]

    def get(self, k, pair, pol):
        """data, flags, nsamples (nt, nf) of file k for the pair in the asked orientation, or None"""
        fl = self.files[k]
        pair = tuple(pair)
        if pair in fl["pairs"] and pol in self.pols:
            i, j = fl["pairs"].index(pair), self.pols.index(pol)
            return fl["data"][:, i, :, j], fl["flags"][:, i, :, j], fl["ns"][:, i, :, j]
        if pair[::-1] in fl["pairs"] and pol[::-1] in self.pols:
            i, j = fl["pairs"].index(pair[::-1]), self.pols.index(pol[::-1])
            return fl["data"][:, i, :, j].conj(), fl["flags"][:, i, :, j], fl["ns"][:, i, :, j]
        return None

    def make_cal(self, k, drop=False, one=False, plain=False):
        """Write a calfits file for file k; returns path, gains, flags"""
        fl, rng = self.files[k], self.rng
        nt = 1 if one else len(fl["times"])
        g, f = {}, {}
        for a in self.ants:
            for p in ("Jee", "Jnn"):
                g[a, p] = cplx(rng, (nt, len(self.freqs))) * 0.3 + 1.0
                f[a, p] = rng.random(size=(nt, len(self.freqs))) < 0.15
        path = fl["path"].replace(".uvh5", ".calfits")
        mult = self.case.get("seed", 0) % 2 == 1 and k % 2 == 0 and not plain     # some files hold the same calibration as gains to multiply by
        uvc = quiet(make_cal, self.ants, {a: 1 / v for a, v in g.items()} if mult else g, f, fl["times"][:nt], self.freqs, fl["uvd"].telescope, orient=self.case["xo"])
        if mult:
            uvc.gain_convention = "multiply"
        quiet(uvc.write_calfits, path)
        return path, g, f

    def make_inpaint(self, k):
        """Write a where-inpainted UVFlag file for file k; returns path and a mask like the file's flags (True = inpainted)"""
        from pyuvdata import UVFlag
        fl = self.files[k]
        uvd = fl["uvd"]
        uvf = quiet(UVFlag, uvd, mode="flag", copy_flags=True)
        m = self.rng.random(size=uvd.flag_array.shape) < 0.2
        if "en" in self.pols:
            auto = uvd.ant_1_array == uvd.ant_2_array
            m[auto, :, self.pols.index("en")] = m[auto, :, self.pols.index("ne")]
        uvf.flag_array = m
        path = fl["path"].replace(".sum.uvh5", ".where_inpainted.h5")
        quiet(uvf.write, path)
        out = np.zeros_like(fl["flags"])
        for i, (a, b) in enumerate(fl["pairs"]):
            rows = np.where((uvd.ant_1_array == a) & (uvd.ant_2_array == b))[0]
            rows = rows[np.argsort(uvd.time_array[rows])]
            out[:, i] = m[rows]
        return path, out


def drift_phase(enu_i, enu_j, freqs, dlst, lat_deg):
    """Phase acquired by V_ij = exp(-2 pi i nu/c (r_i - r_j).s) of a source at zenith while the sky turns by dlst (radians)."""
    lat = np.deg2rad(lat_deg)
    H = np.asarray(dlst, dtype=float)                # hour angle after the drift, declination = latitude
    E = -np.cos(lat) * np.sin(H)
    N = np.sin(lat) * np.cos(lat) - np.cos(lat) * np.cos(H) * np.sin(lat)
    U = np.sin(lat) ** 2 + np.cos(lat) ** 2 * np.cos(H) - 1.0
    b = np.asarray(enu_i, dtype=float) - np.asarray(enu_j, dtype=float)
    tau = (b[0] * E + b[1] * N + b[2] * U) / 299792458.0
    return np.exp(-2j * np.pi * np.asarray(tau)[..., None] * np.asarray(freqs))
