"""Small UVData / UVCal objects with known contents."""
import numpy as np

POLNUM = {"ee": -5, "nn": -6, "en": -7, "ne": -8}      # x_orientation = east: x=e, y=n
POLNUM_N = {"nn": -5, "ee": -6, "ne": -7, "en": -8}    # x_orientation = north: x=n, y=e
JD0 = 2458838.0


def freqs_of(nf, f0=1.2e8, df=122070.3125):
    return f0 + df * np.arange(nf)


def times_of(nt, jd=2458838.25, dt=9.663677215576172):
    return jd + np.arange(nt) * dt / 86400.0


def make_telescope(enu, orient="east"):
    """Telescope holding exactly the antennas {number: ENU position in m}."""
    from pyuvdata import Telescope
    from pyuvdata import utils as uvutils
    h = Telescope.from_known_telescopes("HERA")
    loc = h.location
    nums = sorted(enu)
    P = np.array([enu[a] for a in nums], dtype=float)
    lat, lon, alt = h.location_lat_lon_alt
    ecef = uvutils.ECEF_from_ENU(P, center_loc=loc)
    rel = ecef - h._location.xyz()
    t = Telescope.new(name="HERA", location=loc, antenna_positions=rel, antenna_numbers=np.array(nums),
                      antenna_names=[f"HH{a}" for a in nums], instrument="HERA", antenna_diameters=np.full(len(nums), 14.0))
    t.set_feeds_from_x_orientation(orient, feeds=["x", "y"])
    return t


def make_uvd(enu, antpairs, pols, times, freqs, seed=0, orient="east", flag_frac=0.1, integer=False, nsamp=True, dtype=None,
             time_fast=True, conv_autos=True):
    """UVData with random (optionally small-integer) data, flags and nsamples. Returns UVData."""
    from pyuvdata import UVData
    pn = POLNUM if orient == "east" else POLNUM_N
    tel = make_telescope(enu, orient)
    uvd = UVData.new(freq_array=np.asarray(freqs, dtype=float), polarization_array=np.array([pn[p] for p in pols]),
                     antpairs=np.array([tuple(a) for a in antpairs]), telescope=tel, times=np.asarray(times), empty=True,
                     time_axis_faster_than_bls=time_fast, do_blt_outer=True,
                     channel_width=np.diff(freqs)[0] if len(freqs) > 1 else 122070.3125,
                     integration_time=(np.diff(times)[0] * 86400.0 if len(times) > 1 else 9.66),
                     vis_units="uncalib")
    uvd.polarization_array = np.array(uvd.polarization_array)
    rng = np.random.default_rng(seed)
    sh = uvd.data_array.shape
    if integer:
        d = rng.integers(-20, 21, size=sh) + 1j * rng.integers(-20, 21, size=sh)
    else:
        d = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    if conv_autos:
        auto = uvd.ant_1_array == uvd.ant_2_array
        for k, p in enumerate(pols):
            if p[0] == p[1]:
                d[auto, :, k] = np.abs(d[auto, :, k]) + 1.0
        # cross-polarized autos are each other's conjugate
        if "en" in pols and "ne" in pols:
            d[auto, :, pols.index("en")] = np.conj(d[auto, :, pols.index("ne")])
        if integer:
            d[auto] = np.round(d[auto])
    uvd.data_array = d.astype(dtype or np.complex64)
    uvd.flag_array = rng.random(size=sh) < flag_frac
    uvd.nsample_array = (rng.integers(1, 5, size=sh) if nsamp else np.ones(sh)).astype(np.float32)
    return uvd


def truth(uvd, pols):
    """{(i, j, pol): (data, flags, nsamples)} straight from the arrays, per stored baseline."""
    out = {}
    a1, a2 = uvd.ant_1_array, uvd.ant_2_array
    for i, j in sorted(set(zip(a1.tolist(), a2.tolist()))):
        rows = np.where((a1 == i) & (a2 == j))[0]
        rows = rows[np.argsort(uvd.time_array[rows], kind="stable")]
        for k, p in enumerate(pols):
            out[(i, j, p)] = tuple(np.array(x[rows, :, k]) for x in (uvd.data_array, uvd.flag_array, uvd.nsample_array))
    return out


def make_cal(ants, gains, flags, times, freqs, telescope, quality=None, total_quality=None, pols=("Jee", "Jnn"), gain_scale=None, orient="east"):
    """UVCal object from {(ant, jpol): array}. Missing entries are gain 1, flagged."""
    from pyuvdata import UVCal
    num = {"Jee": -5, "Jnn": -6} if orient == "east" else {"Jnn": -5, "Jee": -6}
    nt, nf = len(times), len(freqs)
    g = np.ones((len(ants), nf, nt, len(pols)), dtype=complex)
    f = np.ones((len(ants), nf, nt, len(pols)), dtype=bool)
    q = np.zeros((len(ants), nf, nt, len(pols)), dtype=float)
    for k, a in enumerate(ants):
        for m, p in enumerate(pols):
            if (a, p) in gains:
                g[k, :, :, m] = gains[(a, p)].T
                f[k, :, :, m] = flags[(a, p)].T if flags is not None else False
            if quality is not None and (a, p) in quality:
                q[k, :, :, m] = quality[(a, p)].T
    uvc = UVCal.new(freq_array=np.asarray(freqs, dtype=float), jones_array=np.array([num[p] for p in pols]), gain_convention="divide",
                    cal_style="redundant", cal_type="gain", time_array=np.asarray(times), telescope=telescope, ant_array=np.array(ants),
                    channel_width=np.diff(freqs)[0] if len(freqs) > 1 else 122070.3125, integration_time=9.66, wide_band=False,
                    empty=True, gain_scale=gain_scale)
    uvc.gain_array = g
    uvc.flag_array = f
    uvc.quality_array = q
    if total_quality is not None:
        tq = np.zeros((nf, nt, len(pols)))
        for m, p in enumerate(pols):
            tq[:, :, m] = total_quality[p].T
        uvc.total_quality_array = tq
    return uvc
