"""Exactly redundant simulated data."""
import numpy as np

AP = {"n": "Jnn", "e": "Jee"}
PM = {"1pol": ["nn"], "2pol": ["nn", "ee"], "4pol": ["nn", "ee", "ne", "en"], "4pol_minV": ["nn", "ee", "ne", "en"]}


def rev(b):
    return (b[1], b[0]) + tuple({"ne": "en", "en": "ne"}.get(p, p) for p in b[2:])


def ants_of(b):
    return (b[0], AP[b[2][0]]), (b[1], AP[b[2][1]])


def sky(rng, shape, lo=0.5, hi=2.0):
    """complex values bounded away from 0"""
    return rng.uniform(lo, hi, size=shape) * np.exp(2j * np.pi * rng.uniform(size=shape))


def gains_for(reds, rng, shape, amp=0.2, phs=0.35):
    ants = sorted({a for g in reds for b in g for a in ants_of(b)})
    return {a: np.exp(rng.uniform(-amp, amp, size=shape) + 1j * rng.uniform(-phs, phs, size=shape)) for a in ants}


def simulate(reds, rng, shape, gains):
    vis, data = {}, {}
    for g in reds:
        v = sky(rng, shape)
        vis[g[0]] = v
        for b in g:
            ai, aj = ants_of(b)
            data[b] = gains[ai] * np.conj(gains[aj]) * v
    return vis, data
