"""Shared by T09/T10: drives the six reassignment methods."""
import numpy as np
from tfmon import signals as S

METHODS = ["spectrogram", "pwv", "pmh", "ppage", "spwv", "morlet"]


def call(mon, c, x, t, h, g):
    import tftb.processing.reassigned as R
    m, nf = c["m"], c["nf"]
    kw = {}
    if nf is not None:
        kw["n_fbins"] = nf
    if t is not None:
        kw["time_samples" if m == "spectrogram" else "timestamps"] = t
    if h is not None:
        kw["window" if m == "spectrogram" else "fwindow"] = h
    if m == "spwv" and g is not None:
        kw["twindow"] = g
    if m == "morlet" and c.get("tbp") is not None:
        kw["tbp"] = c["tbp"]
    fn = dict(spectrogram=R.spectrogram, pwv=R.pseudo_wigner_ville, pmh=R.pseudo_margenau_hill, ppage=R.pseudo_page,
              spwv=R.smoothed_pseudo_wigner_ville, morlet=R.morlet_scalogram)[m]
    return mon.call(fn, x, **kw)


def windows(c, n, nf):
    """(h given, h used, g given, g used)"""
    m = c["m"]
    h = g = None
    if m == "morlet":
        return None, None, None, None
    if c.get("h") is not None:
        h = S.window(c["h"])
    base = n if m == "spectrogram" else nf
    hu = h if h is not None else S.hamming(S.default_odd(base))
    gu = None
    if m == "spwv":
        if c.get("g") is not None:
            g = S.window(c["g"])
        gu = g if g is not None else S.hamming(S.default_odd(nf))
    return h, hu, g, gu


def draw(rng, m, i, symmetric=True, big=False):
    n = S.pick_len(rng, 12, 34) if m in ("spwv", "morlet") else S.pick_len(rng, 12, 48)
    small = not symmetric and i % 5 == 4
    if big:
        n = rng.randint(60, 130) if i % 160 != 119 or m == "morlet" else rng.randint(200, 300)
    elif small:
        n = rng.randint(2, 11)
    nf = rng.choice([None, n, n + 1, n + rng.randint(1, n), rng.randint(min(n, 12), n), 2 * n])
    if m == "morlet" and nf is not None:
        nf += nf % 2 if rng.random() < 0.7 else 0
    if i % 7 == 3 and not big:
        nf = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, max(1, n // 2))])
    mm = nf or n
    kinds = ["hamming", "rect", "gauss", "hann"] if symmetric else ["hamming", "rect", "gauss", "hann", "asym", "signed", "complex"]
    c = dict(m=m, nf=nf, x=S.pick_signal(rng, n), t=S.pick_instants(rng, n, regular=m in ("spectrogram", "spwv", "morlet"), lo=2 if symmetric else 1))
    if m in ("spectrogram", "spwv", "morlet") and c["t"] is not None and len(set(np.diff(c["t"]))) > 1:
        c["t"] = None
    if c["t"] is not None and i % 4 == 1:
        c["t"] = sorted(set(c["t"]), reverse=True)      # a negative step
    if rng.random() < 0.75 and m != "morlet":
        if m == "spwv":
            L = 2 * rng.randint(1, max(1, min(mm - 1, 2 * n) // 4)) + 1
        else:
            L = 2 * rng.randint(1, max(1, int(mm * rng.choice([0.15, 0.3, 0.5, 0.8])))) + 1
        if i % 11 == 5:
            L = 1
        if i % 9 == 4:
            L = 2 * rng.randint(0, n + 3) + 1
        c["h"] = dict(kind=rng.choice(kinds), L=L, seed=rng.randint(0, 10 ** 6))
        if rng.random() < 0.2:
            c["h"]["gain"] = rng.choice([0.05, 0.3, 4.0, 30.0])
    if m == "spwv" and rng.random() < 0.75:
        c["g"] = dict(kind=rng.choice(["hamming", "rect", "gauss"] + ([] if symmetric else ["asym"])), L=2 * rng.randint(0, max(1, n // 3)) + 1, seed=rng.randint(0, 10 ** 6))
    if m == "morlet" and rng.random() < 0.6:
        c["tbp"] = rng.choice([0.1, 0.2, 0.25, 0.5, 1.0])
    return c
