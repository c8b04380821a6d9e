import math
import numpy as np
from tfmon import signals as S
ID = "T15"
RULE = "N x n_coeff | N x q | n_coeff x odd window (default, drawn) x signals: shapes, |coefficients|^2, reconstruction by an explicit synthesis sum with the alignment found on a probe signal and reused for the others, linearity; every N from 2 to ~200 with the defaults. Windows whose Zak transform (computed independently) vanishes, or that do not cover the hop, are excepted."
REQUIRED = {"reconstructed": 150, "default": 100, "given parameters": 100, "drawn window": 60, "critical sampling": 30, "oversampled": 80, "linearity": 150, "real signal": 40, "complex window": 15, "scaled window": 40, "aligned on another signal": 150}


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def cases(tier, rng):
    out = []
    for n in range(2, 130 if tier == "quick" else 200):
        out.append(dict(n=n, seed=rng.randint(0, 10 ** 6)))
    for n in [256, 512, rng.randint(200, 600), rng.randint(200, 600)]:
        out.append(dict(n=n, seed=rng.randint(0, 10 ** 6)))
    for i in range(200 if tier == "quick" else 500):
        n = rng.choice([8, 12, 16, 18, 20, 24, 27, 30, 32, 36, 40, 45, 48, 60, 64, 72, 81, 96, 100]) if rng.random() < 0.94 else rng.choice([128, 144, 200, 256, 300, 360, 512])
        nc = rng.choice(divisors(n))
        q = rng.choice(divisors(nc))
        c = dict(n=n, nc=nc, q=q, seed=rng.randint(0, 10 ** 6))
        if rng.random() < 0.7:
            c["w"] = dict(kind=rng.choice(["gauss", "hamming", "asym", "signed", "complex"]), gain=rng.choice([None, None, 1e-9, 1e-3, 50., 1e7]), L=min(2 * rng.randint(0, n // 2) + 1, n - 1 + n % 2), seed=rng.randint(0, 999))
        out.append(c)
    for n in [rng.choice([1024, 12 * rng.randint(84, 110)])]:
        c = dict(n=n, nc=rng.choice([d for d in divisors(n) if d <= 16]), seed=rng.randint(0, 10 ** 6))
        c["q"] = rng.choice(divisors(c["nc"]))
        out.append(c)
    return out


def synth(dgr, w, n, nc, q, s):
    """sum_{p,k} c[p,k] w[(t - k*hop - s) mod n] exp(2 i pi p t / M)"""
    M = dgr.shape[0]
    hop = n // nc
    t = np.arange(n)
    E = np.exp(2j * np.pi * (np.outer(t, np.arange(M)) % M) / M)
    Y = E @ dgr
    out = np.zeros(n, complex)
    for k in range(nc):
        out += w[(t - k * hop - s) % n] * Y[:, k]
    return out


def solid(w, n, nc, q):
    """smallest eigenvalue ratio of the frame operator (independent of the library): does the window admit a dual?"""
    hop, M = n // nc, q * n // nc
    t = np.arange(n)
    F = np.zeros((n, n), complex)
    E = ((t[:, None] - t[None, :]) % M == 0) * float(M)
    for k in range(nc):
        g = w[(t - k * hop) % n]
        F += np.outer(g, g.conj())
    ev = np.linalg.eigvalsh(F * E)
    return ev[0] / ev[-1]


def check(mon, c):
    from tftb.processing.linear import gabor
    n = c["n"]
    r = S._rs(c["seed"])
    real = r.rand() < 0.3
    x = r.randn(n) if real else r.randn(n) + 1j * r.randn(n)
    y = r.randn(n) + 1j * r.randn(n)
    kw = {}
    if "nc" in c:
        mon.saw("given parameters")
        kw = dict(n_coeff=c["nc"], q_oversample=c["q"])
        nc, q = c["nc"], c["q"]
    else:
        mon.saw("default")
    win = None
    if c.get("w"):
        mon.saw("drawn window")
        win = kw["window"] = S.window(c["w"])
        if np.iscomplexobj(win):
            mon.saw("complex window")
        if c["w"].get("gain"):
            mon.saw("scaled window")
    tfr, dgr, gam = mon.call(gabor, x, **kw)
    if "nc" not in c:
        nc = dgr.shape[1]
        mon.ok(n % nc == 0 and (dgr.shape[0] * nc) % n == 0, "default shape", "%s for %d" % (dgr.shape, n))
        q = dgr.shape[0] * nc // n
    M = q * n // nc
    mon.shape(dgr, (M, nc), "coefficients")
    mon.shape(gam, (n,), "dual window")
    mon.close(tfr, np.abs(dgr) ** 2, "squared modulus", rtol=1e-12)
    mon.saw("critical sampling" if q == 1 else "oversampled")
    a, b = r.randn(2)
    d2 = mon.call(gabor, y, **kw)[1]
    d3 = mon.call(gabor, a * x + b * y, **kw)[1]
    mon.saw("linearity")
    mon.close(d3, a * dgr + b * d2, "linearity", rtol=1e-8, scale=max(np.abs(d3).max(), np.abs(dgr).max(), np.abs(d2).max()))
    if win is None:
        L = nc + 1 - nc % 2
        win = np.exp(math.log(0.005) * np.linspace(-1, 1, L) ** 2)
        win = win / np.linalg.norm(win)
    if len(win) > n:
        return
    w = np.zeros(n, win.dtype)
    w[:len(win)] = win
    if real:
        mon.saw("real signal")
    k = solid(w, n, nc, q)
    if k < 1e-7:
        return
    tol = 1e-9 / k
    # alignment: found on y, reused on x
    t8 = np.arange(0, n, max(1, n // 8))        # a few samples tell which alignments are worth the whole comparison
    M = d2.shape[0]
    Y8 = np.exp(2j * np.pi * (np.outer(t8, np.arange(M)) % M) / M) @ d2
    near = [s for s in range(n) if np.abs((w[(t8[:, None] - np.arange(nc) * (n // nc) - s) % n] * Y8).sum(1) - y[t8]).max() < 2 * tol * np.abs(y).max()]
    s = next((s for s in near if np.abs(synth(d2, w, n, nc, q, s) - y).max() < tol * np.abs(y).max()), None)
    mon.ok(s is not None, "reconstruction", lambda: "no alignment of the window rebuilds the signal (n=%d n_coeff=%d q=%d, window %d)" % (n, nc, q, len(win)))
    mon.saw("reconstructed")
    mon.saw("aligned on another signal")
    mon.close(synth(dgr, w, n, nc, q, s), x, "reconstruction", rtol=tol)
