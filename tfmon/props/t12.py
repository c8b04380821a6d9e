import math
import numpy as np
from tfmon import signals as S
from tfmon.ref import analytic
ID = "T12"
RULE = "Band-limited and broadband signals x length x explicit or default band x number of geometric samples (odd and even); every entry compared with the defining sum over the geometric grid up to one constant; origin value, peak, labels and default band judged."
REQUIRED = {"one edge given": 5, "explicit band": 60, "default band": 40, "odd N": 40, "even N": 40, "complex input": 40, "odd n": 40}


def cases(tier, rng):
    out = []
    for i in range(160 if tier == "quick" else 800):
        n = rng.choice([16, 17, 20, 31, 32, 33, 40, 47, 64, 65, rng.randint(12, 90)]) if rng.random() < 0.97 else rng.randint(100, 300)
        many = 0
        if i % 80 == 50:
            n, many = rng.randint(1001, 1300), 2 * rng.randint(40, 70) + rng.choice([0, 1])
        sig = rng.choice([dict(kind="rpacket", n=n, seed=rng.randint(0, 10 ** 6), f=rng.uniform(0.12, 0.35), t0=n / 2.0), S.pick_signal(rng, n, kinds=["rpacket", "rnoise", "cnoise", "chirp", "twotone", "packet", "ints"])])
        c = dict(x=sig, band=None, N=rng.choice([None, None, 2 * rng.randint(8, 32), 2 * rng.randint(8, 32) + 1, 2 * rng.randint(8, 32) + 1]))
        if many:
            c["N"] = many
        if rng.random() < 0.65:
            lo = rng.uniform(0.02, 0.2)
            c["band"] = [lo, rng.uniform(lo + 0.15, 0.49)]
            if rng.random() < 0.15:
                c["part"] = rng.choice(["fmin", "fmax"])
        out.append(c)
    return out


def band_energy(P, n, lo, hi, slack):
    k = np.arange(n)
    m = (k >= lo * n - slack) & (k <= hi * n + slack)
    return P[m].sum()


def in_band(I, P, n, lo, hi, rtol=1e-6):
    """(is I the energy of the bins from lo to hi, the possible energies): the bins nearest lo*(n-2) to hi*(n-2), counted from 0 or
    from 1 (both conventions are in the library), either neighbour where the nearest bin is a tie"""
    near = lambda v: {math.floor(v + 0.5 - 1e-9), math.floor(v + 0.5 + 1e-9)}
    E = {P[i + d:j + d + 1].sum() for i in near(lo * (n - 2)) for j in near(hi * (n - 2)) for d in (0, 1)}
    return any(abs(I - e) <= rtol * e + 1e-13 * P.sum() for e in E), sorted(E)


def default_band(P, m, lo_min=0.01):
    """candidates for (fmin, fmax): both neighbours where a ratio is within rounding of an integer or a bin is within rounding of 1%"""
    res = []
    for fac in (1 - 1e-9, 1 + 1e-9):
        idx = np.nonzero(P[:m] > P[:m].max() / 100.0 * fac)[0]
        f1, f2 = idx.min() * 0.5 / m, idx.max() * 0.5 / m
        for e in (-1e-9, 1e-9):
            for d in (-1e-9, 1e-9):
                res.append((max(lo_min, 0.05 * math.floor(f1 / 0.05 + e)), 0.05 * math.ceil(f2 / 0.05 + d)))
    return res


def part_band(c, kw, cand):
    """only one edge given: the other one is the default"""
    if c.get("part") == "fmin":
        kw["fmin"] = c["band"][0]
        return [(c["band"][0], b) for _, b in cand]
    kw["fmax"] = c["band"][1]
    return [(a, c["band"][1]) for a, _ in cand]


def check(mon, c):
    from tftb.processing.ambiguity import wide_band
    x = S.make(c["x"])
    n = len(x)
    z = analytic(x)
    P = np.abs(np.fft.fft(z)) ** 2
    kw = {}
    if c["N"] is not None:
        kw["N"] = c["N"]
    if c["band"] is not None and not c.get("part"):
        mon.saw("explicit band")
        kw["fmin"], kw["fmax"] = c["band"]
        cand = [tuple(c["band"])]
    else:
        cand = default_band(P, int(np.round(n / 2.0)))
        if c.get("part"):
            mon.saw("one edge given")
            cand = part_band(c, kw, cand)
        if any(b - a < 0.09 for a, b in cand):
            return      # degenerate band: outside the claim
        mon.saw("default band")
    if np.iscomplexobj(x):
        mon.saw("complex input")
    if n % 2:
        mon.saw("odd n")
    W, tau, theta = mon.call(wide_band, x, **kw)
    mon.ok(tau.shape == (n,) and np.all(np.diff(tau) == 1) and abs(tau[0] + n / 2.0) <= 0.5 and np.all(tau == np.round(tau)), "waf:tau labels", lambda: "%s" % tau)
    N = len(theta)
    if c["N"] is not None:
        mon.ok(N == c["N"], "waf:N")
    mon.saw("odd N" if N % 2 else "even N")
    mon.shape(W, (N, n), "waf")
    span = theta[-1]
    ok = [b for b in cand if abs(math.log(b[1] / b[0]) - span) < 1e-7]
    mon.ok(ok, "waf:band", lambda: "theta reaches %g, expected one of %s" % (span, sorted({round(math.log(b / a), 6) for a, b in cand})))
    lo, hi = ok[0]
    q = (hi / lo) ** (1.0 / (N - 1))
    l = 2 * np.arange(N) - (N - 1)
    mon.close(theta, l * math.log(q), "waf:theta labels", rtol=1e-9, scale=max(1.0, span))
    f = lo * q ** np.arange(N)
    Sf = np.exp(-2j * np.pi * np.outer(f, tau)) @ z
    E = np.exp(2j * np.pi * np.outer(f, tau))
    want = np.zeros((N, n), complex)
    for j, d in enumerate(l):
        k = np.arange(max(0, -d), min(N, N - d))
        want[j] = (Sf[k] * np.conj(Sf[k + d]) * q ** (k + d / 2.0)) @ E[k + d]
    origin = np.sum(np.abs(Sf) ** 2 * q ** np.arange(N))
    outer = band_energy(P, n, lo, hi, 2.5)
    if np.abs(Sf).max() < 1e-6 * np.abs(x).sum() or outer < 1e-18 * (np.abs(x).sum() ** 2 + P.sum()):    # rounding noise only
        return mon.saw("nothing in band")
    # one constant for the whole matrix: the one that makes the origin the in-band energy / N
    a = np.vdot(want, W) / np.vdot(want, want)
    if np.abs(want).max() < 1e-4 * origin:      # one voice holds everything: nothing off the origin to take the constant from
        return mon.saw("all on one voice")
    mon.ok(abs(a.imag) * np.abs(want).max() < 1e-9 * abs(a) * origin, "waf:real constant")
    mon.close(W, a.real * want, "waf", rtol=1e-8, scale=abs(a) * origin)
    val = a.real * origin
    good, E = in_band(val * N, P, n, lo, hi)
    mon.ok(good, "waf:origin is in-band energy", lambda: "%g, expected one of %s" % (val * N, E))
    mon.ok(np.all(np.abs(W) <= val * (1 + 1e-9)), "waf:peak at origin")
    if N % 2:
        o = W[(N - 1) // 2, int(np.nonzero(tau == 0)[0][0])]
        mon.close(o, val, "waf:origin", rtol=1e-8)
