"""Workload: deterministic signals, windows, lengths, layouts described by small JSON-able specs.
None of this uses the library under test."""
import numpy as np

TWO_PI = 2 * np.pi


def _rs(seed):
    return np.random.RandomState(int(seed) % (2 ** 32 - 1))


KINDS_C = ["cnoise", "tone", "chirp", "packet", "twotone", "impulse", "sparse", "burst", "edges"]
KINDS_R = ["rnoise", "rtone", "rpacket", "step", "ints"]
KINDS = KINDS_C + KINDS_R


def make(spec):
    """spec: dict(kind, n, seed[, gain, f, t0])"""
    n, kind = int(spec["n"]), spec["kind"]
    r = _rs(spec.get("seed", 0))
    k = np.arange(n)
    f = spec.get("f")
    t0 = spec.get("t0")
    if kind == "cnoise":
        x = r.randn(n) + 1j * r.randn(n)
    elif kind == "rnoise":
        x = r.randn(n)
    elif kind == "tone":
        f = r.uniform(-0.5, 0.5) if f is None else f
        x = np.exp(1j * (TWO_PI * f * k + r.uniform(0, TWO_PI)))
    elif kind == "rtone":
        f = r.uniform(0.02, 0.48) if f is None else f
        x = np.cos(TWO_PI * f * k + r.uniform(0, TWO_PI))
    elif kind == "chirp":
        a, b = r.uniform(-0.5, 0.5, 2)
        x = np.exp(1j * TWO_PI * (a * k + (b - a) * k ** 2 / (2.0 * max(n, 1))))
    elif kind == "packet":
        f = r.uniform(-0.4, 0.4) if f is None else f
        c = r.uniform(0, n) if t0 is None else t0
        s = r.uniform(1.0, max(2.0, n / 3.0))
        x = np.exp(-np.pi * ((k - c) / s) ** 2) * np.exp(1j * TWO_PI * f * k)
    elif kind == "rpacket":
        f = r.uniform(0.05, 0.4) if f is None else f
        c = r.uniform(0, n) if t0 is None else t0
        s = r.uniform(1.0, max(2.0, n / 3.0))
        x = np.exp(-np.pi * ((k - c) / s) ** 2) * np.cos(TWO_PI * f * k)
    elif kind == "twotone":
        a, b = r.uniform(-0.5, 0.5, 2)
        x = np.exp(1j * TWO_PI * a * k) + 0.5 * np.exp(1j * TWO_PI * b * k + 0.3j)
    elif kind == "impulse":
        x = np.zeros(n, dtype=complex)
        x[(r.randint(n) if t0 is None else int(t0)) % n] = 1.0
    elif kind == "sparse":
        x = np.where(r.rand(n) < 0.15, r.randn(n) + 1j * r.randn(n), 0)
        x[r.randint(n)] += 1 - 2j
    elif kind == "burst":
        x = np.zeros(n, dtype=complex)
        a = r.randint(n)
        b = min(n, a + 1 + r.randint(max(1, n // 2)))
        x[a:b] = r.randn(b - a) + 1j * r.randn(b - a)
    elif kind == "edges":
        x = 1e-3 * (r.randn(n) + 1j * r.randn(n))
        x[0] += 2 + 1j
        x[-1] += 1 - 2j
    elif kind == "step":
        x = (k >= n // 2).astype(float) + 0.25
    elif kind == "ints":
        x = r.randint(-8, 9, n).astype(float)
        if not np.any(x):
            x[0] = 3.0
    elif kind == "ones":
        x = np.ones(n) if spec.get("seed", 0) % 2 == 0 else (-1.0) ** k
    elif kind == "zeros":
        x = np.zeros(n, dtype=complex)
    else:
        raise KeyError(kind)
    return x * spec.get("gain", 1.0)


def window(spec):
    """spec: dict(kind, L[, seed][, gain]); always length L, non-zero centre."""
    if spec.get("gain"):
        return window(dict(spec, gain=None)) * spec["gain"]
    L, kind = int(spec["L"]), spec["kind"]
    r = _rs(spec.get("seed", 0) + 77)
    k = np.arange(L)
    c = (L - 1) / 2.0
    if kind == "hamming":
        return hamming(L)
    if kind == "rect":
        return np.ones(L)
    if kind == "gauss":
        return np.exp(-np.pi * ((k - c) / (0.6 * L + 0.5)) ** 2)
    if kind == "asym":      # positive, asymmetric
        return 0.2 + r.rand(L) + 0.5 * k / max(L, 1)
    if kind == "casym":     # complex, positive real part
        return 0.2 + r.rand(L) + 0.5j * (r.rand(L) - 0.3)
    if kind == "signed":    # real, any sign, solid centre
        w = r.randn(L)
        w[(L - 1) // 2] = 1.5
        return w
    if kind == "complex":
        w = r.randn(L) + 1j * r.randn(L)
        w[(L - 1) // 2] = 1.5 if spec.get("seed", 0) % 2 else -0.9 + 1.2j
        return w
    if kind == "hann":      # zero end points
        return 0.5 * (1 - np.cos(TWO_PI * k / (L - 1))) if L > 1 else np.ones(1)
    raise KeyError(kind)


def hamming(L):
    """Symmetric Hamming window from its closed form."""
    if L <= 1:
        return np.ones(L)
    return 0.54 - 0.46 * np.cos(TWO_PI * np.arange(L) / (L - 1))


def default_odd(n):
    h = int(n) // 4
    return h + 1 if h % 2 == 0 else h


# ---------------------------------------------------------------- drawing specs
def pick_len(rng, lo, hi):
    """Lengths with all residues and boundary values well represented."""
    c = rng.random()
    if c < 0.35:
        return rng.randint(lo, min(hi, max(lo, 24)))
    if c < 0.5:
        base = 2 ** rng.randint(2, 10)
        return max(lo, min(hi, base + rng.choice([-1, 0, 0, 1])))
    return rng.randint(lo, hi)


def long_sizes(rng):
    """(length, bin count or None) well beyond the usual draws: long records with few bins, with the default bins, few samples with many bins."""
    return [(rng.choice([1024, 2048, rng.randint(1025, 2100), rng.randint(1025, 2100)]), rng.randint(3, 40)),
            (rng.choice([4096, rng.randint(2100, 5000)]), rng.randint(3, 12)),
            (rng.choice([512, 513, 600, 768, rng.randint(600, 900)]), None),
            (rng.randint(2, 60), rng.randint(600, 2100))]


def pick_signal(rng, n, kinds=None, gains=True):
    s = dict(kind=rng.choice(kinds or KINDS), n=n, seed=rng.randint(0, 10 ** 6))
    if gains and rng.random() < 0.25:
        s["gain"] = rng.choice([1e-9, 1e-4, 0.37, 13.0, 1e5, 1e9])
    return s


def pick_fbins(rng, n, lo=1):
    c = rng.random()
    if c < 0.3:
        v = n
    elif c < 0.5:
        v = n + rng.randint(1, n + 4)
    elif c < 0.8:
        v = rng.randint(lo, max(lo, n))
    elif c < 0.9:
        v = 2 * n + rng.choice([-1, 0, 1])
    else:
        v = rng.choice([n - 1, n + 1, n // 2, n // 2 + 1, 1, 2, 3])
    return max(lo, v)


def pick_window(rng, n, nf, kinds=("hamming", "rect", "gauss", "asym", "signed", "hann"), lo=1):
    c = rng.random()
    if c < 0.5:
        L = rng.randint(lo, max(lo, nf))
    elif c < 0.7:
        L = nf + rng.randint(-2, 6)
    elif c < 0.85:
        L = 2 * max(n, nf) + rng.randint(-3, 9)
    else:
        L = rng.choice([1, 3, 5, 2 * n - 1, 2 * n + 1, n, nf])
    L = max(lo, L)
    L += 1 - L % 2
    c = dict(kind=rng.choice(list(kinds)), L=L, seed=rng.randint(0, 10 ** 6))
    if rng.random() < 0.2:
        c["gain"] = rng.choice([1e-9, 1e-3, 0.7, 40.0, 1e6])
    return c


def pick_instants(rng, n, regular=False, lo=1):
    """Spec of a timestamp selection: explicit list of integer sample indices (or None for the default)."""
    c = rng.random()
    if c < 0.3 or n < max(2, lo):
        return None
    if c < 0.6:
        step = rng.choice([1, 2, 3, 4, 5, 7])
        off = rng.randint(0, min(n - 1, 6))
        t = list(range(off, n, step))
    elif c < 0.75:
        a = rng.randint(0, n - 1)
        b = rng.randint(a, n - 1)
        t = list(range(a, b + 1))
    elif regular:
        t = list(range(0, n, max(1, n // rng.randint(2, 6))))
    elif c < 0.85:
        t = list(range(n))[::-1]
    elif c < 0.95:
        t = sorted(rng.randrange(n) for _ in range(rng.randint(1, min(n, 12))))
    else:
        t = [rng.randrange(n)]
    return t if len(t) >= lo else None


def instants(t):
    return None if t is None else np.array(t, dtype=int)
