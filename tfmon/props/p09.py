import math
import numpy as np
from tfmon import signals as S
ID = "P09"
RULE = "divider: every N up to 3000 (thorough 8000) plus drawn large N incl. squares, primes, products of near primes, near squares up to 1e24; powers of two and their neighbours up to 2**52; modulo / nearest_odd / nextpow2 on scalars, lists and arrays around every boundary; izak on every small shape with a forward Zak transform; is_linear on clear-cut ramps and broken ramps."
REQUIRED = {"divider": 1000, "divider:square": 30, "divider:prime": 100, "divider:large": 50, "divider:beyond double precision": 40, "modulo": 200, "modulo:complex": 50, "nextpow2:array": 50, "modulo:multiple": 100, "modulo:negative": 100, "nearest_odd": 300, "nearest_odd:array": 50,
            "nextpow2": 300, "nextpow2:exact": 30, "izak": 200, "izak:1d": 10, "is_linear:yes": 100, "is_linear:no": 100}


def cases(tier, rng):
    out = []
    top = 3000 if tier == "quick" else 8000
    for a in range(1, top + 1, 100):
        out.append(dict(op="divider", lo=a, hi=min(a + 99, top)))
    for i in range(100 if tier == "quick" else 300):
        k = rng.choice([0, 1, 2, 3])
        p, q = rng.randint(100, 3000), rng.randint(1, 40)
        N = [p * p, p * (p + q), rng.randint(10 ** 4, 10 ** 7), p * p + rng.choice([-1, 1])][k]
        out.append(dict(op="divider", lo=N, hi=N))
    for i in range(60 if tier == "quick" else 200):        # near squares, beyond what a floating-point square root tells apart
        k = int(10 ** rng.uniform(3, 12))
        N = rng.choice([k * k, k * k - 1, k * (k + 1), k * (k + 2), k * k - 4, k * (k + 3)])
        out.append(dict(op="divider", lo=N, hi=N))
    for i in range(3 if tier == "quick" else 20):        # longer than any test's
        out.append(dict(op="modulo", N=rng.randint(1, 4000), seed=rng.randint(0, 10 ** 6), kind=["int", "complex", "frac"][i % 3], size=rng.randint(1001, 5000)))
        out.append(dict(op="odd", seed=rng.randint(0, 10 ** 6), size=rng.randint(1001, 5000)))
        out.append(dict(op="izak", n=rng.randint(32, 64), m=rng.randint(32, 64), seed=rng.randint(0, 10 ** 6)))
        out.append(dict(op="lin", n=rng.randint(1001, 3000), dec=rng.choice([None, 2]), seed=rng.randint(0, 10 ** 6), bend=[0, 1, -1][i % 3]))
    for i in range(300 if tier == "quick" else 1000):
        out.append(dict(op="modulo", N=rng.randint(1, 40), seed=rng.randint(0, 10 ** 6), kind=rng.choice(["int", "float", "frac", "complex", "range"])))
        out.append(dict(op="odd", seed=rng.randint(0, 10 ** 6)))
        out.append(dict(op="pow2", seed=rng.randint(0, 10 ** 6)))
        out.append(dict(op="izak", n=rng.randint(1, 24), m=rng.choice([None, 1, 2, rng.randint(1, 24)]), seed=rng.randint(0, 10 ** 6)))
        out.append(dict(op="lin", n=rng.choice([2, 3, rng.randint(3, 60)]), dec=rng.choice([None, 5, 2, 8]), seed=rng.randint(0, 10 ** 6), bend=rng.choice([0, 0, 1, -1])))
    return out


def check(mon, c):
    from tftb import utils as U
    op = c["op"]
    if op == "divider":
        for N in range(c["lo"], c["hi"] + 1):
            mon.saw("divider")
            a, b = mon.call(U.divider, N)
            best = next(i for i in range(math.isqrt(N), 0, -1) if N % i == 0)
            if best * best == N:
                mon.saw("divider:square")
            if best == 1 and N > 1:
                mon.saw("divider:prime")
            if N > 10 ** 15:
                mon.saw("divider:beyond double precision")
            if N > 10000:
                mon.saw("divider:large")
            mon.ok(sorted((a, b)) == [best, N // best], "divider", lambda: "divider(%d) = %r, expected %r" % (N, (a, b), (best, N // best)))
            mon.ok(isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)), "divider:integers", "%r %r" % (a, b))
        return
    r = S._rs(c["seed"])
    if op == "modulo":
        N = c["N"]
        m = c.get("size", 30)
        x = r.randint(-100, 200, m)
        x[:4] = [0, N, -N, 3 * N]
        if c["kind"] == "float":
            x = x.astype(float)
        elif c["kind"] == "frac":
            x = x + 0.25
        mon.saw("modulo")
        mon.saw("modulo:multiple", int((x % N == 0).sum()))
        mon.saw("modulo:negative", int((x < 0).sum()))
        if c["kind"] == "range":
            a = int(r.randint(-20, 20))
            x = np.arange(a, a + m)
        if c["kind"] == "complex":      # componentwise residues
            mon.saw("modulo:complex")
            z = x + 1j * r.randint(-100, 100, m)
            if r.rand() < 0.5:
                z[r.randint(m)] = r.randint(1, 90)
            y = mon.call(U.modulo, z, N)
            q = np.array([(y - z).real, (y - z).imag]) / float(N)       # (a complex quotient rounds)
            mon.ok(np.all(q == np.round(q)), "modulo:complex congruent", lambda: repr((N, z[:3], y[:3])))
            mon.ok(np.all((y.real >= 0) & (y.real <= N) & (y.imag >= 0) & (y.imag <= N)), "modulo:complex range", lambda: repr((N, z[:3], y[:3])))
            return
        keep = x.copy()
        y = mon.call(U.modulo, range(a, a + m) if c["kind"] == "range" else x, N)
        mon.shape(y, x.shape, "modulo")
        mon.ok(np.all((y > 0) & (y <= N)), "modulo:range", lambda: repr(y[(y <= 0) | (y > N)][:4]))
        q = (y - keep) / float(N)
        mon.ok(np.all(q == np.round(q)), "modulo:congruent", lambda: "N=%d %r -> %r" % (N, keep[q != np.round(q)][:3], y[q != np.round(q)][:3]))
        return
    if op == "odd":
        mon.saw("nearest_odd", 3)
        for v in (int(r.randint(-50, 200)), float(r.randint(-50, 200)), float(r.uniform(-50, 200))):
            y = mon.call(U.nearest_odd, v)
            if v % 2 == 0:
                want = v + 1
            elif v == int(v):
                want = v
            else:       # the odd one of floor and ceil
                want = math.floor(v) if math.floor(v) % 2 else math.ceil(v)
            mon.ok(y == want, "nearest_odd", lambda: "%r -> %r, expected %r" % (v, y, want))
        mon.saw("nearest_odd:array")
        m = c.get("size", 12)
        a = r.randint(0, 90, m)
        inp = a.astype(float) if r.rand() < 0.5 else a
        if r.rand() < 0.3:
            inp = [int(v) for v in inp]
        elif r.rand() < 0.3:
            inp = tuple(int(v) for v in inp)
        elif r.rand() < 0.3:
            lo = int(r.randint(0, 50))
            inp = range(lo, lo + m)
            a = np.array(inp)
        y = mon.call(U.nearest_odd, inp)
        mon.close(np.asarray(y), np.where(a % 2 == 0, a + 1, a), "nearest_odd:array")
        a = r.uniform(-60, 60, m)
        a[:3] = [int(r.randint(-30, 30)), r.randint(-30, 0) * 2, 2 * r.randint(0, 30) + 1]
        y = np.asarray(mon.call(U.nearest_odd, a))
        lo = np.floor(a)
        mon.close(y, np.where(lo % 2 == 0, lo + 1, lo), "nearest_odd:array of reals")
        return
    if op == "pow2":
        mon.saw("nextpow2", 4)
        k = int(r.randint(1, 53))
        for v in (int(r.randint(1, 5000)), 2 ** k, 2 ** k + 1, 2 ** k - 1, float(r.uniform(0.01, 3000))):
            if v == 2 ** k:
                mon.saw("nextpow2:exact")
            y = mon.call(U.nextpow2, v)
            mon.ok(y == int(y) and 2.0 ** y >= v and 2.0 ** (y - 1) < v, "nextpow2", lambda: "%r -> %r" % (v, y))
        mon.saw("nextpow2:array")
        v = np.concatenate([r.randint(1, 5000, 6), 2 ** r.randint(0, 52, 3), 2 ** r.randint(2, 52, 3) + 1, 2 ** r.randint(2, 52, 3) - 1])
        y = mon.call(U.nextpow2, v)
        mon.ok(np.all(y == np.array([(int(a) - 1).bit_length() for a in v])), "nextpow2:array", lambda: "%r -> %r" % (v, y))
        return
    if op == "izak":
        n, m = c["n"], c["m"]
        mon.saw("izak")
        mm = 1 if m is None else m
        s = r.randn(n * mm) + 1j * r.randn(n * mm)
        k = np.arange(n)
        E = np.exp(-2j * np.pi * (np.outer(k, k) % n) / n) / math.sqrt(n)
        Z = E @ s.reshape(n, mm)
        if m is None:
            mon.saw("izak:1d")
        got = mon.call(U.izak, Z if m is not None else Z.reshape(n))
        mon.close(got, s, "izak", rtol=1e-10)
        mon.close(np.array([np.sum(np.abs(got) ** 2)]), np.array([np.sum(np.abs(Z) ** 2)]), "izak:energy", rtol=1e-10)
        return
    n = c["n"]
    slope = float(r.randint(-40, 40)) / 10.0
    x = r.uniform(-3, 3) + slope * np.arange(n)
    kw = {} if c["dec"] is None else dict(decimals=c["dec"])
    want = True
    if c["bend"] and n >= 3:
        x[r.randint(n)] += c["bend"] * 10.0 ** (1 - (c["dec"] or 5))
        want = False
    mon.saw("is_linear:yes" if want else "is_linear:no")
    got = mon.call(U.is_linear, x, **kw)
    mon.ok(bool(got) == want, "is_linear", lambda: "%r for slope %g bend %r n %d" % (got, slope, c["bend"], n))
