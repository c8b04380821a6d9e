import math
import numpy as np
ID = "G09"
RULE = "altes / klauder / mexhat / gdpower x length x parameters drawn over their domains; every sample compared with the closed form, plus energy, symmetry and spectral clauses."
REQUIRED = {"altes": 60, "klauder": 60, "mexhat": 60, "gdpower degree<1": 40, "gdpower degree 0": 20, "gdpower degree 1": 10, "gdpower degree>1": 30, "negative rate": 20, "odd": 100}


def cases(tier, rng):
    out = []
    ns = list(range(4, 44)) + [50, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, rng.randint(1001, 2600)]
    if tier == "thorough":
        ns = list(range(2, 220)) + [255, 256, 257, 300, 401, 500, 511, 512, 513, 1000, 1024, 2049]
    for n in ns:
        for j in range(2):
            fmin = rng.uniform(0.01, 0.3)
            fmax = rng.uniform(fmin * 1.2, 0.5) if fmin * 1.2 < 0.5 else 0.5
            out.append(dict(kind="altes", n=n, a=[] if j == 0 and rng.random() < .3 else [fmin, fmax] if rng.random() < .3 else [fmin, fmax, rng.choice([10, 300, 10000, rng.uniform(3, 1e5)])]))
            out.append(dict(kind="klauder", n=n, a=[] if rng.random() < .2 else [rng.uniform(1.0, 30.0), rng.uniform(0.02, 0.48)]))
            out.append(dict(kind="gdpower", n=n, degree=rng.choice([None, 0.0, 0.5, -1.0, -0.5, 0.25, 2.0, 3.0, 1.5, 1.0, 1, 0, 2, rng.uniform(-2, 0.95), rng.uniform(1.05, 4)]),
                            rate=rng.choice([None, 1.0, 0.5, -1.0, 2.0, -0.3, rng.uniform(0.1, 1.2)])))
        out.append(dict(kind="gdpower", n=n, degree=rng.choice([0.0, 1.0, 2.0, 0.5, -1.0]), rate=rng.choice([1.0, -1.0, 0.4])))
    for _ in range(100 if tier == "quick" else 500):
        out.append(dict(kind="mexhat", nu=rng.choice([None, 0.5, 0.25, 0.1, 0.01, 0.001, rng.uniform(0.005, 0.5), rng.uniform(0.005, 0.5), 1.5 / rng.randint(3, 200)])))
    return out


def check(mon, c):
    import tftb.generators as g
    kind = c["kind"]
    if kind == "mexhat":
        mon.saw("mexhat")
        nu = 0.05 if c["nu"] is None else c["nu"]
        h = mon.call(g.mexhat, *([] if c["nu"] is None else [nu]))
        m = math.ceil(1.5 / nu)
        if abs(1.5 / nu - round(1.5 / nu)) < 1e-9 and nu not in (0.5, 0.25):
            # the quotient is a whole number up to rounding: which side of it the ceiling sees is not specified
            mon.ok((len(h) - 1) // 2 - round(1.5 / nu) in (0, 1), "mexhat:length")
            m = (len(h) - 1) // 2
        t = np.arange(-m, m + 1, dtype=float)
        u = (np.pi * nu * t) ** 2
        mon.close(h, nu * math.sqrt(np.pi) / 2 * np.exp(-u) * (1 - 2 * u), "mexhat", rtol=1e-10)
        mon.close(h, h[::-1], "mexhat:symmetric", rtol=1e-12)
        mon.ok(np.argmax(h) == m, "mexhat:peak")
        if nu <= 0.2:
            mon.ok(abs(h.sum()) < 2e-3, "mexhat:admissible", lambda: "sum %g" % h.sum())
        return
    n = c["n"]
    if n % 2:
        mon.saw("odd")
    if kind == "altes":
        mon.saw("altes")
        x = mon.call(g.altes, n, *c["a"])
        fmin, fmax, al = (list(c["a"]) + [0.05, 0.5, 300][len(c["a"]):])
        mon.shape(x, (n,), "altes")
        mon.ok(x.dtype.kind == "f", "altes:real")
        mon.close(np.sum(x ** 2), 1.0, "altes:energy", rtol=1e-9)
        L = math.log(fmax / fmin)
        lg = L * L / (8 * math.log(al))             # log g
        beta = L / 2.0                               # sqrt(2 log g log alpha)
        t0 = n / (2 * math.sinh(beta))
        t = t0 * math.exp(-beta) + np.arange(n)      # n samples of unit step from t0 e^-beta
        u = np.log(t / t0)
        ref = np.exp(-u ** 2 / (2 * lg)) * np.cos(2 * np.pi * t0 * math.sqrt(fmin * fmax) * math.exp(lg) * u)
        ref = ref / np.linalg.norm(ref)
        mon.close(x, ref, "altes:form", rtol=1e-7)
        return
    if kind == "klauder":
        if n < 2:
            return
        mon.saw("klauder")
        x = mon.call(g.klauder, n, *c["a"])
        at, f0 = (list(c["a"]) + [10.0, 0.2][len(c["a"]):])
        mon.shape(x, (n,), "klauder")
        mon.ok(x.dtype.kind == "f", "klauder:real")
        mon.close(np.sum(x ** 2), 1.0, "klauder:energy", rtol=1e-9)
        mm = n // 2
        f = np.arange(mm + 1) / float(n)
        with np.errstate(all="ignore"):
            lm = -2 * np.pi * at * f + (2 * np.pi * at * f0 - 0.5) * np.log(f)
        lm[0] = -np.inf
        A = np.exp(lm - lm[1:].max())
        # symmetric about n//2
        d = np.arange(1, (n + 1) // 2)
        mon.close(x[mm - d], x[(mm + d) % n], "klauder:symmetric", rtol=1e-9, scale=np.abs(x).max())
        X = np.abs(np.fft.fft(x))[:mm + 1]
        Aref = A.copy()
        two = np.where((np.arange(mm + 1) == 0) | (2 * np.arange(mm + 1) == n), 1, 2)
        Aref = Aref * np.sqrt(n / np.sum(two * A ** 2))
        mon.close(X, Aref, "klauder:spectrum", rtol=1e-7)
        mon.ok(np.argmax(x) == mm, "klauder:peak", lambda: "at %d" % np.argmax(x))
        return
    deg, rate = c["degree"], c["rate"]
    if n < 4:
        return
    a = [n] + ([] if deg is None else [deg] if rate is None else [deg, rate])
    if deg is None:
        rate = None
        deg = 0.0
    rate = 1.0 if rate is None else rate
    deg = float(deg)
    x, gpd, f = mon.call(g.gdpower, *a)
    lnu = (n + 1) // 2
    mon.shape(x, (n,), "gdpower")
    k = np.arange(1, lnu + 1)
    nu = 0.5 * k / lnu
    mon.close(f, nu, "gdpower:frequencies", rtol=1e-10)
    mon.shape(gpd, (lnu,), "gdpower:group delay")
    mon.close(np.linalg.norm(x), 1.0, "gdpower:energy", rtol=1e-9)
    mon.ok(abs(x.mean()) < 1e-10, "gdpower:mean", lambda: "%r" % x.mean())
    if rate < 0:
        mon.saw("negative rate")
    X = np.fft.fft(x)
    if deg == 1.0:
        mon.saw("gdpower degree 1")
        mon.close(gpd, np.full(lnu, float(n)), "gdpower:gd1", rtol=1e-10)
        re = np.zeros(n)
        re[n - 1] = 1
        from tfmon.ref import analytic
        ref = analytic(re)
        ref = ref - ref.mean()
        mon.close(x, ref / np.linalg.norm(ref), "gdpower:pulse", rtol=1e-8)
        return
    if deg < 1 and deg != 0:
        mon.saw("gdpower degree<1")
        d, t0 = float(n) ** (deg * rate), n / 10.0
        ph = d * nu ** deg / deg
    elif deg == 0:
        mon.saw("gdpower degree 0")
        d, t0 = rate, n / 10.0
        ph = d * np.log(nu)
    else:
        mon.saw("gdpower degree>1")
        d, t0 = n * 2.0 ** (deg - 1) * rate, 0.0
        ph = d * nu ** deg / deg
    gref = t0 + (n + 1 if rate < 0 else 0) + d * nu ** (deg - 1)
    mon.close(gpd, gref, "gdpower:group delay law", rtol=1e-9, scale=np.abs(gref).max())
    # spectrum: bins 1..lnu-1 survive the mean removal
    am = nu ** ((deg - 2) / 6.0)
    full = am * np.exp(-2j * np.pi * (t0 * nu + ph))
    full = full[1:]
    full = full * np.sqrt(n / np.sum(np.abs(full) ** 2))
    mon.close(X[1:lnu], full, "gdpower:spectrum", rtol=1e-6 * max(1.0, np.abs(ph).max() * 1e-8), scale=np.abs(full).max())
    mon.ok(np.abs(X[lnu:]).max() < 1e-8 * np.abs(X).max() if lnu < n else True, "gdpower:one-sided")
