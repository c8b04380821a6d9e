import math
import numpy as np
ID = "G02"
RULE = "Envelope kind x length x (t0, spread) drawn inside, between, on and outside the samples; compared sample by sample with the closed form."
REQUIRED = {"default": 50, "t0 outside": 20, "t0 between": 50, "amgauss": 50, "amexpos": 50, "amrect": 50, "amtriang": 50, "unilateral": 20}


def cases(tier, rng):
    out = []
    ns = list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 160, 255, 256, 500, 512, 1000, 1024, 2001]
    if tier == "thorough":
        ns = list(range(1, 300)) + [511, 512, 513, 1000, 1023, 1024, 4097, 10000]
    for kind in ("amgauss", "amexpos", "amexpos_u", "amrect", "amtriang"):
        for n in ns:
            out.append(dict(kind=kind, n=n, t0=None, spread=None))
            for _ in range(3 if tier == "quick" else 6):
                c = rng.random()
                t0 = (rng.randint(0, n) if c < 0.4 else rng.uniform(0, n) if c < 0.7 else
                      rng.choice([-rng.uniform(0, n), n + rng.uniform(0, n), 0, 1, n, n - 1, n / 2.0, 0.5]))
                c = rng.random()
                sp = None if c < 0.15 else (rng.uniform(0.05, 3.0) if c < 0.4 else rng.uniform(1, 4.0 * n) if c < 0.8 else float(rng.randint(1, n + 3)))
                if rng.random() < 0.1:
                    t0 = None
                out.append(dict(kind=kind, n=n, t0=t0, spread=sp))
    return out


def reference(kind, n, t0, sp):
    t0 = round(n / 2.0) if t0 is None else t0
    sp = 2 * math.sqrt(n) if sp is None else sp
    y = []
    for k in range(n):
        d = (k + 1 - t0) if kind == "amgauss" else (k - t0)
        if kind == "amgauss":
            v = math.exp(-math.pi * (d / sp) ** 2)
        elif kind == "amexpos":
            v = math.exp(-math.sqrt(2 * math.pi) * abs(d) / sp)
        elif kind == "amexpos_u":
            v = math.exp(-math.sqrt(math.pi) * d / sp) if d >= 0 else 0.0
        elif kind == "amrect":
            v = 1.0 if abs(d) <= 0.5 * sp * math.sqrt(3 / math.pi) else 0.0
        else:
            v = max(0.0, 1 - abs(d) / (math.sqrt(10 / math.pi) * sp / 2))
        y.append(v)
    return np.array(y)


def check(mon, c):
    import tftb.generators as g
    kind, n, t0, sp = c["kind"], c["n"], c["t0"], c["spread"]
    fn = getattr(g, kind.split("_")[0])
    kw = {}
    if t0 is not None:
        kw["t0"] = t0
    if sp is not None:
        kw["spread"] = sp
    if kind == "amexpos_u":
        kw["kind"] = "unilateral"
        mon.saw("unilateral")
    elif kind == "amexpos" and n % 2:
        kw["kind"] = "bilateral"
    if kind == "amexpos_u" and t0 is not None and t0 < 0 and sp is not None and -t0 / sp > 300:
        return
    y = mon.call(fn, n, **kw)
    mon.saw(kind.split("_")[0])
    if not kw or set(kw) == {"kind"}:
        mon.saw("default")
    if t0 is not None:
        if t0 < 0 or t0 > n:
            mon.saw("t0 outside")
        if t0 != int(t0):
            mon.saw("t0 between")
    mon.shape(y, (n,), kind)
    ref = reference(kind, n, t0, sp)
    got = np.asarray(y).astype(float)
    if kind == "amrect":
        # samples within rounding of the edge may fall either way
        s = 2 * math.sqrt(n) if sp is None else sp
        tt = round(n / 2.0) if t0 is None else t0
        edge = 0.5 * s * math.sqrt(3 / math.pi)
        m = np.abs(np.abs(np.arange(n) - tt) - edge) > 1e-9 * (1 + abs(edge))
        mon.ok(np.array_equal(got[m], ref[m]), kind + ":values", lambda: "t0=%r spread=%r: %s vs %s" % (tt, s, np.nonzero(got)[0][[0, -1]] if got.any() else [], np.nonzero(ref)[0]))
    else:
        mon.close(got, ref, kind, rtol=1e-10, scale=max(1.0, np.abs(ref).max()) if kind != "amexpos_u" else np.abs(ref).max() or 1.0)
        if np.any(ref > 0) and kind != "amtriang":
            # relative accuracy in the tails too
            m = ref > 1e-250
            mon.close(got[m] / ref[m], np.ones(m.sum()), kind + ":tails", rtol=1e-6)
