import numpy as np
ID = "G06"
RULE = "Keying generator x (n_points, n_comp, carrier, alphabet size) x random stream; block structure, alphabet, and signal = modulation x carrier judged on every sample; symbol statistics pooled."
REQUIRED = {"ragged last block": 100, "n_comp > n": 20, "default n_comp": 50, "float n_comp": 40, "statistics": 8, "million symbols": 6}


def cases(tier, rng):
    out = []
    ns = list(range(1, 41)) + [64, 100, 101, 127, 128, 256, 300, 512, 1000]
    if tier == "thorough":
        ns = list(range(1, 250)) + [256, 300, 500, 511, 512, 777, 1000, 1024, 2048, 4001]
    for kind in ("ask", "bpsk", "fsk", "qpsk"):
        for n in ns:
            ncs = [None, 1, n, rng.randint(1, n), rng.randint(1, n), n + rng.randint(1, 9), float(rng.randint(1, n)), max(1, n // 3), 2, 3, 7]
            if tier == "quick":
                ncs = [None] + rng.sample(ncs[1:], 6)
            for nc in ncs:
                out.append(dict(kind=kind, n=n, nc=nc, f0=rng.choice([None, 0.0, 0.5, rng.uniform(0, 0.5), rng.uniform(0, 0.5)]),
                                nbf=rng.choice([None, 1, 2, 3, 4, 5, 5.0, 7, 8, 16]), seed=rng.randint(0, 2 ** 31)))
        for _ in range(3 if tier == "quick" else 12):
            out.append(dict(kind=kind, n=60000, nc=rng.choice([1, 2, 3]), f0=0.1, nbf=rng.choice([2, 3, 4, 5, 8]), seed=rng.randint(0, 2 ** 31), stat=1))
        for nbf in ([4] if kind != "fsk" else [3, 4, 8]):
            out.append(dict(kind=kind, n=1000000, nc=1, f0=0.1, nbf=nbf, seed=rng.randint(0, 2 ** 31), stat=2))
    return out


def check(mon, c):
    import tftb.generators as g
    kind, n, nc = c["kind"], c["n"], c["nc"]
    np.random.seed(c["seed"])
    fn = dict(ask=g.anaask, bpsk=g.anabpsk, fsk=g.anafsk, qpsk=g.anaqpsk)[kind]
    kw = {}
    nbf = 4 if c["nbf"] is None else c["nbf"]
    if nc is not None:
        kw["n_comp"] = nc
    if kind == "fsk":
        if c["nbf"] is not None:
            kw["Nbf"] = c["nbf"]
    elif c["f0"] is not None:
        kw["f0"] = c["f0"]
    y, mod = mon.call(fn, n, **kw)
    mon.shape(y, (n,), kind)
    mon.shape(mod, (n,), kind + ":modulation")
    mod = np.asarray(mod, float)
    if nc is None:
        mon.saw("default n_comp")
        L = max(int(round(n / (2.0 if kind == "ask" else 5.0))), 1)
    else:
        L = int(nc)
        if isinstance(nc, float):
            mon.saw("float n_comp")
    if n % L:
        mon.saw("ragged last block")
    if L > n:
        mon.saw("n_comp > n")
    # block structure
    k = np.arange(n)
    sym = mod[::L]
    mon.ok(np.array_equal(mod, sym[k // L]), kind + ":blocks", lambda: "n=%d block=%d changes at %s" % (n, L, np.nonzero(np.diff(mod))[0][:10]))
    f0 = 0.25 if c["f0"] is None else c["f0"]
    tol = 1e-9 + 1e-14 * n
    if kind == "ask":
        mon.ok(np.all((sym >= 0) & (sym < 1)), "ask:alphabet")
        ref = mod * np.exp(2j * np.pi * f0 * (k - 1))
    elif kind == "bpsk":
        mon.ok(np.all(np.isin(sym, (-1.0, 1.0))), "bpsk:alphabet")
        ref = mod * np.exp(2j * np.pi * f0 * (k - 1))
    elif kind == "qpsk":
        q = sym / (np.pi / 2)
        mon.ok(np.all(np.abs(q - np.round(q)) < 1e-9) and np.all((np.round(q) >= 0) & (np.round(q) <= 3)), "qpsk:alphabet", lambda: str(np.unique(sym)))
        ref = np.exp(1j * (2 * np.pi * f0 * (k - 1) + mod))
        sym = np.round(q)
    else:
        grid = 0.25 + 0.25 * (np.arange(int(nbf)) - (nbf - 1) / 2.0) / nbf
        d = np.abs(sym[:, None] - grid[None, :])
        mon.ok(np.all(d.min(1) < 1e-9), "fsk:alphabet", lambda: "%s not in %s" % (np.unique(sym), grid))
        sym = d.argmin(1)
        ref = np.exp(2j * np.pi * np.cumsum(mod))
    mon.close(y, ref, kind + ":signal", rtol=tol, scale=1.0)
    if c.get("stat"):
        mon.saw("statistics" if c["stat"] == 1 else "million symbols")
        m = len(sym)
        if kind == "ask":
            # uniform on [0,1): counts of 10 bins, mean, lag-1 correlation
            counts = np.histogram(sym, 10, (0, 1))[0]
            p = 0.1
            zm = (np.mean(sym) - 0.5) * np.sqrt(12 * m)
            mon.ok(abs(zm) < 7, "ask:mean", lambda: "z=%g" % zm)
        else:
            K = dict(bpsk=2, qpsk=4, fsk=int(nbf))[kind]
            vals = np.unique(sym) if kind == "bpsk" else np.arange(K)
            counts = np.array([np.sum(sym == v) for v in vals])
            mon.ok(len(counts) == K, kind + ":symbols", "only %d of %d symbols drawn" % (len(counts), K))
            p = 1.0 / K
        z = (counts - m * p) / np.sqrt(m * p * (1 - p))
        mon.ok(np.all(np.abs(z) < 7), kind + ":equiprobable", lambda: "z=%s" % z)
        s = sym - sym.mean()
        for lag in (1, 2, 3):
            rho = np.sum(s[lag:] * s[:-lag]) / np.sum(s * s)
            mon.ok(abs(rho) < 7 / np.sqrt(m), kind + ":independent", lambda: "lag %d rho %g" % (lag, rho))
