import numpy as np
from tfmon import signals as S
ID = "P02"
RULE = "Signals x length 3..~500 x instants (default, subsets, unsorted, repeated, row/column vectors); each value compared, modulo the period 1/2, with the phase of x[t]conj(x[t-2]); tones and chirps with known laws; invariance under gain and phase."
REQUIRED = {"default instants": 200, "given instants": 200, "unsorted instants": 30, "tone": 100, "chirp": 100, "near-edge tone": 30, "invariance": 200, "row or column": 50}


def cases(tier, rng):
    out = []
    for i in range(900 if tier == "quick" else 2500):
        n = S.pick_len(rng, 3, 300) if i % 150 != 75 else rng.randint(1000, 20000)
        t = None
        c = rng.random()
        if c < 0.25:
            t = sorted(rng.randrange(2, n) for _ in range(rng.randint(1, 9)))
        elif c < 0.45:
            t = [rng.randrange(2, n) for _ in range(rng.randint(1, 20))]
        elif c < 0.55:
            t = list(range(2, n, rng.randint(1, 5)))
        kind = rng.choice(["any", "tone", "chirp", "edge"])
        c = dict(kind=kind, n=n, t=t, seed=rng.randint(0, 10 ** 6), form=rng.choice(["1d", "1d", "row", "col"]),
                 g=rng.choice([1e-8, 0.3, 7.0, 1e6]), ph=rng.uniform(0, 6))
        c["x"] = S.pick_signal(rng, n, kinds=["cnoise", "tone", "chirp", "twotone", "rnoise"])
        c["f"] = rng.choice([1e-3, 0.499, 0.4999, 2e-4]) if kind == "edge" else rng.uniform(0.002, 0.498)
        c["f1"] = rng.uniform(0.01, 0.49)
        out.append(c)
    return out


def check(mon, c):
    from tftb.processing import inst_freq
    n, kind = c["n"], c["kind"]
    k = np.arange(n)
    if kind == "any":
        x = S.make(c["x"])
    elif kind == "chirp":
        # law f + (f1-f) k/(n-1)
        x = np.exp(2j * np.pi * (c["f"] * k + (c["f1"] - c["f"]) * k ** 2 / (2.0 * max(n - 1, 1))))
        mon.saw("chirp")
    else:
        x = np.exp(2j * np.pi * c["f"] * k)
        mon.saw("tone" if kind == "tone" else "near-edge tone")
    x = np.asarray(x)
    y = x if c["form"] == "1d" else (x[None, :] if c["form"] == "row" else x[:, None])
    if c["form"] != "1d":
        mon.saw("row or column")
    if c["t"] is None:
        mon.saw("default instants")
        f, t = mon.call(inst_freq, y)
        want_t = np.arange(2, n)
    else:
        mon.saw("given instants")
        want_t = np.array(c["t"])
        if np.any(np.diff(want_t) <= 0):
            mon.saw("unsorted instants")
        tv = want_t if c["form"] == "1d" else (want_t[None, :] if c["form"] == "row" else want_t[:, None])
        f, t = mon.call(inst_freq, y, tv)
    mon.close(t, want_t, "instants")
    mon.shape(f, want_t.shape, "inst_freq")
    mon.ok(np.all((f >= 0) & (f <= 0.5)), "range", lambda: "%g..%g" % (f.min(), f.max()))
    p = x[want_t] * np.conj(x[want_t - 2])
    solid = np.abs(p) > 1e-13 * (np.abs(x).max() ** 2)
    want = (np.angle(p) / (4 * np.pi)) % 0.5
    d = np.abs(f - want)
    d = np.minimum(d, 0.5 - d)[solid]
    mon.ok(d.size == 0 or d.max() < 1e-9, "phase advance", lambda: "off by %g" % d.max())
    if kind in ("tone", "edge"):
        mon.close(f, np.full(len(want_t), c["f"]), "tone", rtol=0, scale=1, atol=1e-9)
    if kind == "chirp":
        law = c["f"] + (c["f1"] - c["f"]) * (want_t - 1.0) / max(n - 1, 1)
        mon.close(f, law, "chirp", rtol=0, scale=1, atol=1e-8)
    mon.saw("invariance")
    f2, _ = mon.call(inst_freq, x * c["g"] * np.exp(1j * c["ph"]), want_t)
    d = np.abs(f - f2)
    d = np.minimum(d, 0.5 - d)[solid]
    mon.ok(d.size == 0 or d.max() < 1e-9, "gain and phase invariance", lambda: "differs by %g" % d.max())
