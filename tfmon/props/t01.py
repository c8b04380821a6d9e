import numpy as np
from tfmon import signals as S, ref
ID = "T01"
RULE = "Signal kind x length 1..~600 x bin count (below, at, above the length) x odd window (default, short, longer than the signal, complex, asymmetric); every entry of the matrix is compared with the defining sum, plus linearity and the column-sum identity. Some records are longer than any a test uses."
REQUIRED = {"default window": 40, "window longer than n_fbins": 30, "window longer than signal": 30, "complex window": 15, "n_fbins < n": 40, "n_fbins > n": 40, "odd n_fbins": 80, "even n_fbins": 80, "linearity": 100, "column sums": 60, "time labels": 40, "2-D column": 10, "long record": 8}


def cases(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 90) if rng.random() < 0.9 else S.pick_len(rng, 90, 600)
        nf = rng.choice([None, None, 1, 1, 1, 1])
        nf = None if nf is None else S.pick_fbins(rng, n)
        c = dict(x=S.pick_signal(rng, n), y=S.pick_signal(rng, n), nf=nf, w=None, lab=rng.choice([None, None, "unit", "offset", "int"]), col=rng.random() < 0.08)
        if rng.random() < 0.75:
            c["w"] = S.pick_window(rng, n, nf or n, kinds=("hamming", "rect", "gauss", "asym", "signed", "hann", "complex"))
        out.append(c)
    for n, nf in S.long_sizes(rng):
        out.append(dict(x=S.pick_signal(rng, n), y=S.pick_signal(rng, n), nf=nf, lab=None, col=False, long=1, w=rng.choice([None, dict(kind=rng.choice(["hamming", "gauss", "asym"]), L=2 * rng.randint(1, 40) + 1, seed=rng.randint(0, 999))]) if nf else None))
    return out


def check(mon, c):
    from tftb.processing import ShortTimeFourierTransform as F
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    kw = {}
    if c["nf"] is not None:
        kw["n_fbins"] = nf
    if c["w"] is None:
        mon.saw("default window")
        h = S.hamming(S.default_odd(nf))
    else:
        h = kw["fwindow"] = S.window(c["w"])
        if c["w"]["kind"] == "complex":
            mon.saw("complex window")
    if len(h) > nf:
        mon.saw("window longer than n_fbins")
    if len(h) > n:
        mon.saw("window longer than signal")
    mon.saw("n_fbins < n" if nf < n else "n_fbins > n" if nf > n else "n_fbins = n")
    mon.saw("odd n_fbins" if nf % 2 else "even n_fbins")
    lab = c["lab"]
    if c.get("long"):
        mon.saw("long record")
    ts = np.arange(n)
    if lab is not None:
        mon.saw("time labels")
        ts = kw["timestamps"] = {"unit": np.linspace(0, 1, n), "offset": np.arange(n) * 0.5 + 3.0, "int": np.arange(n) + 7}[lab]
    arg = x
    if c["col"]:
        mon.saw("2-D column")
        arg = x.reshape(-1, 1)
    tfr, t, f = mon.call(lambda: F(arg, **kw).run(), _name="ShortTimeFourierTransform.run")
    want, _, _, _ = ref.stft(x, nf, h, np.arange(n))
    sc = max(np.abs(want).max(), np.abs(x).max() * np.abs(h).sum() * 1e-3)
    mon.close(tfr, want, "stft", rtol=1e-9, scale=sc)
    mon.close(t, ts, "stft:timestamps", rtol=1e-12)
    mon.close(f, ref.fftfreq_two_sided(nf), "stft:frequencies", rtol=1e-12, scale=1.0)
    # linearity, on the real code
    y = S.make(c["y"])
    a, b = 0.7 - 0.2j, -1.3 + 0.4j
    ty = mon.call(lambda: F(y, **kw).run(), _name="ShortTimeFourierTransform.run")[0]
    ta = mon.call(lambda: F(a * x + b * y, **kw).run(), _name="ShortTimeFourierTransform.run")[0]
    mon.close(ta, a * tfr + b * ty, "stft:linear", rtol=1e-9, scale=(np.abs(x).max() + np.abs(y).max()) * 2 * np.abs(h).sum())
    mon.saw("linearity")
    mon.saw("column sums")
    mon.close(tfr.sum(0), nf * np.conj(h[(len(h) - 1) // 2]) * x, "stft:column sums", rtol=1e-9, scale=nf * np.abs(x).max() * max(1.0, np.abs(h).sum()))
