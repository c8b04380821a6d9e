import numpy as np
from tfmon import signals as S, ref
ID = "T02"
RULE = "Signal kind x length x bin count x odd window x instant selection (all, subset, reversed, repeated, single); every entry compared with the defining sum; sign, column energy and Spectrogram/STFT agreement judged. Some records are longer than any a test uses."
REQUIRED = {"subset instants": 80, "reversed": 5, "default window": 40, "window longer than signal": 30, "interior vs STFT": 60, "column energy": 60, "long record": 8}


def cases(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 90) if rng.random() < 0.9 else S.pick_len(rng, 90, 600)
        nf = None if rng.random() < 0.3 else S.pick_fbins(rng, n)
        c = dict(x=S.pick_signal(rng, n), nf=nf, w=None, t=S.pick_instants(rng, n))
        if rng.random() < 0.7:
            c["w"] = S.pick_window(rng, n, nf or n, kinds=("hamming", "rect", "gauss", "asym", "signed", "complex"))
        out.append(c)
    for n, nf in S.long_sizes(rng):
        out.append(dict(x=S.pick_signal(rng, n), nf=nf, t=None, long=1, w=rng.choice([None, dict(kind=rng.choice(["hamming", "gauss", "asym"]), L=2 * rng.randint(1, 40) + 1, seed=rng.randint(0, 999))]) if nf else None))
    return out


def check(mon, c):
    from tftb.processing import Spectrogram, ShortTimeFourierTransform
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    kw = {}
    if c["nf"] is not None:
        kw["n_fbins"] = nf
    if c["w"] is None:
        mon.saw("default window")
        h = S.hamming(S.default_odd(nf))
    else:
        h = kw["fwindow"] = S.window(c["w"])
    if len(h) > n:
        mon.saw("window longer than signal")
    if c.get("long"):
        mon.saw("long record")
    t = np.arange(n)
    if c["t"] is not None:
        t = kw["timestamps"] = S.instants(c["t"])
        mon.saw("subset instants")
        if len(t) > 1 and t[0] > t[-1]:
            mon.saw("reversed")
    tfr, tt, ff = mon.call(lambda: Spectrogram(x, **kw).run(), _name="Spectrogram.run")
    want = ref.spectrogram(x, nf, h, t)
    mx = np.abs(x).max() ** 2
    mon.ok(tfr.dtype.kind == "f", "spectrogram:real", "dtype %s" % tfr.dtype)
    mon.close(tfr, want, "spectrogram", rtol=1e-9, scale=max(want.max(), mx * 1e-3))
    mon.ok(np.all(tfr >= 0), "spectrogram:non-negative")
    mon.close(tt, t, "spectrogram:timestamps")
    mon.close(ff, ref.fftfreq_two_sided(nf), "spectrogram:frequencies", rtol=1e-12, scale=1.0)
    S_, okm, tau, w = ref.stft(x, nf, h, t)
    v, _ = ref._taps(x, t, tau)
    e = (np.abs(w)[:, None] ** 2 * okm).sum(0)
    loc = (np.abs(v * w[:, None]) ** 2).sum(0) / e
    mon.close(tfr.mean(0), loc, "spectrogram:column energy", rtol=1e-9, scale=max(loc.max(), mx * 1e-3))
    mon.saw("column energy")
    full = np.all(okm, axis=0)
    if full.any():
        mon.saw("interior vs STFT")
        kw2 = {k: v for k, v in kw.items() if k != "timestamps"}
        st = mon.call(lambda: ShortTimeFourierTransform(x, **kw2).run(), _name="ShortTimeFourierTransform.run")[0]
        mon.close(tfr[:, full] * np.sum(np.abs(w) ** 2), np.abs(st[:, t[full]]) ** 2, "spectrogram:|stft|^2", rtol=1e-8, scale=max(np.abs(st).max() ** 2, 1e-3 * mx * e.max()))
