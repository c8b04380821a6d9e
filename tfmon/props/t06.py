import numpy as np
from tfmon import signals as S, ref
ID = "T06"
RULE = "Margenau-Hill / Page / their pseudo forms x signal x length x bin count x odd window x instants; every entry compared with the defining sum; marginals judged. Some records are longer than any a test uses."
REQUIRED = {"mh": 100, "pmh": 100, "ppage": 100, "page": 100, "page:n_fbins < n": 20, "subset instants": 100, "default window": 40, "row marginal": 20, "window longer than signal": 20, "n_fbins > n": 40, "long record": 30}


def cases(tier, rng):
    out = []
    for i in range(800 if tier == "quick" else 3600):
        n = S.pick_len(rng, 1, 90) if rng.random() < 0.9 else S.pick_len(rng, 90, 400)
        kind = ["mh", "pmh", "ppage", "page"][i % 4]
        nf = None if rng.random() < 0.3 else S.pick_fbins(rng, n)
        if kind == "mh" and nf is not None:
            nf = max(n, nf)
        c = dict(kind=kind, x=S.pick_signal(rng, n), nf=nf, w=None, t=S.pick_instants(rng, n))
        if kind in ("pmh", "ppage") and rng.random() < 0.7:
            c["w"] = S.pick_window(rng, n, nf or n, kinds=("hamming", "rect", "gauss", "asym", "signed", "hann", "complex"))
        out.append(c)
    for n, nf in S.long_sizes(rng):
        for kind in ["mh", "pmh", "ppage", "page"]:
            n = min(n, 1100) if kind == "mh" else n
            t = None if kind in ("pmh", "ppage") and nf else sorted(rng.randrange(n) for _ in range(20))
            out.append(dict(kind=kind, x=S.pick_signal(rng, n), nf=None if nf is None else max(n, nf) if kind == "mh" else nf, w=None, t=t, long=1))
    return out


def check(mon, c):
    from tftb.processing import cohen as P
    kind = c["kind"]
    cls = dict(mh=P.MargenauHillDistribution, pmh=P.PseudoMargenauHillDistribution, ppage=P.PseudoPageRepresentation, page=P.PageRepresentation)[kind]
    mon.saw(kind)
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    kw = {} if c["nf"] is None else dict(n_fbins=nf)
    t = np.arange(n)
    if c["t"] is not None:
        mon.saw("subset instants")
        t = kw["timestamps"] = S.instants(c["t"])
    if c.get("long"):
        mon.saw("long record")
    if nf > n:
        mon.saw("n_fbins > n")
    if kind in ("pmh", "ppage"):
        if c["w"] is None:
            mon.saw("default window")
            h = S.hamming(S.default_odd(nf))
            h = h / h[(len(h) - 1) // 2]
        else:
            h = kw["fwindow"] = S.window(c["w"])
        if len(h) > n:
            mon.saw("window longer than signal")
    tfr, tt, ff = mon.call(lambda: cls(x, **kw).run(), _name=cls.__name__ + ".run")
    mon.ok(tfr.dtype.kind == "f", kind + ":real", "dtype %s" % tfr.dtype)
    mx = np.abs(x).max() ** 2
    if kind == "mh":
        want = ref.rihaczek(x, nf, t, full=True).real
        hc = 1.0
    elif kind == "page":
        if nf < n:
            mon.saw("page:n_fbins < n")
        want = ref.rihaczek(x, nf, t, past_only=True).real
        hc = 1.0
    else:
        want = ref.rihaczek(x, nf, t, h, past_only=(kind == "ppage")).real
        hc = np.real(h[(len(h) - 1) // 2])
        mx = mx * np.abs(h).max()
    mon.close(tfr, want, kind, rtol=1e-9, scale=max(np.abs(want).max(), mx))
    mon.close(tt, t, kind + ":timestamps")
    mon.close(ff, ref.fftfreq_two_sided(nf), kind + ":frequencies", rtol=1e-12, scale=1.0)
    mon.close(tfr.mean(0), hc * np.abs(x[t]) ** 2, kind + ":column means", rtol=1e-9, scale=mx)
    if kind == "mh" and c["t"] is None:
        mon.saw("row marginal")
        E = np.abs(np.exp(-2j * np.pi * (np.outer(np.arange(nf), np.arange(n)) % nf) / nf) @ x) ** 2
        mon.close(tfr.sum(1), E, "mh:row sums", rtol=1e-9, scale=max(E.max(), mx))
