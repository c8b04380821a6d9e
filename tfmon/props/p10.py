import contextlib
import numpy as np
from tfmon import signals as S, ref
from tfmon.props import _api as A
ID = "P10"
RULE = "Every representation class x kind (cmap, contour, surf, wireframe) x show_tf x threshold x sqmod x annotation x own axes or given axes x timestamps (subset, unsorted) x own extent, contour axes, colours, levels (also logarithmic), spectrum; the image array and extent, the data handed to the contour and surface routines, the lines, labels and titles are read back from matplotlib and compared with values computed from run()'s result; plotifl likewise."
REQUIRED = {"cmap": 300, "contour": 200, "surf": 60, "wireframe": 60, "levels given": 60, "show_tf": 150, "given axes": 60, "thresholded": 200, "threshold 0": 60, "threshold 1": 20, "no annotation": 100, "subset instants": 60, "plotifl": 60, "sqmod given": 100, "unsorted instants": 20, "affine spectrum": 60, "logarithmic levels": 30, "logarithmic levels over zeros": 5, "own axes or colours given": 150, "given spectrum": 60}
REQUIRED.update({n: 30 for n in A.COHEN + A.AFFINE})
WV = ("WignerVilleDistribution", "PseudoWignerVilleDistribution")
TITLE = {"ShortTimeFourierTransform": "stft"}


def cases(tier, rng):
    out = []
    for i in range(30 if tier == "quick" else 70):
        for name in A.COHEN + A.AFFINE:
            out.append(dict(name=name, seed=rng.randint(0, 10 ** 6), kind=rng.choice([None, "cmap", "cmap", "contour", "contour", "surf", "wireframe"]), tf=rng.choice([None, False, True]), thr=rng.choice([None, None, None, 0.0, 0.0, 0.2, 0.2, 0.6, 0.6, 1.0]), ann=rng.choice([None, None, True, False]),
                            sq=rng.choice([None, None, True, False]), ax=rng.random() < 0.25, lev=rng.random() < 0.3, log=rng.random() < 0.5, own=rng.random() < 0.3))
    for i in range(40 if tier == "quick" else 100):
        out.append(dict(name="plotifl", seed=rng.randint(0, 10 ** 6), n=rng.randint(2, 60), laws=rng.choice([1, 2, 3]), neg=rng.random() < 0.4, nan=rng.random() < 0.4, sig=rng.random() < 0.4))
    return out


@contextlib.contextmanager
def recording():
    """matplotlib's contour routines keep no copy of their data: note what they are given."""
    from matplotlib.axes import Axes
    seen = []
    keep = {}
    from mpl_toolkits.mplot3d import Axes3D
    for cl, nm in ((Axes, "contour"), (Axes, "contourf"), (Axes3D, "plot_surface"), (Axes3D, "plot_wireframe")):
        orig = keep[cl, nm] = getattr(cl, nm)

        def wrap(self, *a, _o=orig, _n=nm, **k):
            levels = k.get("levels", a[3] if len(a) > 3 else None)
            seen.append((self, [np.array(v) if isinstance(v, np.ndarray) else v for v in a], levels, _n))
            return _o(self, *a, **k)
        setattr(cl, nm, wrap)
    try:
        yield seen
    finally:
        for (cl, nm), f in keep.items():
            setattr(cl, nm, f)


def check(mon, c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        with recording() as seen:
            (ifl if c["name"] == "plotifl" else rep)(mon, c, plt, seen)
    finally:
        plt.close("all")


def ifl(mon, c, plt, seen):
    from tftb.processing import plotifl
    r = S._rs(c["seed"])
    n = c["n"]
    t = np.arange(n) + int(r.randint(4))
    F = r.uniform(0, 0.5, (n, c["laws"]))
    if c["neg"]:
        F[r.randint(n), r.randint(c["laws"])] = -0.3
    if c["nan"]:
        F[r.randint(n), r.randint(c["laws"])] = np.nan
    if np.isnan(F).all():
        return
    if c["laws"] == 1 and r.rand() < 0.5:
        F = F[:, 0]
    sig = r.randn(n) + 1j * r.randn(n) if c["sig"] else None
    mon.saw("plotifl")
    keep = F.copy()
    mon.call(plotifl, t, F, **({} if sig is None else dict(signal=sig)))
    lines = [l for a in plt.gcf().axes for l in a.lines]
    cols = keep.reshape(n, -1).T
    for col in cols:
        mon.ok(any(np.array_equal(np.asarray(l.get_ydata(), float), col, equal_nan=True) and np.array_equal(l.get_xdata(), t) for l in lines), "plotifl:law", "a law is not drawn")
    if sig is not None:
        mon.ok(any(np.array_equal(np.asarray(l.get_ydata(), float), sig.real) for l in lines), "plotifl:signal", "the signal is not drawn")
    ax = [a for a in plt.gcf().axes if any(np.array_equal(np.asarray(l.get_ydata(), float), cols[0], equal_nan=True) for l in a.lines)][0]
    want = (-0.5, 0.5) if np.nanmin(keep) < 0 else (0, 0.5)
    for a in plt.gcf().axes:
        for l in a.lines:
            xs, (x0, x1) = np.asarray(l.get_xdata(), float), a.get_xlim()
            mon.ok(min(x0, x1) <= xs.min() and xs.max() <= max(x0, x1), "plotifl:in view", lambda: "drawn over %g..%g, shown %g..%g" % (xs.min(), xs.max(), x0, x1))
    mon.ok(tuple(ax.get_ylim()) == want, "plotifl:range", lambda: "%r, expected %r" % (ax.get_ylim(), want))


def rep(mon, c, plt, seen):
    name = c["name"]
    r = np.random.RandomState(c["seed"])
    cls, x, kw = A.ctor(name, r)
    if c["log"] and name in WV and len(x) >= 6:     # silence: whole columns of exact zeros
        x = np.array(x)
        x[:len(x) // 3] = 0
    x = x * r.choice([1.0, 1.0, 1.0, 1.0 / 64, 64.0, 2.0 ** -24, 2.0 ** 20])
    kw.pop("fwindow", None)
    if "n_fbins" in kw:
        kw["n_fbins"] = max(6, kw["n_fbins"])
    if name in A.AFFINE and r.rand() < 0.6:
        kw["n_voices"] = int(r.choice([8, 15, 16, 24, 33, 64]))
    if "timestamps" in kw and len(kw["timestamps"]) < 3:
        kw.pop("timestamps")
    kind = c["kind"] or ("contour" if name in A.AFFINE or name == "PseudoWignerVilleDistribution" else "cmap")
    if kind == "contour" and c["thr"] == 1:
        kind, c = "cmap", dict(c, kind="cmap")
    if kind in ("surf", "wireframe"):
        c = dict(c, tf=False)
    tf = c["tf"] if c["tf"] is not None else name in A.AFFINE
    if kind == "cmap" and name in A.COHEN and name not in A.ALL_SAMPLES and r.rand() < 0.3:
        kw["timestamps"] = r.permutation(len(x))[:r.randint(3, len(x))]
        mon.saw("unsorted instants")
    t = kw.get("timestamps", np.arange(len(x)))
    if len(t) < len(x):
        mon.saw("subset instants")
    o = mon.call(cls, x, **kw, _name=name)
    res = mon.call(o.run, _name=name + ".run")
    tfr, ff = np.array(res[0]), np.ravel(res[2])
    if name == "Scalogram":
        tfr = np.array(o.tfr)
    mon.saw(name)
    k = dict(show=False)
    for key, par in (("kind", "kind"), ("tf", "show_tf"), ("thr", "threshold"), ("ann", "default_annotation")):
        if c[key] is not None:
            k[par] = c[key]
    sqok = name in A.COHEN and name != "Spectrogram"
    if c["sq"] is not None and sqok:
        k["sqmod"] = c["sq"]
        mon.saw("sqmod given")
    # what should be drawn
    rows = tfr.shape[0]
    if c["lev"] and kind == "contour":
        k["levels"] = np.sort(r.uniform(0.2, 0.9, 3)) * max(abs(tfr).max() ** 2, 1e-30)
        mon.saw("levels given")
    half = name in A.COHEN and name not in WV
    V = tfr[:rows // 2] if half else tfr
    if name in WV:
        V = np.abs(V) ** 2 if k.get("sqmod") else np.abs(V)
    elif name == "ShortTimeFourierTransform":
        V = np.abs(V) ** (2 if k.get("sqmod", True) else 1)
    elif half and name != "Spectrogram":
        V = np.abs(V) ** 2 if k.get("sqmod", True) else V.copy()
    thr = c["thr"] if c["thr"] is not None else (0.0 if name == "Spectrogram" else 0.05)
    lim = V.max() * thr
    if thr == 1:        # nothing exceeds the maximum
        mon.saw("threshold 1")
    elif np.any(np.abs(V - lim) < 1e-12 * abs(V).max()) and thr:
        return
    if np.ptp(V) == 0:
        return
    W = np.where(V <= lim, 0.0, V)
    pos = np.unique(W[W > 0])
    log = c["log"] and name in WV and kind == "contour" and pos.size > 1 and pos[-1] > pos[0] * (1 + 1e-6)
    if log:
        k.pop("levels", None)
        k["scale"] = "log"
        mon.saw("logarithmic levels")
        if thr == 0 and (W == 0).any():
            mon.saw("logarithmic levels over zeros")
    spec = None
    if c["own"]:
        mon.saw("own axes or colours given")
        if kind == "cmap":
            k["cmap"] = plt.cm.jet
            k["extent"] = [1.0, 3.5, 0.25, 7.0]
        elif kind == "contour":
            k["contour_x"] = np.linspace(-1, 2, len(t))
            k["contour_y"] = np.linspace(3, 4, len(W)) ** 2
        if tf:
            m = len(x) // 2
            k["freq_x"], k["freq_y"] = spec = r.uniform(0, 3, m), np.arange(m) * (0.5 / m if name in A.AFFINE else 1)
    mon.saw("thresholded" if thr else "threshold 0")
    given = None
    if c["ax"] and not tf and kind in ("cmap", "contour"):
        fig, axs = plt.subplots(1, 2)
        given = k["ax"] = axs[1]
        mon.saw("given axes")
    mon.call(o.plot, _name=name + ".plot", **k)
    fig = plt.gcf()
    if kind == "cmap":
        mon.saw("cmap")
        imgs = [(a, im) for a in fig.axes for im in a.images]
        mon.ok(len(imgs) == 1, name + ":image", "%d images drawn" % len(imgs))
        ax, im = imgs[0]
        got = np.asarray(im.get_array(), dtype=float)
        mon.close(got, W, name + ":image", rtol=1e-9)
        e = im.get_extent()
        if "extent" in k:
            mon.close(np.array(e, float), np.array(k["extent"]), name + ":given extent")
            mon.ok(im.get_cmap().name == "jet", name + ":given colours", lambda: im.get_cmap().name)
        else:
            mon.close(np.array(e[:2], float), np.array([t.min(), t.max()], float), name + ":time range", rtol=0, scale=1, atol=1e-9)
        mon.ok(im.origin == "lower", name + ":orientation", "origin %s" % im.origin)
        if "extent" in k:
            pass
        elif name in A.COHEN:
            step = 0.5 / rows if name in WV else 1.0 / rows
            mon.ok(abs(e[2]) < 1e-9 and 0.5 - 1.6 * step <= e[3] <= 0.5 + 1e-9, name + ":frequency range", lambda: "%r" % (e,))
        else:
            mon.close(np.array(e[2:], float), np.array([ff[0], ff[-1]]), name + ":frequency range", rtol=1e-9, scale=0.5)
    else:
        mon.saw(kind)
        mon.ok(len(seen) == 1 and kind in seen[0][3].replace("surface", "surf"), name + ":contour", lambda: "%r drawn" % [v[3] for v in seen])
        ax, a, levels = seen[0][:3]
        if "levels" in k:
            mon.close(np.asarray(levels, float), k["levels"], name + ":levels")
        if log:
            lv = np.asarray(levels, float)
            mon.ok(lv.ndim == 1 and len(lv) > 2 and np.all(lv > 0) and np.ptp(np.diff(np.log(lv))) < 1e-8 * abs(np.log(lv)).max(), name + ":logarithmic levels", lambda: "not geometric: %s" % lv[:4])
            mon.ok(abs(lv[-1] / pos[-1] - 1) < 1e-9 and pos[-1] * thr * (1 - 1e-9) <= lv[0] <= pos[0] * (1 + 1e-9), name + ":logarithmic range", lambda: "%g..%g for values %g..%g" % (lv[0], lv[-1], pos[0], pos[-1]))
        elif levels is not None and "levels" not in k:
            lv = np.asarray(levels, float)
            mon.saw("levels of the library's choice")
            mon.ok(lv.size and W.min() - 1e-9 * W.max() <= lv.min() and 0.5 * W.max() < lv.max() <= W.max() * (1 + 1e-9), name + ":levels over the values", lambda: "%g..%g for values %g..%g" % (lv.min(), lv.max(), W.min(), W.max()))
        mon.ok(len(a) >= 3, name + ":contour arguments", "%d" % len(a))
        X, Y, Z = [np.asarray(v) for v in a[:3]]
        mon.close(Z, np.abs(W) if kind in ("surf", "wireframe") else W, name + ":contour", rtol=1e-9)
        mon.close(X if X.ndim == 1 else X[0], k.get("contour_x", t), name + ":contour instants")
        y = Y if Y.ndim == 1 else Y[:, 0]
        if "contour_y" in k:
            mon.close(y, k["contour_y"], name + ":given contour frequencies")
        elif name in A.AFFINE:
            mon.close(y, ff, name + ":contour frequencies", rtol=1e-9, scale=0.5)
        else:
            # the positive half, labelled k/rows or stretched to end at exactly 1/2
            step = 0.5 / len(W)
            mon.ok(len(y) == len(W) and np.all(np.diff(y) > 0) and np.all(np.abs(y - step * np.arange(len(W))) <= 1.6 * step), name + ":contour frequencies", lambda: "%r" % y[:3])
    if given is not None:
        mon.ok(ax is given, name + ":given axes", "drawn elsewhere")
    ann = c["ann"] is not False
    if ann:
        mon.ok("time" in ax.get_xlabel().lower() and "frequency" in ax.get_ylabel().lower(), name + ":labels", lambda: "%r %r" % (ax.get_xlabel(), ax.get_ylabel()))
        mon.ok(ax.get_title().lower() == str(o.name).lower() and o.name, name + ":title", lambda: ax.get_title())
    else:
        mon.saw("no annotation")
        mon.ok(not ax.get_xlabel() and not ax.get_ylabel() and not ax.get_title(), name + ":unwanted annotation", lambda: "%r %r %r" % (ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
    if tf:
        mon.saw("show_tf")
        lines = [l for a in fig.axes for l in a.lines]
        mon.ok(any(len(l.get_ydata()) == len(x) and np.allclose(l.get_ydata(), np.real(x), rtol=1e-12, atol=1e-12) for l in lines), name + ":signal line", "the real part of the signal is not drawn")
        others = [l for l in lines if not (len(l.get_ydata()) == len(x) and np.allclose(l.get_ydata(), np.real(x)))]
        mon.ok(len(others) >= 1, name + ":spectrum line", "no spectrum drawn")
        if spec is not None:
            mon.ok(any(np.array_equal(np.asarray(l.get_xdata(), float), spec[0]) and np.array_equal(np.asarray(l.get_ydata(), float), spec[1]) for l in others), name + ":given spectrum", "the given spectrum is not drawn")
            mon.saw("given spectrum")
        elif name in A.AFFINE:
            # a line of (energy spectrum, frequency) pairs, on an axis that shows the band
            seg = np.real(x)[int(np.min(t)):int(np.max(t)) + 1]
            ok = False
            for l in others:
                px, py = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                if len(py) < 8 or not np.all(np.diff(py) > 0) or py[0] < -1e-9 or py[-1] > 0.5 + 1e-9:
                    continue
                D = np.abs(np.exp(-2j * np.pi * np.outer(py, np.arange(len(seg)))).dot(seg)) ** 2
                lo, hi = sorted(l.axes.get_ylim())
                ok = ok or (np.allclose(px, D, rtol=1e-6, atol=1e-6 * D.max()) and lo <= ff[0] + 1e-9 and hi >= ff[-1] - 1e-9 and hi - lo < 1)
            mon.ok(ok, name + ":spectrum line", "no line shows the energy spectrum over the band's frequencies")
            mon.saw("affine spectrum")
        if name in A.COHEN and spec is None:
            n = len(x)
            E = np.abs(np.fft.fft(x)) ** 2
            pos = E[1:(n + 1) // 2] if n % 2 else E[:n // 2]
            mon.ok(any(len(l.get_xdata()) == len(pos) and (np.allclose(l.get_xdata(), pos[::-1], rtol=1e-9, atol=1e-12 * E.max()) or np.allclose(l.get_xdata(), pos, rtol=1e-9, atol=1e-12 * E.max())) for l in others),
                   name + ":spectrum line", "the positive-frequency energy spectrum is not drawn")
