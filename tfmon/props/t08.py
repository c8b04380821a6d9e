import numpy as np
from tfmon import signals as S
from tfmon.props import _api as A
ID = "T08"
RULE = "Every Cohen-class, linear, reassigned, ambiguity and affine representation x drawn signal, window and bin count x one transformation of the signal (delay in zero padding, tone multiplication, conjugation, gain 1e-9..1e9 of any phase): the two results of the real code compared through the law."
COH = ["stft", "spectrogram", "mh", "pmh", "page", "ppage", "wvd", "pwvd", "spwv"]
RE = ["re:spectrogram", "re:pseudo_wigner_ville", "re:pseudo_margenau_hill", "re:pseudo_page", "re:smoothed_pseudo_wigner_ville", "re:morlet_scalogram"]
REQUIRED = {"%s/%s" % (n, l): 12 for n in COH for l in ("delay", "modulation", "conjugation", "gain")}
REQUIRED.update({"%s/%s" % (n, l): 12 for n in RE for l in ("delay", "gain")})
REQUIRED.update({"%s/%s" % (n, l): 12 for n in RE[:5] for l in ("modulation", "conjugation")})
REQUIRED.update({n + "/gain": 6 for n in A.AFFINE + ["gabor", "narrow_band", "wide_band"]})
CLS = dict(page="PageRepresentation", stft="ShortTimeFourierTransform", spectrogram="Spectrogram", mh="MargenauHillDistribution", pmh="PseudoMargenauHillDistribution", ppage="PseudoPageRepresentation",
           wvd="WignerVilleDistribution", pwvd="PseudoWignerVilleDistribution")
WV = ("wvd", "pwvd", "spwv", "re:pseudo_wigner_ville", "re:smoothed_pseudo_wigner_ville")


def cases(tier, rng):
    out = []
    for i in range(14 if tier == "quick" else 40):
        for n in COH + RE:
            for law in ("delay", "modulation", "conjugation", "gain"):
                if n == "re:morlet_scalogram" and law in ("modulation", "conjugation"):
                    continue
                out.append(dict(rep=n, law=law, seed=rng.randint(0, 10 ** 6)))
        for n in A.AFFINE + ["gabor", "narrow_band", "wide_band"]:
            out.append(dict(rep=n, law="gain", seed=rng.randint(0, 10 ** 6)))
    return out


def runner(mon, rep, r, n, nf):
    """(call(x) -> list of results, margin in columns)"""
    if rep in CLS:
        cls = A.klass(CLS[rep])
        kw = dict(n_fbins=nf)
        m = 0
        if rep not in ("mh", "page", "wvd"):
            L = 2 * r.randint(1, max(2, min(n, nf) // 5)) + 1
            kw["fwindow"] = S.window(dict(kind=["hamming", "gauss", "asym"][r.randint(3)], L=L, seed=r.randint(1000)))
            m = L // 2 if rep == "spectrogram" else 0
        return (lambda x: [mon.call(lambda: cls(x, **kw).run(), _name=CLS[rep] + ".run")[0]]), m
    if rep == "spwv":
        from tftb.processing import smoothed_pseudo_wigner_ville as F
        h = S.window(dict(kind="hamming", L=2 * r.randint(1, max(2, nf // 6)) + 1))
        g = S.window(dict(kind=["rect", "gauss"][r.randint(2)], L=2 * r.randint(0, 4) + 1))
        return (lambda x: [mon.call(F, x, freq_bins=nf, twindow=g, fwindow=h)]), len(g) // 2 + len(h) // 2
    import tftb.processing.reassigned as R
    m = rep[3:]
    fn = getattr(R, m)
    kw = dict(n_fbins=nf)
    margin = 0
    if m != "morlet_scalogram":
        L = 2 * r.randint(1, max(2, nf // 8)) + 1
        kw["window" if m == "spectrogram" else "fwindow"] = S.window(dict(kind=["hamming", "gauss"][r.randint(2)], L=L))
        margin = L // 2
    if m == "smoothed_pseudo_wigner_ville":
        g = kw["twindow"] = S.window(dict(kind="hamming", L=2 * r.randint(1, 4) + 1))
        margin += len(g) // 2
    if m == "morlet_scalogram":
        margin = None
    return (lambda x: list(mon.call(fn, x, **kw))), margin


def near(mon, a, b, key, tol=1e-8):
    sc = max(np.abs(a).max(), np.abs(b).max())
    mon.close(a, b, key, rtol=tol, scale=sc)


def check(mon, c):
    rep, law = c["rep"], c["law"]
    r = S._rs(c["seed"])
    key = "%s/%s" % (rep, law)
    if rep in A.AFFINE + ["gabor", "narrow_band", "wide_band"]:
        return other_gain(mon, rep, r, key)
    n = int(r.randint(20, 40)) if r.rand() < 0.97 or rep == "re:morlet_scalogram" else int(r.randint(90, 200))
    nf = int(r.choice([n, n + r.randint(1, 12)])) if rep in ("mh", "page", "ppage", "re:morlet_scalogram") else int(r.choice([n, n + r.randint(1, 12), max(16, n - r.randint(0, 8))]))
    run, margin = runner(mon, rep, r, n, nf)
    x = r.randn(n) + 1j * r.randn(n)
    real = r.rand() < 0.2
    if real:
        x = x.real.copy()
    re = rep.startswith("re:")
    if law == "gain":
        mag = 10.0 ** r.uniform(-8, 8)
        cst = mag if real else mag * np.exp(1j * r.uniform(0, 6.28))
        if real and r.rand() < 0.5:
            cst = -cst
        A1, B1 = run(x), run(cst * x)
        mon.saw(key)
        f = cst if rep == "stft" else mag ** 2
        near(mon, B1[0] / f, A1[0], key)
        if re:
            moved(mon, A1, [B1[0] / f, B1[1] / f, B1[2]], 0, 0, nf, key)
        return
    if law == "modulation":
        m = int(r.randint(1, nf))
        y = x * np.exp(2j * np.pi * ((m * np.arange(n)) % nf) / nf)
        A1, B1 = run(x), run(y)
        mon.saw(key)
        rows = 2 * m if rep in WV else m
        want = np.roll(A1[0], rows, axis=0)
        if rep == "stft":
            want = want * np.exp(2j * np.pi * ((m * np.arange(n)) % nf) / nf)[None, :]
        near(mon, B1[0], want, key)
        if re:
            moved(mon, A1, B1, rows, 0, nf, key)
        return
    if law == "conjugation":
        if real:
            x = x + 1j * r.randn(n)
        A1, B1 = run(x), run(np.conj(x))
        mon.saw(key)
        want = np.conj(np.roll(A1[0][::-1], 1, axis=0))
        # the law needs windows that do not tell tau from -tau
        near(mon, B1[0], want, key)
        if re:
            R1 = np.roll(A1[1][::-1], 1, axis=0)
            half = np.abs(B1[1] - R1).sum()
            mon.ok(half <= 0.02 * np.abs(R1).sum(), key + ":reassigned", lambda: "%.3g of the mass is elsewhere" % (half / np.abs(R1).sum()))
        return
    # delay: support in the middle third
    a, b = n // 3, n // 3 + max(3, n // 4)
    d = int(r.randint(1, 5))
    pad = n + 40
    z = np.zeros(pad, complex)
    z[20 + a:20 + b] = x[a:b]
    y = np.zeros(pad, complex)
    y[20 + a + d:20 + b + d] = x[a:b]
    nf2 = pad + d % 2 if rep == "re:morlet_scalogram" else (pad if rep in ("mh", "page", "ppage") else nf)
    run, margin = runner(mon, rep, r, pad, nf2)
    A1, B1 = run(z), run(y)
    mon.saw(key)
    if margin is None:      # wavelets get longer with the scale: judge the upper half of the scales away from the edges
        near(mon, B1[0][nf2 // 8:nf2 // 2, 12 + d:-12], A1[0][nf2 // 8:nf2 // 2, 12:-12 - d], key, 1e-6)
        return
    lo, hi = margin, pad - margin - d
    near(mon, B1[0][:, lo + d:hi + d], A1[0][:, lo:hi], key)
    if re:
        moved(mon, [A1[0][:, lo:hi], None, A1[2][:, lo:hi]], [B1[0][:, lo + d:hi + d], None, B1[2][:, lo + d:hi + d]], 0, d, nf2, key)


def moved(mon, A1, B1, rows, cols, nf, key):
    """target maps agree up to the translation, weighted by magnitude (rounding ties may differ)"""
    T = np.roll(A1[2], rows, axis=0)
    W = np.abs(np.roll(A1[0], rows, axis=0))
    U = B1[2]
    ok = np.isfinite(T) & np.isfinite(U)
    dr = (np.real(U) - np.real(T) - rows) % nf
    bad = (dr > 1e-9) & (dr < nf - 1e-9)
    two = np.iscomplexobj(U)
    if two:
        bad |= np.abs(np.imag(U) - np.imag(T) - cols) > 1e-9
    lost = W[bad & ok].sum() + W[~ok & (W > 1e-6 * W.max())].sum()
    mon.ok(lost <= 0.02 * W.sum(), key + ":targets", lambda: "targets of %.3g of the mass do not follow" % (lost / W.sum()))


def other_gain(mon, rep, r, key):
    mag = 10.0 ** r.uniform(-8, 8) * r.choice([-1, 1])
    mon.saw(key)
    if rep in A.AFFINE:
        cls, x, kw = A.ctor(rep, r)
        a = mon.call(lambda: cls(x, **kw).run(), _name=rep + ".run")
        b = mon.call(lambda: cls(mag * x, **kw).run(), _name=rep + ".run")
        near(mon, b[0] / mag ** 2, a[0], key, 1e-6)
        if rep == "Scalogram":
            near(mon, b[3] / mag, a[3], key + ":coefficients", 1e-8)
        near(mon, np.ravel(b[2]), np.ravel(a[2]), key + ":frequencies")
        return
    from tftb.processing.ambiguity import narrow_band, wide_band
    from tftb.processing.linear import gabor
    if rep == "wide_band":
        x = A._packet(r, 40)
        kw = dict(fmin=0.06, fmax=0.4, N=32) if r.rand() < 0.5 else {}
        a, b = mon.call(wide_band, x, **kw), mon.call(wide_band, mag * x, **kw)
        near(mon, b[0] / mag ** 2, a[0], key, 1e-7)
        near(mon, b[2], a[2], key + ":scales")
        return
    n = int(r.choice([16, 20, 24, 30, 36]))
    x = r.randn(n) + 1j * r.randn(n)
    ph = mag * np.exp(1j * r.uniform(0, 6))
    if rep == "narrow_band":
        a, b = mon.call(narrow_band, x), mon.call(narrow_band, ph * x)
        near(mon, b[0] / mag ** 2, a[0], key)
        return
    a, b = mon.call(gabor, x), mon.call(gabor, ph * x)
    near(mon, b[0] / mag ** 2, a[0], key)
    near(mon, b[1] / ph, a[1], key + ":coefficients")
    near(mon, b[2], a[2], key + ":window")
