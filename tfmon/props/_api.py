"""Table of the public calls with array arguments drawn from a seed; shared by S01, S02, S03.
build(name, seed) -> (fn, args, kw); all arrays in args/kw are fresh C-ordered doubles/complex doubles (or integer indices).
Data are small dyadic rationals, exactly representable in single precision and (integers kinds) in short integers."""
import hashlib
import numpy as np


def _sig(r, n, cplx=True):
    x = r.randint(-8, 9, n) / 4.0
    x[r.randint(n)] += 2.0
    return x + 1j * (r.randint(-8, 9, n) / 4.0) if cplx else x


def _ints(r, n):
    x = r.randint(-8, 9, n).astype(float)
    x[r.randint(n)] = 5.0
    return x


def _packet(r, n):
    k = np.arange(n)
    x = np.exp(-np.pi * ((k - n * r.uniform(0.4, 0.6)) / (n * 0.25)) ** 2) * np.cos(2 * np.pi * r.uniform(0.15, 0.22) * k + r.uniform(0, 6))
    return np.round(x * 512) / 512.0


def _win(r, L):
    w = r.randint(1, 9, L) / 8.0
    w = w + w[::-1]
    w[(L - 1) // 2] = 2.0
    return w


def _t(r, n, regular=False):
    c = r.randint(4)
    if c == 0:
        return np.arange(n)
    if c == 1:
        return np.arange(r.randint(3), n, r.randint(2, 4))
    if c == 2 or regular:
        return np.arange(n // 3, n - 1)
    t = r.randint(0, n, 6)
    return t if r.rand() < 0.5 else np.sort(t)


def _cls(cls):
    def run(x, **kw):
        return cls(x, **kw).run()
    run.__qualname__ = cls.__name__ + ".run"
    return run


COHEN = ["ShortTimeFourierTransform", "Spectrogram", "PageRepresentation", "PseudoPageRepresentation", "MargenauHillDistribution",
         "PseudoMargenauHillDistribution", "WignerVilleDistribution", "PseudoWignerVilleDistribution"]
ALL_SAMPLES = ("ShortTimeFourierTransform", "WignerVilleDistribution", "PseudoWignerVilleDistribution")
AFFINE = ["Scalogram", "BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution"]
REASS = ["spectrogram", "pseudo_wigner_ville", "pseudo_margenau_hill", "pseudo_page", "smoothed_pseudo_wigner_ville", "morlet_scalogram"]
FUNCS = ["fmodany", "fmpar", "fmpower", "fmhyp", "sigmerge", "scale", "atoms", "loctime", "locfreq", "inst_freq", "group_delay", "renyi_information",
         "ideal_tfr", "friedman_density", "ridges", "hough_transform", "integrate_2d", "derive_window", "get_spectrum", "gabor", "narrow_band",
         "wide_band", "spwv", "modulo", "nearest_odd", "izak", "is_linear"]
SCALAR = ["amgauss", "amexpos", "amrect", "amtriang", "fmconst", "fmlin", "fmsin", "anapulse", "anastep", "anasing", "altes", "klauder", "mexhat",
          "gdpower", "doppler", "divider", "nextpow2"]
RANDOM = ["noisecg", "noisecu", "dopnoise", "anaask", "anabpsk", "anafsk", "anaqpsk"]
ROWCOL = ["loctime", "locfreq", "inst_freq", "group_delay", "wide_band"] + COHEN
ARRAYS = COHEN + AFFINE + ["re:" + m for m in REASS] + FUNCS
DETERMINISTIC = ARRAYS + SCALAR


def klass(name):
    import tftb.processing.cohen as C
    import tftb.processing.affine as A
    import tftb.processing.linear as L
    for m in (C, A, L):
        if hasattr(m, name):
            return getattr(m, name)
    raise AttributeError(name)


LONG = True     # some of the calls on records longer than 64; None: none (where every line is scheduled); "always": all


def ctor(name, r, ints=False):
    """(class, signal, kwargs) of a representation."""
    cls = klass(name)
    kw = {}
    if name in AFFINE:
        n = int(r.choice([32, 40, 47, 48]))
        if LONG and r.rand() < (1 if LONG == "always" else 0.08):
            n = int(r.choice([65, 96, 128, 131]))
        x = _packet(r, n)
        kw["fmin"], kw["fmax"] = 0.0625, 0.375
        if r.rand() < 0.6:
            kw["n_voices"] = 32
        if r.rand() < 0.5:
            kw["timestamps"] = np.arange(r.randint(3), n, r.randint(1, 4))
        if name == "UnterbergerDistribution" and r.rand() < 0.5:
            kw["form"] = "P"
        if name == "Scalogram" and r.rand() < 0.6:
            kw["waveparams"] = [0, 3.0, 6][r.randint(3)]
        return cls, x, kw
    n = r.randint(8, 40)
    if LONG and r.rand() < (1 if LONG == "always" else 0.08):
        n = int(r.choice([65, 96, 128, r.randint(65, 300)]))
    x = _ints(r, n) if ints else _sig(r, n, r.rand() < 0.7)
    if r.rand() < 0.6:
        kw["n_fbins"] = int(r.choice([n, n + 3, n + 8]))
    nf = kw.get("n_fbins", n)
    if r.rand() < 0.6:
        kw["fwindow"] = _win(r, 2 * r.randint(1, max(2, nf // 2)) + 1)
    if r.rand() < 0.6:
        kw["timestamps"] = np.arange(n) if name in ALL_SAMPLES else _t(r, n)
    return cls, x, kw


def build(name, seed, ints=False, wide=False):
    """wide: also leave out optional arguments and use the special values some of them have."""
    fn, args, kw = _build(name, seed, ints)
    if not wide:
        return fn, args, kw
    h = int(hashlib.md5(("wide/%s/%d" % (name, seed)).encode()).hexdigest()[:8], 16)
    r = np.random.RandomState(h)
    if name == "renyi_information":
        b, a = args[0].shape[1], args[0].shape[0]
        kw["timestamps"] = [np.arange(b), np.arange(b) + 1, np.arange(b) * 1.0, np.arange(b) * 3][r.randint(4)]
        if r.rand() < 0.5:
            kw["freq"] = [np.fft.fftfreq(a), np.arange(a)[::-1] / 8.0][r.randint(2)]
    if name == "atoms" and r.rand() < 0.3:
        args[1] = args[1][0].copy()
    if name == "ideal_tfr" and r.rand() < 0.5:
        kw["n_fbins"] = 33
    optional = dict(renyi_information=["timestamps", "freq", "alpha"], ideal_tfr=["timestamps", "n_fbins"], friedman_density=["timestamps"],
                    ridges=["timestamps", "method"], hough_transform=["m", "n"], integrate_2d=["x", "y"], fmodany=["t0"], sigmerge=["ratio"])
    for k in optional.get(name, []):
        if k in kw and r.rand() < 0.3:
            del kw[k]
    if name in AFFINE and r.rand() < 0.4:
        del kw[["fmin", "fmax"][r.randint(2)]]
    if name == "wide_band" and r.rand() < 0.5:
        for k in [["fmin"], ["fmax"], ["N"], ["fmin", "fmax", "N"]][r.randint(4)]:
            del kw[k]
    return fn, args, kw


def variant(name, seed, v, ints=False):
    """The v-th neighbour of build(name, seed): same shapes and mostly the same values, one argument changed or dropped."""
    fn, args, kw = build(name, seed, ints, True)
    if v == 0:
        return fn, args, kw
    r = np.random.RandomState((seed * 31 + v) % 2 ** 31)
    spots = [(args, i) for i in range(len(args))] + [(kw, k) for k in sorted(kw)]
    box, k = spots[r.randint(len(spots))]
    x = box[k]
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        box[k] = [np.roll(x, 1, axis=0), x[::-1].copy(), 1.0 * x + 0.25 * (np.arange(x.size).reshape(x.shape) == r.randint(x.size))][r.randint(3)]
    elif isinstance(x, np.ndarray) and x.dtype.kind in "iu" and x.ndim == 1:
        # index array: other valid indices of the same number
        o = [np.roll(x, 1 + v), x[::-1].copy(), x // 2, np.where(np.arange(x.size) % 2, x, x[0]), np.full(x.shape, x[x.size // 2])]
        box[k] = o[r.randint(len(o))]
    elif isinstance(x, (bool, str)):
        pass
    elif isinstance(x, int):
        box[k] = x + int(r.randint(1, 3))
    elif isinstance(x, float):
        box[k] = x * 1.0625
    if box is kw and r.rand() < 0.4:
        del kw[k]
    return fn, args, kw


def outcome(fn, args, kw):
    """Result of a call, refusals included."""
    try:
        return copies(fn(*args, **kw))
    except Exception as e:
        return ["refused %s" % type(e).__name__]


def _build(name, seed, ints=False):
    h = int(hashlib.md5(("%s/%d" % (name, seed)).encode()).hexdigest()[:8], 16)
    r = np.random.RandomState(h)
    long = LONG == "always" or LONG is True and h % 12 == 5
    if name in COHEN or name in AFFINE:
        cls, x, kw = ctor(name, r, ints)
        return _cls(cls), [x], kw
    sig = (lambda n, c=True: _ints(r, n)) if ints else (lambda n, c=True: _sig(r, n, c))
    if name.startswith("re:"):
        import tftb.processing.reassigned as R
        m = name[3:]
        n = r.randint(65, 90 if m == "smoothed_pseudo_wigner_ville" else 140) if long else r.randint(14, 33)
        kw = {}
        if r.rand() < 0.6:
            kw["n_fbins"] = int(n + 2 * r.randint(0, 6)) if m != "morlet_scalogram" else int(n + n % 2)
        nf = kw.get("n_fbins", n)
        if r.rand() < 0.6:
            kw["time_samples" if m == "spectrogram" else "timestamps"] = _t(r, n, True)
        if m != "morlet_scalogram" and r.rand() < 0.6:
            kw["window" if m == "spectrogram" else "fwindow"] = _win(r, 2 * r.randint(1, max(2, nf // 4)) + 1)
        if m == "smoothed_pseudo_wigner_ville" and r.rand() < 0.5:
            kw["twindow"] = _win(r, 2 * r.randint(0, 4) + 1)
        return getattr(R, m), [sig(n, r.rand() < 0.7)], kw
    import tftb.generators as G
    import tftb.processing as P
    import tftb.processing.postprocessing as PP
    import tftb.processing.utils as PU
    import tftb.utils as U
    from tftb.processing.ambiguity import narrow_band, wide_band
    from tftb.processing.linear import gabor
    n = r.randint(6, 60)
    if long:
        n = r.randint(61, 90) if name == "spwv" else int(r.choice([64, 65, 128, 200, r.randint(61, 400)]))
    d8 = lambda lo, hi, k: r.randint(int(lo * 64), int(hi * 64) + 1, k) / 64.0      # noqa: E731
    if name == "fmodany":
        return G.fmodany, [d8(-0.5, 0.5, n)], dict(t0=int(r.randint(1, n + 1)))
    if name == "fmpar":
        return G.fmpar, [n, np.array([0.25, 1 / 512.0, -1 / 8192.0])], {}
    if name == "fmpower":
        return G.fmpower, [n, 2, np.array([0.125, 0.25]) if r.rand() < 0.5 else np.array([1.0, 0.5, n, 0.125])], {}
    if name == "fmhyp":
        return G.fmhyp, [n, np.array([1.0, 0.5]), np.array([float(n), 0.125])], {}
    if name == "sigmerge":
        return G.sigmerge, [sig(n), sig(n)], dict(ratio=float(r.randint(-5, 15)))
    if name == "scale":
        n = int(r.choice([32, 48, 64] + [100] * bool(long)))
        return G.scale, [_packet(r, n), float(r.choice([0.5, 1.0, 1.5, 2.0])), 0.0625, 0.375, 64], {}
    if name == "atoms":
        k = r.randint(1, 4)
        return G.atoms, [n, np.c_[r.randint(1, n + 1, k), d8(0, 0.5, k), r.randint(2, n + 2, k), d8(0.25, 2, k)].astype(float)], {}
    if name == "loctime":
        return P.loctime, [sig(n)], {}
    if name == "locfreq":
        return P.locfreq, [sig(n)], {}
    if name == "inst_freq":
        x = sig(n)
        x[x == 0] = 1.0
        return P.inst_freq, [x] + ([r.randint(2, n, 7)] if r.rand() < 0.6 else []), {}
    if name == "group_delay":
        return P.group_delay, [sig(n)] + ([d8(-0.5, 0.5, 9)] if r.rand() < 0.6 else []), {}
    a, b = (r.randint(20, 90), r.randint(20, 90)) if long else (r.randint(4, 16), r.randint(4, 16))
    M = (r.randint(0, 17, (a, b)) / 8.0) + 0.125
    if name == "renyi_information":
        return P.renyi_information, [M], dict(timestamps=np.arange(b) * 2 + r.randint(2), freq=np.arange(a) / 16.0, alpha=int(r.choice([1, 2, 3])))
    if name == "ideal_tfr":
        L = d8(0, 0.5, (2, n))
        L[0, r.randint(n)] = np.nan
        return P.ideal_tfr, [L], dict(timestamps=_t(r, n), n_fbins=64)
    if name in ("friedman_density", "ridges"):
        hat = r.randint(0, a, (a, b)) + 1j * r.randint(0, b, (a, b))
        hat = np.where(r.rand(a, b) < 0.4, np.arange(a)[:, None] + 1j * np.arange(b)[None], hat)
        M = M + r.randint(0, 64, (a, b)) / 256.0 + np.arange(a * b).reshape(a, b) / 65536.0
        kw = dict(timestamps=np.arange(b) * 2)
        if name == "ridges":
            kw["method"] = ["rsp", "rspwv"][r.randint(2)]
        return getattr(PP, name), [M, hat], kw
    if name == "hough_transform":
        I = np.zeros((40, 52) if long else (9, 11))
        I[r.randint(0, 9, 8), r.randint(0, 11, 8)] = 0.75
        I[1, 2] = 1.0
        return PP.hough_transform, [I], dict(m=12, n=10)
    if name == "integrate_2d":
        return PU.integrate_2d, [M], dict(x=np.arange(b) * 0.5, y=np.cumsum(r.randint(1, 5, a)) / 8.0)
    if name == "derive_window":
        return PU.derive_window, [_win(r, 2 * r.randint(1, 300 if long else 12) + 1)], {}
    if name == "get_spectrum":
        return PU.get_spectrum, [sig(n)], {}
    if name == "gabor":
        kw = {}
        if r.rand() < 0.6:
            n = int(r.choice([128, 200] if long else [16, 24, 32, 36]))
            kw = dict(n_coeff=4, q_oversample=int(r.choice([1, 2])), window=_win(r, 2 * (n // 8) + 1 + 4))
        return gabor, [sig(n)], kw
    if name == "narrow_band":
        kw = {}
        if r.rand() < 0.6:
            kw["lag"] = np.arange(-(n // 2) + 1, n // 2, 2)
        if r.rand() < 0.5:
            kw["n_fbins"] = n + r.randint(0, 9)
        return narrow_band, [sig(n)], kw
    if name == "wide_band":
        return wide_band, [_packet(r, int(r.choice([65, 90, 128] if long else [32, 41, 48])))], dict(fmin=0.0625, fmax=0.375, N=32)
    if name == "spwv":
        kw = {}
        if r.rand() < 0.6:
            kw["timestamps"] = _t(r, n)
        if r.rand() < 0.6:
            kw["freq_bins"] = n + r.randint(0, 9)
        if r.rand() < 0.6:
            kw["fwindow"] = _win(r, 2 * r.randint(1, max(2, n // 3)) + 1)
        if r.rand() < 0.6:
            kw["twindow"] = _win(r, 2 * r.randint(0, 6) + 1)
        return P.smoothed_pseudo_wigner_ville, [sig(n)], kw
    if name == "modulo":
        return U.modulo, [r.randint(-30, 60, n), r.randint(2, 9)], {}
    if name == "nearest_odd":
        return U.nearest_odd, [r.randint(0, 60, n).astype(float)], {}
    if name == "izak":
        return U.izak, [sig(200 if long else 24).reshape((8, 25) if long else (4, 6))], {}
    if name == "is_linear":
        return U.is_linear, [np.arange(n) * 0.5 if r.rand() < 0.5 else r.randint(0, 9, n + 5) / 4.0], {}
    u = r.uniform
    S = dict(amgauss=(G.amgauss, [n, u(0, n), u(1, n)]), amexpos=(G.amexpos, [n, u(0, n), u(1, n), ["bilateral", "unilateral"][r.randint(2)]]),
             amrect=(G.amrect, [n, u(0, n), u(1, n)]), amtriang=(G.amtriang, [n, u(0, n), u(1, n)]), fmconst=(G.fmconst, [n, u(-0.5, 0.5), u(0, n)]),
             fmlin=(G.fmlin, [n, u(-0.5, 0.5), u(-0.5, 0.5)]), fmsin=(G.fmsin, [n, 0.05, 0.4, u(5, n + 9), u(1, n), 0.2, [1, -1][r.randint(2)]]),
             anapulse=(G.anapulse, [n, int(r.randint(n))]), anastep=(G.anastep, [n, int(r.randint(n))]), anasing=(G.anasing, [n, int(r.randint(1, n)), u(-1, 1)]),
             altes=(G.altes, [n, 0.1, 0.4, u(50, 900)]), klauder=(G.klauder, [n, u(4, 12), u(0.15, 0.35)]), mexhat=(G.mexhat, [u(0.03, 0.4)]),
             gdpower=(G.gdpower, [n, float(r.choice([-1, 0, 1, 0.5])), u(0.2, 1.5)]), doppler=(G.doppler, [n, 200.0, u(5, 90), u(1, 20), u(1, 50)]),
             divider=(U.divider, [int(r.randint(2, 5000))]), nextpow2=(U.nextpow2, [int(r.randint(1, 5000))]),
             noisecg=(G.noisecg, [n]), noisecu=(G.noisecu, [n]), dopnoise=(G.dopnoise, [n, 200.0, u(10, 80), u(2, 20), u(1, 40)]),
             anaask=(G.anaask, [n, int(r.randint(1, 6))]), anabpsk=(G.anabpsk, [n, int(r.randint(1, 6))]), anafsk=(G.anafsk, [n, int(r.randint(1, 6))]),
             anaqpsk=(G.anaqpsk, [n, int(r.randint(1, 6))]))
    return S[name][0], S[name][1], {}


def arrays(args, kw):
    """[(label, array)] of the array arguments."""
    out = [(i, a) for i, a in enumerate(args) if isinstance(a, np.ndarray)]
    return out + [(k, a) for k, a in kw.items() if isinstance(a, np.ndarray)]


def parts(res):
    """Result as a flat list of arrays."""
    if isinstance(res, (tuple, list)):
        return [p for r in res for p in parts(r)]
    return [np.asarray(res)]


def frozen(res):
    return [(p.shape, p.dtype.str, p.tobytes()) for p in parts(res)]


def copies(res):
    return [np.array(p, copy=True) for p in parts(res)]


def same(a, b, rtol=1e-9):
    """None if equal (NaN equals NaN; otherwise within rtol of the largest magnitude), else a message."""
    if a[:1] and isinstance(a[0], str) or b[:1] and isinstance(b[0], str):
        return None if len(a) == len(b) and isinstance(a[0], str) and isinstance(b[0], str) else "one of the calls was refused: %s / %s" % (a[:1], b[:1])
    if len(a) != len(b):
        return "%d results vs %d" % (len(a), len(b))
    for i, (p, q) in enumerate(zip(a, b)):
        p, q = np.asarray(p), np.asarray(q)
        if p.shape != q.shape:
            return "result %d has shape %s, was %s" % (i, q.shape, p.shape)
        if p.dtype.kind not in "biufc":
            if not np.array_equal(p, q):
                return "result %d differs" % i
            continue
        p, q = p.astype(np.complex128), q.astype(np.complex128)
        for u, v in ((p.real, q.real), (p.imag, q.imag)):
            fin = np.isfinite(u) & np.isfinite(v)
            if not np.array_equal(np.where(fin, 0, u), np.where(fin, 0, v), equal_nan=True):
                return "result %d differs in its non-finite entries" % i
            s = np.abs(u[fin]).max() if fin.any() else 0.0
            s = max(s, np.abs(p[np.isfinite(p)]).max() if np.isfinite(p).any() else 0.0)
            d = np.abs(u[fin] - v[fin]).max() if fin.any() else 0.0
            if not d <= rtol * s:
                return "result %d differs by %g of %g" % (i, d, s)
    return None
