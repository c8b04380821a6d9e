import numpy as np
from tfmon.props import _api as A
ID = "S03"
RULE = ("Every public call taking arrays x drawn dyadic data (mostly short, some records longer than 64) x one variant of one or all array arguments: strided view, reversed view, Fortran order, byte-swapped, memory-offset (unaligned), read-only, single precision, integer, long double, full-range samples of narrow integer and half types, indices in unsigned types, half-open complex form, row/column; "
        "result compared with the plain contiguous double one at the precision of the type.")
REQUIRED = {"strided": 150, "reversed": 150, "fortran": 40, "byteswapped": 150, "unaligned": 150, "readonly": 150, "single": 150, "integer": 80, "long double": 100, "complex": 40, "row": 60, "column": 60, "narrow": 200, "unsigned": 60}
ASSUMPTIONS = ["Single precision results are compared at 2e-4 of the largest magnitude; reassigned matrices and target maps (rounded quantities) are compared for the layouts only."]
KINDS = ["strided", "reversed", "fortran", "byteswapped", "unaligned", "readonly", "single", "integer", "long double", "complex", "row", "column", "narrow", "unsigned"]
# values quantised by the library itself: a last-bit difference of the input precision may move them
QUANTISED = {"re:" + m for m in A.REASS} | {"friedman_density", "ridges", "hough_transform", "is_linear"}
NO_COMPLEX = {"fmodany", "fmpar", "fmpower", "fmhyp", "atoms", "renyi_information", "ideal_tfr", "friedman_density", "ridges", "hough_transform", "integrate_2d", "derive_window", "modulo", "nearest_odd", "is_linear", "scale"} | set(A.AFFINE)


def cases(tier, rng):
    out = []
    for name in A.ARRAYS:
        for kind in KINDS:
            for i in range((3 if tier == "quick" else 8) * (2 if kind in ("narrow", "unsigned") else 1)):
                out.append(dict(name=name, kind=kind, seed=rng.randint(0, 10 ** 6), which=rng.choice(["all", "first", "rest"])))
    return out


def variant(a, kind, first):
    """The same numbers in another form, or None if not applicable."""
    if kind == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "reversed":
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return a[s].copy()[s]
    if kind == "fortran":
        return np.asfortranarray(a) if a.ndim == 2 else None
    if kind == "byteswapped":
        return a.astype(a.dtype.newbyteorder("S"))
    if kind == "unaligned":
        raw = np.zeros(a.nbytes + 3, dtype=np.uint8)
        v = raw[3:].view(a.dtype) if False else np.frombuffer(raw.data, dtype=a.dtype, offset=3, count=a.size).reshape(a.shape)
        raw[3:3 + a.nbytes] = np.frombuffer(np.ascontiguousarray(a).tobytes(), dtype=np.uint8)
        return v
    if kind == "readonly":
        v = a.copy()
        v.setflags(write=False)
        return v
    if kind == "single":
        t = {"f": np.float32, "c": np.complex64, "i": np.int32}[a.dtype.kind]
        return a.astype(t)
    if kind == "long double":
        t = {"f": np.longdouble, "c": np.clongdouble, "i": np.int64}[a.dtype.kind]
        return a.astype(t)
    if kind == "integer":
        if a.dtype.kind == "f" and np.array_equal(a, np.round(a)):
            return a.astype([np.int16, np.int32, np.int64][int(np.abs(a).sum()) % 3])
        if a.dtype.kind == "i":
            return a.astype(np.int16)
        return None
    if kind == "complex":
        return a.astype(complex) if a.dtype.kind == "f" and first else None
    if kind in ("row", "column"):
        return (a[None, :] if kind == "row" else a[:, None]) if first and a.ndim == 1 else None
    raise KeyError(kind)


# calls whose first array may hold any real numbers
ANY_REAL = set(A.COHEN + A.AFFINE + ["re:" + m for m in A.REASS]) | {"sigmerge", "loctime", "locfreq", "inst_freq", "group_delay", "get_spectrum", "derive_window", "integrate_2d", "gabor", "narrow_band",
                                                                 "wide_band", "spwv", "izak", "hough_transform", "is_linear", "friedman_density"}
RANGES = [(np.int8, -128, 128), (np.uint8, 0, 256), (np.int16, -32768, 32768), (np.uint16, 0, 65536), (np.int32, -2 ** 31, 2 ** 31 - 1), (np.uint32, 0, 2 ** 32 - 1), (np.float16, -500, 500), (np.bool_, 0, 2)]


def narrow(mon, name, seed):
    """Full-range samples of a narrow type against the same numbers in double precision."""
    if name not in ANY_REAL:
        return
    r = np.random.RandomState(seed)
    fn, args, kw = A.build(name, seed)
    dt, lo, hi = RANGES[r.randint(len(RANGES))]
    if dt is np.float16 and name in QUANTISED:
        dt, lo, hi = RANGES[2]          # a threshold taken in half precision may fall on the other side of a cell
    if name == "is_linear":
        a = lo + (np.arange(6) if r.rand() < 0.5 else r.randint(0, 2, 6)) + (hi - lo - 6 if r.rand() < 0.5 else 0)
        if r.rand() < 0.5:
            a = np.where(a >= hi, a - (hi - lo), a)
            a[-1] = lo
        a = np.clip(a, lo, hi - 1)
    else:
        a = r.randint(lo, hi, args[0].shape, dtype=np.int64)
    a.flat[r.randint(a.size)] = hi - 1
    if name in ("inst_freq",):
        a[a == 0] = 1
    if name in ("friedman_density", "hough_transform"):
        a = np.abs(a) + np.arange(a.size).reshape(a.shape) % 2
        a = np.clip(a, 0, hi - 1)
    v = a.astype(dt)
    if not np.array_equal(v.astype(float), a.astype(float)):
        a = v.astype(np.int64)
    base = A.copies(mon.call(fn, a.astype(float), *args[1:], _name=name, **kw))
    got = A.copies(mon.call(fn, v, *args[1:], _name=name, **kw))
    mon.saw("narrow")
    if name[3:] in A.REASS and name.startswith("re:"):
        base, got = base[:1], got[:1]
    if name == "gabor" and not np.isfinite(base[0]).all():
        return
    m = A.same(base, got, 2e-3 if dt is np.float16 else 1e-9)
    mon.ok(m is None, "narrow:%s" % name, lambda: "samples in %s: %s" % (np.dtype(dt).name, m))


def unsigned(mon, name, seed):
    """Sample indices in an unsigned type."""
    r = np.random.RandomState(seed)
    fn, args, kw = A.build(name, seed)
    dt = [np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16][r.randint(6)]
    k2, a2 = dict(kw), list(args)
    hit = False
    for k, a in A.arrays(args, kw):
        if a.dtype.kind == "i" and a.min() >= 0 and a.max() <= np.iinfo(dt).max and name not in ("modulo",):
            hit = True
            if isinstance(k, int):
                a2[k] = a.astype(dt)
            else:
                k2[k] = a.astype(dt)
    if not hit:
        return
    mon.saw("unsigned")
    base = A.copies(mon.call(fn, *args, _name=name, **kw))
    got = A.copies(mon.call(fn, *a2, _name=name, **k2))
    m = A.same(base, got, 1e-9)
    mon.ok(m is None, "unsigned:%s" % name, lambda: "indices in %s: %s" % (np.dtype(dt).name, m))


def check(mon, c):
    name, kind = c["name"], c["kind"]
    if kind == "narrow":
        return narrow(mon, name, c["seed"])
    if kind == "unsigned":
        return unsigned(mon, name, c["seed"])
    if kind in ("row", "column") and name not in A.ROWCOL:
        return
    if kind == "complex" and name in NO_COMPLEX:
        return
    if kind in ("single", "long double", "integer", "complex") and name in QUANTISED:
        return
    fn, args, kw = A.build(name, c["seed"], ints=kind == "integer")
    base = A.copies(mon.call(fn, *args, _name=name, **kw))
    a2, k2 = list(args), dict(kw)
    changed = False
    for j, (k, a) in enumerate(A.arrays(args, kw)):
        if (c["which"] == "first" and j) or (c["which"] == "rest" and not j and len(A.arrays(args, kw)) > 1):
            continue
        v = variant(a, kind, j == 0)
        if v is None:
            continue
        mon.ok(np.array_equal(np.asarray(v, dtype=a.dtype).reshape(a.shape), a, equal_nan=a.dtype.kind in "fc"), "harness", "variant does not hold the same numbers")
        changed = True
        if isinstance(k, int):
            a2[k] = v
        else:
            k2[k] = v
    if not changed:
        return
    mon.saw(kind)
    got = A.copies(mon.call(fn, *a2, _name=name, **k2))
    tol = 2e-4 if kind == "single" else 1e-9
    m = A.same(base, got, tol)
    mon.ok(m is None, "%s:%s" % (kind, name), lambda: "%s arguments (%s): %s" % (kind, c["which"], m))
