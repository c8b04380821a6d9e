import numpy as np
from tfmon import signals as S
ID = "T11"
RULE = "Signal kind x length x doppler bins (>= length) x lag selection (default, subset, single, reversed, beyond the record); every entry compared with the defining sum; origin, peak and Hermitian symmetry judged. Some records are longer than any a test uses."
REQUIRED = {"default lags": 60, "chosen lags": 60, "odd n": 60, "even n": 60, "odd bins": 40, "n_fbins > n": 60, "hermitian": 100, "long record": 8}


def cases(tier, rng):
    out = []
    for i in range(400 if tier == "quick" else 2500):
        n = S.pick_len(rng, 1, 80) if rng.random() < 0.93 else S.pick_len(rng, 80, 400)
        nf = rng.choice([None, n, n + 1, n + rng.randint(1, n + 3), 2 * n, 2 * n + 1])
        lag = None
        if rng.random() < 0.5:
            hi = n // 2 + 2
            lag = rng.choice([[0], list(range(-hi, hi + 1)), sorted(rng.randint(-hi, hi) for _ in range(rng.randint(1, 9))), list(range(hi, -hi - 1, -1)), [rng.randint(-hi, hi)]])
        out.append(dict(x=S.pick_signal(rng, n), nf=nf, lag=lag))
    for n, nf in S.long_sizes(rng):
        nf = None if nf is None else max(nf, n)
        out.append(dict(x=S.pick_signal(rng, n), nf=nf, lag=None if n < 700 else sorted(rng.randint(-n // 2, n // 2) for _ in range(7)), long=1))
    return out


def check(mon, c):
    from tftb.processing.ambiguity import narrow_band
    x = S.make(c["x"])
    n = len(x)
    kw = {}
    nf = n
    if c["nf"] is not None:
        nf = kw["n_fbins"] = c["nf"]
    if c.get("long"):
        mon.saw("long record")
    if c["lag"] is not None:
        mon.saw("chosen lags")
        lag = kw["lag"] = np.array(c["lag"])
    else:
        mon.saw("default lags")
        lag = np.arange(-((n - 1) // 2), (n - 1) // 2 + 1)
    mon.saw("odd n" if n % 2 else "even n")
    mon.saw("odd bins" if nf % 2 else "even bins")
    if nf > n:
        mon.saw("n_fbins > n")
    A, lg, xi = mon.call(narrow_band, x, **kw)
    j = np.arange(nf) - nf // 2
    mon.close(np.asarray(lg, float), lag, "naf:lags", rtol=1e-12)
    mon.close(xi, j / float(nf), "naf:doppler labels", rtol=1e-12, scale=1.0)
    K = np.zeros((n, len(lag)), complex)
    for i, tau in enumerate(lag):
        t = np.arange(abs(tau), n - abs(tau))
        K[t, i] = x[t + tau] * np.conj(x[t - tau])
    want = np.exp(-2j * np.pi * (np.outer(j, np.arange(n)) % nf) / nf) @ K
    e = np.sum(np.abs(x) ** 2)
    mon.close(A, want, "naf", rtol=1e-9, scale=e)
    if 0 in lag:
        z = list(lag).index(0)
        mon.close(A[nf // 2, z], e, "naf:origin", rtol=1e-9)
    mon.ok(np.all(np.abs(A) <= e * (1 + 1e-9)), "naf:peak at origin")
    # Hermitian symmetry, on the real code
    pos = {int(v): i for i, v in enumerate(lag)}
    rows = [r for r in range(nf) if 0 <= 2 * (nf // 2) - r < nf]
    for tau, i in pos.items():
        if -tau in pos:
            mon.saw("hermitian")
            mon.close(A[[2 * (nf // 2) - r for r in rows], pos[-tau]], np.conj(A[rows, i]), "naf:hermitian", rtol=1e-9, scale=e)
            break
