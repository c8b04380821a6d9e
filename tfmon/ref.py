"""Reference models: direct, definition-level computations that share no code with the library."""
import numpy as np

TWO_PI = 2 * np.pi


def fourier_lags(K, lags, n, rows=None):
    """sum_l K[l, :] exp(-2i pi k lags[l] / n) for k = 0..n-1 by an explicit matrix product."""
    k = np.arange(n) if rows is None else np.asarray(rows)
    E = np.exp(-1j * TWO_PI * (np.outer(k, lags) % n) / n)
    return E @ K


def _taps(x, t, tau):
    """x[t+tau] where it exists, 0 (and False) elsewhere: arrays len(tau) x len(t)."""
    N = len(x)
    idx = np.asarray(t)[None, :] + np.asarray(tau)[:, None]
    okm = (idx >= 0) & (idx < N)
    v = np.where(okm, x[np.clip(idx, 0, N - 1)], 0)
    return v, okm


def _win(h, tau):
    lh = (len(h) - 1) // 2
    idx = lh + np.asarray(tau)
    okm = (idx >= 0) & (idx < len(h))
    return np.where(okm, h[np.clip(idx, 0, len(h) - 1)], 0), okm


def stft(x, n, h, t):
    lh = (len(h) - 1) // 2
    r = min((n - 1) // 2, lh)
    tau = np.arange(-r, r + 1)
    v, okm = _taps(x, t, tau)
    w, _ = _win(h, tau)
    K = v * np.conj(w)[:, None]
    return fourier_lags(K, tau, n), okm, tau, w


def spectrogram(x, n, h, t):
    S, okm, tau, w = stft(x, n, h, t)
    e = (np.abs(w)[:, None] ** 2 * okm).sum(0)
    return np.abs(S) ** 2 / e[None, :]


def _kernel_pm(x, t, tau):
    a, oka = _taps(x, t, tau)
    b, okb = _taps(x, t, -np.asarray(tau))
    return a * np.conj(b) * (oka & okb)


def wvd(x, n, h=None):
    """(pseudo) Wigner-Ville at every sample; the lag n/2 (n even) is the mean of both signs."""
    N = len(x)
    t = np.arange(N)
    r = (n - 1) // 2
    tau = np.arange(-r, r + 1)
    K = _kernel_pm(x, t, tau)
    if h is not None:
        w, okw = _win(h, tau)
        K = K * (w * okw)[:, None]
    S = fourier_lags(K, tau, n)
    if n % 2 == 0:
        m = n // 2
        two = np.array([m, -m])
        Km = _kernel_pm(x, t, two)
        if h is not None:
            w, okw = _win(h, two)
            Km = Km * (w * okw)[:, None]
        S = S + np.cos(np.pi * np.arange(n))[:, None] * Km.mean(0)[None, :]
    return S.real


def spwvd(x, n, g, h, t, half_lag=True):
    """Smoothed pseudo WVD from its definition (weights renormalised over available points)."""
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
    r = min((n - 1) // 2, lh)
    lags = list(range(-r, r + 1))
    ext = half_lag and n % 2 == 0 and n // 2 <= lh
    out = np.zeros((n, len(t)))
    p = np.arange(-lg, lg + 1)
    for j, tj in enumerate(t):
        K, L = [], []
        for tau in lags + ([n // 2, -(n // 2)] if ext else []):
            a, b = tj - p + tau, tj - p - tau
            m = (a >= 0) & (a < N) & (b >= 0) & (b < N)
            if not m.any():
                continue
            w = g[m] / g[m].sum()
            val = h[lh + tau] * np.sum(w * x[a[m]] * np.conj(x[b[m]]))
            if abs(tau) == n // 2 and n % 2 == 0 and abs(tau) > r:
                # the extreme lag is used only where the centre point itself reaches it
                if tj < n // 2 or tj >= N - n // 2:
                    continue
                val = val / 2.0
            K.append(val)
            L.append(tau)
        if K:
            out[:, j] = fourier_lags(np.array(K)[:, None], np.array(L), n)[:, 0].real
    return out


def rihaczek(x, n, t, h=None, past_only=False, full=False):
    """Re sum_tau h x[t] conj(x[t-tau]) e^{-2 i pi k tau/n}."""
    N = len(x)
    if full:
        tau = np.arange(-(N - 1), N)
    elif past_only:
        tau = np.arange(0, min(n - 1, N - 1 if h is None else (len(h) - 1) // 2) + 1)
    else:
        r = min((n - 1) // 2, (len(h) - 1) // 2)
        tau = np.arange(-r, r + 1)
    v, okm = _taps(x, t, -tau)
    K = np.asarray(x)[np.asarray(t)][None, :] * np.conj(v) * okm
    if h is not None:
        w, okw = _win(h, tau)
        K = K * (w * okw)[:, None]
    return fourier_lags(K, tau, n)


def analytic(xr):
    """Analytic signal by explicit spectral weights."""
    n = len(xr)
    X = np.fft.fft(np.real(xr))
    w = np.zeros(n)
    w[0] = 1
    half = (n - 1) // 2
    w[1:half + 1] = 2
    if n % 2 == 0:
        w[n // 2] = 1
    return np.fft.ifft(X * w)


def derive_window(w):
    n = len(w)
    w = np.asarray(w, float) if not np.iscomplexobj(w) else np.asarray(w)
    step = (w[0] + w[-1]) / 2
    ramp = (w[-1] - w[0]) / max(n - 1, 1)
    base = w - step - ramp * (np.arange(n) - (n - 1) / 2.0)
    b = np.concatenate([[0], base, [0]])
    d = (b[2:] - b[:-2]) / 2 + ramp
    d[0] += step
    d[-1] -= step
    return d


def integrate_2d(mat, x, y):
    """Trapezoid over x (uniform, step x[1]-x[0]) and y."""
    mat = np.asarray(mat, float)
    dx = float(x[1] - x[0])
    col = np.full(mat.shape[1], dx)
    col[0] = col[-1] = dx / 2
    if mat.shape[1] == 1:
        col[0] = 0.0
    inner = mat @ col
    y = np.asarray(y, float)
    return float(np.sum(np.diff(y) * (inner[:-1] + inner[1:]) / 2))


def fftfreq_two_sided(n):
    k = np.arange(n)
    return np.where(k < (n + 1) // 2, k, k - n) / float(n)


# ---------------------------------------------------------------- reassignment
FREQ_ONLY = ("pwv", "pmh", "ppage")


def reassignment(method, x, n, t, h=None, g=None, tbp=0.25, dt=1):
    """Plain value, target row offset and target column offset (real numbers, before rounding) of every cell,
    and a bound on the rounding noise of the offsets. h must be the window actually used."""
    x = np.asarray(x)
    N = len(x)
    t = np.asarray(t)
    if method in ("pwv", "pmh", "ppage"):
        h = h / h[(len(h) - 1) // 2]
        dh = derive_window(h)
        lh = (len(h) - 1) // 2

        def tr(w, extra=None):
            if method == "pwv":
                r = min((n - 1) // 2, lh)
                tau = np.arange(-r, r + 1)
                K = _kernel_pm(x, t, tau) * w[lh + tau][:, None]
                F = fourier_lags(K, tau, n)
                if n % 2 == 0 and n // 2 <= lh:
                    m = n // 2
                    Km = _kernel_pm(x, t, np.array([m, -m])) * np.array([w[lh + m], w[lh - m]])[:, None]
                    F = F + np.cos(np.pi * np.arange(n))[:, None] * Km.mean(0)[None, :]
                return F
            F = rihaczek(x, n, t, w, past_only=(method == "ppage"))
            return F
        Sx, D = tr(h), tr(dh)
        if method == "ppage":
            D = D + (np.abs(x[t]) ** 2)[None, :]       # jump of the one-sided window at lag 0
        if method == "pwv":
            plain = Sx.real
            off = -D.imag / np.where(plain == 0, 1, plain) * n / TWO_PI
            den = np.abs(plain)
        else:
            plain = Sx.real
            off = -(D / np.where(Sx == 0, 1, Sx)).imag * n / TWO_PI
            den = np.abs(Sx)
        scale = np.abs(D).max() + np.abs(Sx).max()
        noise = 1e-13 * n * scale / np.where(den == 0, np.inf, den)
        return plain, off, None, noise
    if method == "spectrogram":
        lh = (len(h) - 1) // 2
        r = min((n - 1) // 2, lh)
        tau = np.arange(-r, r + 1)
        v, okm = _taps(x, t, tau)
        e = np.sqrt((np.abs(h[lh + tau])[:, None] ** 2 * okm).sum(0))

        def tr(w):
            return fourier_lags(v * np.conj(w[lh + tau])[:, None] / e[None, :], tau, n)
        Sx, T, D = tr(h), tr(h * (np.arange(len(h)) - lh)), tr(derive_window(h))
        d = np.where(Sx == 0, 1, Sx)
        plain = np.abs(Sx) ** 2
        noise = 1e-13 * n * (np.abs(D).max() + np.abs(T).max() + np.abs(Sx).max()) / np.where(np.abs(Sx) == 0, np.inf, np.abs(Sx))
        return plain, -(D / d).imag * n / TWO_PI, (T / d).real / dt, noise
    if method == "spwv":
        lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
        r = min((n - 1) // 2, lh)
        lags = np.arange(-r, r + 1)
        p = np.arange(-lg, lg + 1)
        dh = derive_window(h)
        A = np.zeros((len(lags), len(t)), complex)
        B = np.zeros_like(A)
        for j, tj in enumerate(t):
            for i, tau in enumerate(lags):
                a, b = tj - p + tau, tj - p - tau
                m = (a >= 0) & (a < N) & (b >= 0) & (b < N)
                if m.any():
                    w = g[m] / g[m].sum()
                    xx = x[a[m]] * np.conj(x[b[m]])
                    A[i, j], B[i, j] = np.sum(w * xx), np.sum(w * p[m] * xx)
        plain = fourier_lags(A * h[lh + lags][:, None], lags, n).real
        T = fourier_lags(B * h[lh + lags][:, None], lags, n).real
        D = fourier_lags(A * dh[lh + lags][:, None], lags, n).imag
        d = np.where(plain == 0, 1, plain)
        noise = 1e-13 * n * (np.abs(D).max() + np.abs(T).max() + np.abs(plain).max()) / np.where(plain == 0, np.inf, np.abs(plain))
        return plain, -D / d * n / TWO_PI, -T / d / dt, noise
    if method == "morlet":
        rows = np.arange(n)
        m = np.minimum(rows, n - rows)
        sg = np.where(rows <= n // 2, 1, -1)
        M = np.ceil(tbp * n * np.sqrt(2 * np.log(1000.0)))
        Sx = np.zeros((n, len(t)), complex)
        T = np.zeros_like(Sx)
        for k in range(1, n):
            r = int(np.ceil(M / m[k]))
            tau = np.arange(-r, r + 1)
            v, _ = _taps(x, t, tau)
            w = np.sqrt(m[k] / (tbp * n)) * np.exp(-(m[k] * tau / (n * tbp)) ** 2 / 2) * np.exp(-1j * TWO_PI * sg[k] * m[k] * tau / n)
            Sx[k] = w @ v
            T[k] = (w * tau) @ v
        d = np.where(Sx == 0, 1, Sx)
        noise = 1e-13 * n * (np.abs(T).max() + np.abs(Sx).max()) / np.where(np.abs(Sx) == 0, np.inf, np.abs(Sx))
        return np.abs(Sx) ** 2, (m ** 2)[:, None] * (T / d).imag / (TWO_PI * n * tbp ** 2), (T / d).real / dt, noise
    raise KeyError(method)


# ---------------------------------------------------------------- affine class
def _lam(kind, u):
    """(lambda(u), lambda(-u), mu(u)) of the localised affine distributions."""
    if kind == "bertrand":
        with np.errstate(all="ignore"):
            s = np.where(np.abs(u) < 1e-9, 1.0, (u / 2) / np.sinh(u / 2))
        return s * np.exp(u / 2), s * np.exp(-u / 2), s
    if kind == "dflandrin":
        return (1 + u / 4) ** 2, (1 - u / 4) ** 2, 1 - (u / 4) ** 2
    r = np.sqrt(1 + (u / 2) ** 2)
    return r + u / 2, r - u / 2, np.ones_like(u) if kind == "unterberger A" else 1 / r


def affine(kind, s, fmin, fmax, nv, t):
    """f * int mu(u) S(lambda(u) f) conj S(lambda(-u) f) exp(2 i pi t f u) du, S = spectrum of the real part, limited to
    [fmin, fmax]; unnormalised, at geometric frequencies."""
    s = np.real(s)
    N = len(s)
    k = np.arange(N)
    f = fmin * (fmax / fmin) ** (np.arange(nv) / (nv - 1.0))
    rat = fmax / fmin
    umax = {"bertrand": np.log(rat), "dflandrin": 4 * (np.sqrt(rat) - 1) / (np.sqrt(rat) + 1)}.get(kind, np.sqrt(rat) - 1 / np.sqrt(rat))
    # u must resolve exp(2 i pi t f u) over the whole record at the top frequency
    nu = int(max(256, 6 * N * fmax * umax + 64))
    u = (np.arange(-nu, nu + 1) / nu) * umax
    l1, l2, mu = _lam(kind, u)
    out = np.zeros((nv, len(t)))
    for i, fi in enumerate(f):
        fa, fb = l1 * fi, l2 * fi
        m = (fa >= fmin) & (fa <= fmax) & (fb >= fmin) & (fb <= fmax)
        if not m.any():
            continue
        # spectrum on a dense grid, then linear-phase exact evaluation through matrix product
        A = np.exp(-1j * TWO_PI * np.outer(fa[m], k - N / 2.0)) @ s
        B = np.exp(-1j * TWO_PI * np.outer(fb[m], k - N / 2.0)) @ s
        w = mu[m] * A * np.conj(B)
        out[i] = fi * (np.exp(1j * TWO_PI * fi * np.outer(np.asarray(t) - N / 2.0, u[m])) @ w).real
    return out, f
