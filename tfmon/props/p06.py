import numpy as np
from tfmon import signals as S
ID = "P06"
RULE = "Pairs (matrix, target map): synthetic with integer targets anywhere in the matrix, fixed points, ties and empty columns, and real ones from the reassignment functions x timestamps x method name in any case; histogram and ridge list compared completely; pairs with a cell within rounding of the threshold excepted."
REQUIRED = {"friedman": 300, "ridges": 600, "no ridge": 20, "target row 0": 100, "target last row": 100, "fixed in row but not in column": 100, "real pair": 60, "column without cell": 100,
            "rsp": 60, "type1": 60, "rspwv": 60, "rpwv": 60, "rpmh": 60, "given instants": 200, "negative entries": 60}
METHODS = ["rsp", "type1", "rspwv", "rpwv", "rpmh", "RSP", "Type1", "RSPWV", "rPwV", "RPMH"]


def cases(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 2000):
        out.append(dict(m=rng.choice([1, 2, 3, rng.randint(2, 60), rng.randint(2, 30)] + [rng.randint(60, 300)] * (i % 20 == 7)), n=rng.choice([1, 2, rng.randint(1, 50)] + [rng.randint(60, 300)] * (i % 20 == 7)), seed=rng.randint(0, 10 ** 6), kind=rng.choice(["noise", "sparse", "neg", "none", "peaky"]),
                        t=rng.choice([None, "step", "offset", "float"]), meth=[rng.choice(METHODS), rng.choice(METHODS)]))
    for i in range(40 if tier == "quick" else 160):
        n = rng.randint(16, 48)
        out.append(dict(real=rng.choice(["rsp", "rspwv", "rpwv", "rpmh"]), x=S.pick_signal(rng, n, kinds=["cnoise", "chirp", "packet", "twotone"], gains=False)))
    return out


def judge(mon, tfr, hat, t, ts, methods):
    from tftb.processing.postprocessing import friedman_density, ridges
    m, n = tfr.shape
    thr = tfr.sum() * 0.5 / tfr.size
    if np.any(np.abs(tfr - thr) < 1e-10 * np.abs(tfr).max()):
        return
    above = tfr > thr
    row, col = np.real(hat), np.imag(hat)
    fin = np.isfinite(row) & np.isfinite(col)
    if above.any() and fin[above].all():
        got = mon.call(friedman_density, tfr, hat, **({} if ts is None else dict(timestamps=ts)))
        mon.saw("friedman")
        want = np.zeros((m, n))
        for j in range(n):
            for k in np.flatnonzero(above[:, j]):
                want[min(max(int(np.floor(row[k, j])), 0), m - 1), j] += 1
        mon.saw("target row 0", int((row[above] == 0).sum()))
        mon.saw("target last row", int((row[above] == m - 1).sum()))
        mon.saw("column without cell", int((~above.any(0)).sum()))
        mon.close(got, want / above.sum(), "friedman", rtol=1e-12)
        mon.ok(abs(got.sum() - 1) < 1e-9, "friedman:total", "%r" % got.sum())
    for name in methods:
        ml = name.lower()
        mon.saw("ridges")
        mon.saw(ml)
        h = hat if ml in ("rsp", "type1", "rspwv") else np.real(hat)
        p, f = mon.call(ridges, tfr, h, method=name, **({} if ts is None else dict(timestamps=ts)))
        wp, wf = [], []
        den = float(m) if ml in ("rsp", "type1") else 2.0 * m
        for j in range(n):
            fix = above[:, j] & (row[:, j] == np.arange(m))
            if ml in ("rsp", "type1", "rspwv"):
                mon.saw("fixed in row but not in column", int((fix & (col[:, j] != j)).sum()))
                fix &= col[:, j] == j
            for k in np.flatnonzero(fix):
                wp.append(float(t[j]))
                wf.append(k / den)
        if not wp:
            mon.saw("no ridge")
        mon.ok(np.size(p) == len(wp) and np.size(f) == len(wf), "ridges:count", lambda: "%s: %d/%d, expected %d" % (name, np.size(p), np.size(f), len(wp)))
        if wp:
            mon.close(np.asarray(p), np.array(wp), "ridges:instants", rtol=1e-12, scale=max(1, np.abs(t).max()))
            mon.close(np.asarray(f), np.array(wf), "ridges:frequencies", rtol=1e-12, scale=1)


def check(mon, c):
    if "real" in c:
        from tftb.processing import reassigned as R
        x = S.make(c["x"])
        fn = dict(rsp=R.spectrogram, rspwv=R.smoothed_pseudo_wigner_ville, rpwv=R.pseudo_wigner_ville, rpmh=R.pseudo_margenau_hill)[c["real"]]
        tfr, _, hat = mon.call(fn, x)
        mon.saw("real pair")
        judge(mon, tfr, hat, np.arange(tfr.shape[1]), None, [c["real"]])
        return
    m, n = c["m"], c["n"]
    r = S._rs(c["seed"])
    A = r.rand(m, n)
    if c["kind"] == "sparse":
        A *= r.rand(m, n) < 0.3
        A[r.randint(m), r.randint(n)] = 1.0
    elif c["kind"] == "neg":
        A -= 0.4
        mon.saw("negative entries")
    elif c["kind"] == "peaky":
        A = A ** 6
    row = r.randint(0, m, (m, n)).astype(float)
    col = r.randint(0, n, (m, n)).astype(float)
    if c["kind"] != "none":
        fr, fc = r.rand(m, n) < 0.5, r.rand(m, n) < 0.5
        row = np.where(fr, np.arange(m)[:, None], row)
        col = np.where(fc, np.arange(n)[None, :], col)
    hat = row + 1j * col
    ts = {None: None, "step": np.arange(n) * 3 + 1, "offset": np.arange(n) + 5, "float": np.arange(n) * 0.25}[c["t"]]
    if ts is not None:
        mon.saw("given instants")
    judge(mon, A, hat, np.arange(n) if ts is None else ts, ts, c["meth"])
