import numpy as np
from tfmon.core import rng_for
ID = "G05"
RULE = ("One case per guarded request: values just outside, further outside and far outside the admissible set must raise, the nearest admissible "
        "values must be accepted; lengths and the other arguments are drawn from the seed.")
REQUIRED = {"refusals": 300, "acceptances": 300}
ASSUMPTIONS = ["Any exception counts as a refusal; its type is not judged."]

TOPICS = ["n_points", "fmconst f", "fmlin f", "fmodany f", "fmodany t0", "fmodany 2d", "keying f0", "mexhat", "klauder f0", "doppler", "gdpower",
          "even window", "irregular", "two dims", "ridges", "renyi", "sigmerge"]


def cases(tier, rng):
    reps = 12 if tier == "quick" else 150
    return [dict(topic=t, n=rng.choice([16, 17, 24, 31, 32, 33, 50, 64]) if t in ("even window", "irregular") else rng.randint(2, 200),
                 seed=rng.randint(0, 10 ** 9)) for t in TOPICS for _ in range(reps)]


def check(mon, c):
    import tftb.generators as g
    import tftb.processing as pr
    from tftb.processing import linear, cohen, reassigned, postprocessing, ambiguity
    r = rng_for(c["seed"], "g05")
    n, topic = c["n"], c["topic"]
    R = np.random.RandomState(c["seed"] % 2 ** 31)

    def no(fn, *a, **k):
        mon.refused(fn, *a, **k)
        mon.saw("refusals")
        mon.saw("refuse " + topic)

    def yes(fn, *a, **k):
        out = mon.call(fn, *a, **k)
        mon.saw("acceptances")
        return out

    def above(v):       # just above, somewhat above, far above
        return [float(np.nextafter(v, np.inf)) if v else 1e-12, v + 1e-9, v + 1e-4, v + 0.01, v + 0.5, v + r.uniform(0, 10), 1e3]

    def below(v):
        return [float(np.nextafter(v, -np.inf)) if v else -1e-12, v - 1e-9, v - 1e-4, v - 0.01, v - 0.5, v - r.uniform(0, 10), -1e3]

    if topic == "n_points":
        for bad in (0, -1, -r.randint(2, 100)):
            for fn in (g.amgauss, g.amexpos, g.amrect, g.amtriang):
                no(fn, bad)
                no(fn, bad, 1.0, 4.0)
            no(g.amexpos, bad, 1.0, 4.0, kind="unilateral")
            no(g.fmconst, bad)
            no(g.fmconst, bad, 0.1, 1)
            no(g.fmlin, bad)
            no(g.fmlin, bad, 0.1, 0.2, 1)
            no(g.noisecg, bad)
            no(g.klauder, bad)
        for fn in (g.amgauss, g.amexpos, g.amrect, g.amtriang, g.fmconst, g.fmlin, g.noisecg):
            yes(fn, 1)
            yes(fn, n)
    elif topic == "fmconst f":
        for f in above(0.5):
            no(g.fmconst, n, f)
            no(g.fmconst, n, -f)
        for f in (0.5, -0.5, float(np.nextafter(0.5, 0)), 0.0, 0, -0.25, r.uniform(-0.5, 0.5)):
            yes(g.fmconst, n, f)
            yes(g.fmconst, n, f, r.uniform(-3, n + 3))
    elif topic == "fmlin f":
        for f in above(0.5):
            s = r.uniform(-0.5, 0.5)
            for q in (f, -f):
                no(g.fmlin, n, q, s)
                no(g.fmlin, n, s, q)
        for f in (0.5, -0.5, 0.0, r.uniform(-0.5, 0.5)):
            yes(g.fmlin, n, f, r.choice([0.5, -0.5, 0.1]))
            yes(g.fmlin, n, r.choice([0.5, -0.5, 0.1]), f, r.randint(1, n))
    elif topic == "fmodany f":
        base = R.uniform(-0.5, 0.5, n)
        for pos in (0, n - 1, r.randrange(n)):
            for f in above(0.5):
                for sgn in (1, -1):
                    b = base.copy()
                    b[pos] = sgn * f
                    no(g.fmodany, b)
                    no(g.fmodany, b.reshape(-1, 1))
            for f in (0.5, -0.5):
                b = base.copy()
                b[pos] = f
                yes(g.fmodany, b)
                yes(g.fmodany, b.reshape(-1, 1), n)
        yes(g.fmodany, np.full(n, -0.5))
    elif topic == "fmodany t0":
        base = R.uniform(-0.5, 0.5, n)
        for t0 in (0, -1, -n, n + 1, n + r.randint(2, 50), 0.5, n + 0.5, 0.999):
            no(g.fmodany, base, t0)
        for t0 in (1, n, r.randint(1, n), max(1, n - 1), 1.0, float(n)):
            yes(g.fmodany, base, t0)
    elif topic == "fmodany 2d":
        no(g.fmodany, R.uniform(-0.5, 0.5, (n, 2)))
        no(g.fmodany, R.uniform(-0.5, 0.5, (1, n)))
        no(g.fmodany, R.uniform(-0.5, 0.5, (3, n)))
        yes(g.fmodany, R.uniform(-0.5, 0.5, (n, 1)))
    elif topic == "keying f0":
        for fn in (g.anaask, g.anabpsk, g.anaqpsk):
            for f in above(0.5) + below(0.0):
                no(fn, n, None, f)
                no(fn, n, r.randint(1, n), f)
            for f in (0.0, 0.5, 0, r.uniform(0, 0.5), float(np.nextafter(0.5, 0))):
                yes(fn, n, None, f)
                yes(fn, n, r.randint(1, n), f)
    elif topic == "mexhat":
        for f in above(0.5) + below(0.0):
            no(g.mexhat, f)
        for f in (0.5, 0.01, 0.05, r.uniform(0.01, 0.5)):
            yes(g.mexhat, f)
    elif topic == "klauder f0":
        for f in above(0.5) + below(0.0) + [0.0, 0.5]:
            no(g.klauder, n, 10.0, f)
        for f in (0.499, 0.2, r.uniform(0.05, 0.49)):
            yes(g.klauder, n, 10.0, f)
    elif topic == "doppler":
        ok = dict(s_freq=200.0, f0=r.uniform(0, 100), distance=r.uniform(0.1, 50), v_target=r.uniform(0, 80), t0=r.uniform(1, n))
        yes(g.doppler, n, **ok)
        for k, bads, goods in (
                ("distance", [0.0, 0, -1e-9, -1.0, -50], [1e-6, 0.1, 1000.0]),
                ("s_freq", [-1e-9, -1.0, -200.0], []),
                ("t0", [0, 0.999, -5, n + 1, n + 0.001, n + 50], [1, n, (n + 1) / 2.0]),
                ("f0", [-1e-9, -1.0, 100.0 + 1e-9, 101.0, 1e4], [0.0, 100.0, 50.0]),
                ("v_target", [-1e-9, -1.0, -50], [0.0, 0, 50.0])):
            for b in bads:
                no(g.doppler, n, **dict(ok, **{k: b}))
            for b in goods:
                yes(g.doppler, n, **dict(ok, **{k: b}))
    elif topic == "gdpower":
        n = max(n, 3)
        for d in (0.0, -1.0, 0.5, 1.0, 2.0):
            no(g.gdpower, n, d, 0.0)
            no(g.gdpower, n, d, 0)
            yes(g.gdpower, n, d, r.choice([1e-3, -0.5, 1.0]))
    elif topic == "even window":
        x = R.randn(n) + 1j * R.randn(n)
        e = r.choice([4, 6, 8])
        for L in (e, e + 2, 2 * (n // 2)):
            w, o = np.hamming(L), np.hamming(L + 1)
            no(cohen.smoothed_pseudo_wigner_ville, x, fwindow=w)
            no(cohen.smoothed_pseudo_wigner_ville, x, twindow=w)
            no(cohen.smoothed_pseudo_wigner_ville, x, twindow=w, fwindow=o)
            no(reassigned.spectrogram, x, window=w)
            no(reassigned.pseudo_wigner_ville, x, fwindow=w)
            no(reassigned.pseudo_margenau_hill, x, fwindow=w)
            no(reassigned.pseudo_page, x, fwindow=w)
            no(reassigned.smoothed_pseudo_wigner_ville, x, fwindow=w)
            no(reassigned.smoothed_pseudo_wigner_ville, x, twindow=w)
            no(reassigned.smoothed_pseudo_wigner_ville, x, twindow=o, fwindow=w)
        w, o = np.hamming(e), np.hamming(e + 1)
        y = R.randn(64)
        no(linear.gabor, y, 16, 4, np.hamming(e))
        yes(linear.gabor, y, 16, 4, np.hamming(e + 1))
        yes(cohen.smoothed_pseudo_wigner_ville, x, twindow=o, fwindow=o)
        yes(reassigned.spectrogram, x, window=o)
        yes(reassigned.pseudo_wigner_ville, x, fwindow=o)
        yes(reassigned.pseudo_margenau_hill, x, fwindow=o)
        yes(reassigned.pseudo_page, x, fwindow=o)
        yes(reassigned.smoothed_pseudo_wigner_ville, x, twindow=o, fwindow=o)
    elif topic == "irregular":
        x = R.randn(n) + 1j * R.randn(n)
        good = np.arange(r.randint(0, 3), n, r.choice([1, 2, 3]))
        for kind in ("first", "last", "middle", "swap"):
            bad = good.copy()
            if kind == "first":
                bad = np.r_[bad[0], bad[2:]]
            elif kind == "last":
                bad = np.r_[bad[:-2], bad[-1]]
            elif kind == "middle":
                i = r.randint(1, len(bad) - 2)
                bad = np.delete(bad, i)
            else:
                bad[[0, 1]] = bad[[1, 0]]
            w = np.hamming(5)
            no(reassigned.spectrogram, x, time_samples=bad, window=w)
            no(reassigned.smoothed_pseudo_wigner_ville, x, timestamps=bad, fwindow=w, twindow=w)
            no(reassigned.morlet_scalogram, x, timestamps=bad, n_fbins=16)
        w = np.hamming(5)
        yes(reassigned.spectrogram, x, time_samples=good, window=w)
        yes(reassigned.smoothed_pseudo_wigner_ville, x, timestamps=good, fwindow=w, twindow=w)
        yes(reassigned.morlet_scalogram, x, timestamps=good, n_fbins=16)
    elif topic == "two dims":
        m = r.randint(2, 5)
        n = max(n, 4)
        x2 = R.randn(n, m)
        x1 = R.randn(n)
        for f in (pr.loctime, pr.locfreq, pr.inst_freq, pr.group_delay):
            no(f, x2)
            no(f, x2.T)
            yes(f, x1)
            yes(f, x1.reshape(-1, 1))
            yes(f, x1.reshape(1, -1))
        no(pr.inst_freq, x1, np.arange(2, n - n % 2).reshape(2, -1) if n > 5 else np.array([[2, 3], [2, 3]]))
        no(ambiguity.wide_band, x2, 0.1, 0.4, 16)
        no(ambiguity.wide_band, x2.T, 0.1, 0.4, 16)
        yes(ambiguity.wide_band, R.randn(n + 8, 1), 0.1, 0.4, 16)
    elif topic == "sigmerge":
        a = R.randn(n)
        no(g.sigmerge, R.randn(n, 2), R.randn(n, 2))
        no(g.sigmerge, a.reshape(-1, 1), a)
        no(g.sigmerge, a, a.reshape(1, -1))
        yes(g.sigmerge, a, R.randn(n), 3.0)
        yes(g.sigmerge, a, R.randn(n), 3)
    elif topic == "ridges":
        t = R.rand(6, 5)
        rm = np.tile(np.arange(6.0)[:, None], (1, 5)) + 1j * np.arange(5)[None, :]
        for m in ("", "foo", "rspw", "wigner", "type3", "rsp ", "tfrrsp"):
            no(postprocessing.ridges, t, rm, None, m)
        for m in ("rsp", "RSP", "type1", "Type1", "rspwv", "RSPWV"):
            yes(postprocessing.ridges, t, rm, None, m)
        for m in ("rpwv", "rpmh", "RPMH"):
            yes(postprocessing.ridges, t, rm.real, None, m)
    elif topic == "renyi":
        t = R.rand(r.randint(2, 9), r.randint(2, 9)) + 0.1
        for v in (-1e-9, -1e-3, -1.0):
            b = t.copy()
            b[r.randrange(b.shape[0]), r.randrange(b.shape[1])] = v
            no(postprocessing.renyi_information, b, alpha=1)
            no(postprocessing.renyi_information, b, alpha=1.0)
            yes(postprocessing.renyi_information, b, alpha=3)
            yes(postprocessing.renyi_information, b, alpha=2)
        z = t.copy()
        z[0, 0] = 0.0
        yes(postprocessing.renyi_information, z, alpha=1)
