import numpy as np
from tfmon.core import rng_for
ID = "G01"
RULE = ("One case per (generator, n_points, parameter variant): every length from the minimum to 66, powers of two and neighbours, "
        "primes and large lengths; parameters default or drawn from the seed.")
REQUIRED = {"odd n": 100, "even n": 100, "n<=3": 20, "n>=1000": 10}
ASSUMPTIONS = ["n_points is a Python int >= 1 (klauder, dopnoise >= 2; gdpower >= 3; anasing >= 4)."]


def _g():
    import tftb.generators as g
    return g


# name -> (min n, function(g, n, r) -> list of (callable, args, kwargs, expected lengths))
def table(g, name, n, r):
    u = r.uniform
    t0 = r.choice([None, 1, n, max(1, n // 2), max(1, n // 3)])
    f, f2 = u(-0.5, 0.5), u(-0.5, 0.5)
    fp = u(0.0, 0.5)
    nc = r.choice([None, 1, n, n + 3, max(1, n // 2), max(1, n // 3), max(1, n // 7), r.randint(1, n)])
    spread = u(0.3, 3.0 * n)
    L1 = [n]
    T = {
        "amgauss": [((n,), {}, L1), ((n, t0 or u(-5, n + 5), spread), {}, L1)],
        "amexpos": [((n,), {}, L1), ((n, u(-5, n + 5), spread), dict(kind=r.choice(["bilateral", "unilateral"])), L1)],
        "amrect": [((n,), {}, L1), ((n, u(-5, n + 5), spread), {}, L1)],
        "amtriang": [((n,), {}, L1), ((n, u(-5, n + 5), spread), {}, L1)],
        "fmconst": [((n,), {}, [n, n]), ((n, f, u(-3, n + 3)), {}, [n, n]), ((n, r.choice([-0.5, 0.5, 0.0])), {}, [n, n])],
        "fmlin": [((n,), {}, [n, n]), ((n, f, f2, t0), {}, [n, n]), ((n, 0.5, -0.5), {}, [n, n])],
        "fmsin": [((n,), {}, [n, n]), ((n, fp * 0.4, 0.2 + fp * 0.5, u(2, 2.0 * n + 3), u(1, n + 1.0), None, r.choice([1, -1])), {}, [n, n])],
        "fmpar": [((n, (u(0, 0.5), u(-0.5, 0.5) / n, u(-0.5, 0.5) / n ** 2)), {}, [n, n])],
        "fmhyp": [((n, (1, u(0.1, 0.5)), (r.randint(2, n + 5), u(0.0, 0.5))), {}, [n, n])],
        "fmpower": [((n, r.choice([0.3, 0.5, 1, 2, 3, -1, 1.5]), (1, u(0.1, 0.5), r.randint(2, n + 5), u(0, 0.5))), {}, [n, n]),
                    ((n, r.choice([0.3, 0.5, 1, 2, 3]), (u(0, 0.3), u(0, 0.2))), {}, [n, n])],
        "anaask": [((n, nc), dict(f0=fp), [n, n])],
        "anabpsk": [((n, nc), dict(f0=fp), [n, n])],
        "anaqpsk": [((n, nc), dict(f0=fp), [n, n])],
        "anafsk": [((n, nc, r.choice([1, 2, 3, 4, 5, 8])), {}, [n, n])],
        "anapulse": [((n,), {}, L1), ((n, r.randint(0, n - 1)), {}, L1)],
        "anastep": [((n,), {}, L1), ((n, r.randint(0, n - 1)), {}, L1)],
        "anasing": [((n,), {}, L1), ((n, r.randint(1, n), u(-1.5, 1.5)), {}, L1)],
        "noisecg": [((n,), {}, L1)],
        "noisecu": [((n,), {}, L1)],
        "dopnoise": [((n, 200.0, u(5, 95), u(1, 20), u(0, 80)), {}, [n, n]),
                     ((n, 200.0, u(5, 95), u(1, 20), u(0, 80), u(1, n), u(300, 900)), {}, [n, n])],
        "altes": [((n,), {}, L1), ((n, u(0.02, 0.15), u(0.2, 0.5), u(20, 20000)), {}, L1)],
        "klauder": [((n,), {}, L1), ((n, u(3, 15), u(0.15, 0.4)), {}, L1)],
        "gdpower": [((n,), {}, [n, (n + 1) // 2, (n + 1) // 2]),
                    ((n, r.choice([-1.0, 0.0, 0.5, 1.0, 1.5, 2.0]), r.choice([0.3, 1.0, -0.5])), {}, [n, (n + 1) // 2, (n + 1) // 2])],
        "doppler": [((n, 200.0, u(0, 100), u(0.5, 20), u(0, 60), r.choice([1, n, (n + 1) / 2.0])), {}, [n, n, n]),
                    ((n, 200.0, 0.0, u(0.5, 20), u(0, 60), 1), {}, [n, n, n])],
        "atoms": [((n, np.array([[u(1, n), u(0, 0.5), u(1, n + 1.0), u(0.2, 2)] for _ in range(r.randint(1, 4))])), {}, L1)],
    }
    return T[name]


NAMES = {"amgauss": 1, "amexpos": 1, "amrect": 1, "amtriang": 1, "fmconst": 1, "fmlin": 1, "fmsin": 1, "fmpar": 1, "fmhyp": 1,
         "fmpower": 1, "anaask": 1, "anabpsk": 1, "anaqpsk": 1, "anafsk": 1, "anapulse": 1, "anastep": 1, "anasing": 4, "noisecg": 1,
         "noisecu": 1, "dopnoise": 2, "altes": 1, "klauder": 2, "gdpower": 3, "doppler": 1, "atoms": 1}


def cases(tier, rng):
    out = []
    ns = list(range(1, 67)) + [97, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 499, 512, 1000, 1023, 1024, 1025, 2000]
    if tier == "thorough":
        ns = list(range(1, 420)) + [499, 500, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 10007]
    for name, lo in NAMES.items():
        for n in ns:
            if n >= lo:
                out.append(dict(gen=name, n=n, seed=rng.randint(0, 10 ** 9)))
        for _ in range(6 if tier == "quick" else 40):
            out.append(dict(gen=name, n=rng.randint(max(lo, 67), 3000), seed=rng.randint(0, 10 ** 9)))
    return out


def check(mon, c):
    g = _g()
    n, name = c["n"], c["gen"]
    r = rng_for(c["seed"], "g01")
    np.random.seed(c["seed"] % 2 ** 32)
    mon.saw("odd n" if n % 2 else "even n")
    if n <= 3:
        mon.saw("n<=3")
    if n >= 1000:
        mon.saw("n>=1000")
    for args, kw, lens in table(g, name, n, r):
        if name == "doppler" and n == 1 and len(args) < 6:
            continue
        res = mon.call(getattr(g, name), *args, **kw)
        parts = list(res) if isinstance(res, tuple) else [res]
        mon.ok(len(parts) == len(lens), name + ":parts", "%d results" % len(parts))
        for i, (p, L) in enumerate(zip(parts, lens)):
            mon.shape(p, (L,), "%s[%d]" % (name, i))
            mon.finite(p, "%s[%d]" % (name, i))
