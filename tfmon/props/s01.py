import numpy as np
from tfmon.props import _api as A
ID = "S01"
RULE = "Every public call taking arrays x drawn arguments, arrays writable or read-only, some records longer than 64, bytes of every argument compared before and after, and of an earlier result after a further call; every representation class driven through run/plot/run/attribute sequences with the first results and the object's state compared."
REQUIRED = {"read-only": 200, "writable": 200, "earlier result": 400, "object:plot": 100, "object:rerun": 100, "object:state after plot": 100}
REQUIRED.update({n: 10 for n in A.ARRAYS})


def cases(tier, rng):
    out = []
    for name in A.ARRAYS:
        for i in range(10 if tier == "quick" else 30):
            out.append(dict(name=name, seed=rng.randint(0, 10 ** 6), ro=i % 2, ints=rng.random() < 0.2))
    for name in A.COHEN + A.AFFINE:
        for i in range(6 if tier == "quick" else 14):
            out.append(dict(obj=name, seed=rng.randint(0, 10 ** 6), seq=[rng.choice(["run", "plot", "contour", "tf", "other", "plot"]) for _ in range(4)], sq=rng.random() < 0.5))
    return out


def snap(arrs):
    return {k: (a.shape, a.dtype.str, a.tobytes()) for k, a in arrs}


def check(mon, c):
    if "obj" in c:
        return objects(mon, c)
    name = c["name"]
    mon.saw(name)
    fn, args, kw = A.build(name, c["seed"], c["ints"], True)
    arrs = A.arrays(args, kw)
    before = snap(arrs)
    if c["ro"]:
        for _, a in arrs:
            a.setflags(write=False)
    mon.saw("read-only" if c["ro"] else "writable")
    r1 = mon.call(fn, *args, _name=name, **kw)
    for k, (sh, dt, by) in before.items():
        a = dict(arrs)[k]
        mon.ok((a.shape, a.dtype.str) == (sh, dt) and a.tobytes() == by, "argument changed:%s" % name, "argument %r of %s was modified" % (k, name))
    f1 = A.frozen(r1)
    fn2, args2, kw2 = A.build(name, c["seed"] + 1, c["ints"], True)
    mon.call(fn2, *args2, _name=name, **kw2)
    # the same shapes again, other numbers
    def other(v):
        return v[::-1].copy() if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.ndim == 1 and not np.isnan(v).any() and v.size > 2 and name not in ("renyi_information", "integrate_2d", "fmpar", "fmpower", "fmhyp") else v
    try:
        fn(*[other(v) for v in args], **kw)
    except Exception:
        pass
    mon.saw("earlier result")
    mon.ok(A.frozen(r1) == f1, "earlier result changed:%s" % name, "a later call changed an earlier result of %s" % name)
    for k, (sh, dt, by) in before.items():
        mon.ok(dict(arrs)[k].tobytes() == by, "argument changed later:%s" % name, "argument %r" % k)


def state(o):
    return [np.array(o.tfr), np.array(o.ts), np.array(o.timestamps), np.array(o.freqs)]


def objects(mon, c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    name = c["obj"]
    cls, x, kw = A.ctor(name, np.random.RandomState(c["seed"]))
    if c["sq"] and name not in A.AFFINE:
        kw.pop("timestamps", None)
        kw.pop("n_fbins", None)
    arrs = [("signal", x)] + [(k, v) for k, v in kw.items() if isinstance(v, np.ndarray)]
    before = snap(arrs)
    o = mon.call(cls, x, **kw, _name=name)
    r1 = mon.call(o.run, _name=name + ".run")
    f1 = A.frozen(r1)
    first = A.copies(r1)
    if np.isnan(np.abs(r1[0]).max()) or len(r1[1]) < 2 or r1[0].shape[0] < 4:
        return
    st = state(o)
    mon.ok(A.same([r1[0] if name != "Scalogram" else st[0], r1[1]], [st[0], st[1]]) is None, "object state:%s" % name, lambda: "tfr/ts of the object are not the ones returned")
    for step in c["seq"]:
        if step == "run":
            r = mon.call(o.run, _name=name + ".run")
            mon.saw("object:rerun")
            m = A.same(first, A.copies(r))
            mon.ok(m is None, "second run:%s" % name, lambda: m)
        elif step == "other":
            _, x2, kw2 = A.ctor(name, np.random.RandomState(c["seed"] + 1))
            mon.call(lambda: cls(x2, **kw2).run(), _name=name + ".run")
        else:
            k = dict(show=False, default_annotation=bool(c["seed"] % 2))
            if step == "contour":
                k["kind"] = "contour"
            elif step == "plot" and name not in A.AFFINE:
                k["kind"] = "cmap"
            if step == "tf":
                k["show_tf"] = True
                k["kind"] = "cmap" if name not in A.AFFINE else "contour"
            if np.ptp(np.abs(r1[0])) == 0:
                continue
            try:
                mon.call(o.plot, _name=name + ".plot", **k)
            finally:
                plt.close("all")
            mon.saw("object:plot")
            now = state(o)
            mon.saw("object:state after plot")
            m = A.same(st, now, rtol=0)
            mon.ok(m is None, "plot changed the object:%s" % name, lambda: "after plot(%r): %s" % (k, m))
        mon.ok(A.frozen(r1) == f1, "earlier result changed:%s" % name, "after %s" % step)
    for k, (sh, dt, by) in before.items():
        mon.ok(dict(arrs)[k].tobytes() == by, "argument changed:%s" % name, "argument %r of %s was modified" % (k, name))
