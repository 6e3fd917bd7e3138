"""C27: gradient kernels, filtering, gradient similarity."""

import numpy as np

from harness import metrics as M
from harness.lib import flat, num, outcome

MODES = ["constant", "reflect", "nearest", "mirror", "wrap"]


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    from viqa import kernels
    from viqa.utils import correlate_convolve_abs

    cases = ctx.cases["kernels2"] + ctx.cases["kernels3"]
    for c in ctx.mine(cases):
        f = getattr(kernels, c["name"], None)
        res, k = outcome(f) if f else ("absent", None)
        px = flat(k) if res == "ok" else []
        rec = ctx.ev("kernel", name=c["name"], res=res, shape=list(k.shape) if res == "ok" else [], px=px,
                     _in={"kernel": c["name"]})
        if res == "ok":
            i = next(i for i, v in enumerate(px) if v)
            ctx.neg("sign", rec, px=px[:i] + [-px[i]] + px[i + 1:])
            ctx.neg("negated", rec, px=[-v for v in px])
            e = k.copy()
            e.flat[0] += 1
            ctx.neg("entry", rec, px=flat(e))
            ctx.neg("transposed", rec, px=flat(k.T if not np.array_equal(k, k.T) else -k.T))

    names = [c["name"] for c in cases]
    n = ctx.share(240, 1600)
    for _ in range(n):
        nd = 2 if rng.random() < 0.75 else 3
        top = 6 if nd == 2 else 4
        shape = [rng.randint(1, top) for _ in range(nd)]
        ks = rng.choice([1, 3, 3, 5] if nd == 2 else [1, 3])
        t = rng.choice(["uint8", "int16", "int64", "float64", "float32"])
        lo = 0 if t == "uint8" else -40
        img = npr.integers(lo, 200, shape).astype(t)
        if rng.random() < 0.5:
            cand = [x for x in names if ("2d" in x) == (nd == 2)]
            kern = getattr(kernels, rng.choice(cand))()
            if nd == 3 and kern.shape[0] == 5:
                shape = [min(s, 2) for s in shape]
                img = img[tuple(slice(0, s) for s in shape)]
            ks = kern.shape[0]
        else:
            kern = npr.integers(-9, 10, [ks] * nd)
        conv = rng.random() < 0.5
        mode = rng.choice(MODES)
        value = rng.choice([0, 0, 7, 30])
        kw = {}
        if conv or rng.random() < 0.5:
            kw["mode"] = "convolve" if conv else "correlate"
        if mode != "constant" or rng.random() < 0.5:
            kw["border_mode"] = mode
        if value:
            kw["value"] = value
        given, keep = img.copy(), kern.copy()
        res, out = outcome(correlate_convolve_abs, given, kern, **kw)
        if not np.array_equal(given, img) or not np.array_equal(keep, kern):
            res = "changed"
        rec = ctx.ev("filter", res=res, shape=shape, ks=ks, conv=conv, mode=mode, value=value, img=flat(img),
                     kernel=flat(keep), oshape=list(np.shape(out)) if res == "ok" else [],
                     out=[num(v) for v in np.ravel(out)] if res == "ok" else [],
                     _in={"shape": shape, "kw": kw, "kernel": flat(keep), "img": flat(img), "dtype": t,
                          "outcome": res})
        if res == "ok" and rng.random() < 0.3:
            o = [num(v) for v in np.ravel(out)]
            i = rng.randrange(len(o))
            ctx.neg("value", rec, out=o[:i] + [num(float(np.ravel(out)[i]) + 0.01)] + o[i + 1:])
            if not np.allclose(np.roll(out, 1), out):
                ctx.neg("shifted", rec, out=[num(v) for v in np.roll(np.ravel(out), 1)])
    if ctx.shard == 0:
        a = np.ones((4, 4))
        for kw in ({"border_mode": "no"}, {"border_mode": "edge"}):
            res, _ = outcome(correlate_convolve_abs, a, np.ones((3, 3)), **kw)
            rec = ctx.ev("refuse", res=res, _in={"kw": kw})
            ctx.neg("accepted", rec, res="ok")

    # gradient similarity of small images
    for _ in range(ctx.share(120, 900)):
        nd = 2 if rng.random() < 0.85 else 3
        shape = [rng.randint(1, 7) for _ in range(2)] if nd == 2 else \
            [rng.randint(1, 4), rng.randint(2, 4), rng.choice([1, 2, 4])]
        top = rng.choice([1, 9, 255])
        kind = rng.randrange(5)
        r = npr.integers(0, top + 1, shape)
        m = npr.integers(0, top + 1, shape)
        if kind == 1:                                   # ramps in some direction
            d = [rng.choice([-1, 0, 1]) for _ in range(nd)]
            idx = np.indices(shape)
            ramp = sum(a * i for a, i in zip(d, idx)) * max(1, top // 20)
            r = ramp - ramp.min()
            m = np.clip(r + npr.integers(-1, 2, shape), 0, 255)
        elif kind == 2:
            m = np.clip(r + npr.integers(-3, 4, shape), 0, 255)
        elif kind == 3:
            m = np.full(shape, int(r.flat[0]))
            if rng.random() < 0.5:
                r, m = m, r
            if rng.random() < 0.3:
                r = np.full(shape, rng.randint(0, top))
        r, m = np.clip(r, 0, 255), np.clip(m, 0, 255)
        t = rng.choice(["uint8", "uint16", "int32", "float64"])
        dr = rng.choice([255, 255, 1, 65535]) if rng.random() < 0.5 else 255
        c = rng.choice([200, 200, 500, 1000])
        pn, pd = rng.choice([(1, 10), (1, 10), (1, 4), (0, 1), (2, 5)])
        kw = {}
        if c != 200 or rng.random() < 0.3:
            kw["c"] = c
        if (pn, pd) != (1, 10) or rng.random() < 0.3:
            kw["p"] = pn / pd
        if nd == 3:
            kw |= {"dim": rng.randrange(3), "experimental": True}
        mt = viqa.GSM(data_range=dr)
        with np.errstate(all="ignore"):
            res, v = outcome(mt.score, r.astype(t), m.astype(t), **kw)
        rec = ctx.ev("gsm", res=res, shape=shape, r=flat(r), m=flat(m), range=dr, c=c, pn=pn, pd=pd,
                     v=num(v), _in={"shape": shape, "r": flat(r), "m": flat(m), "dtype": t, "data_range": dr,
                                    "kw": kw, "value": repr(v), "outcome": res})
        if res == "ok":
            ctx.neg("value", rec, v=num(float(v) + 0.0001))
            if not np.array_equal(r, m) and nd == 2 and pn:
                ctx.neg("weight", rec, pn=pn, pd=pd + 1) if abs(float(v) - 1) > 0.02 else None
    for _ in range(ctx.share(24, 120)):
        a = M.smooth(npr, (rng.randint(12, 40), rng.randint(12, 40)), 0, 200, np.int64)
        b = np.clip(a + npr.integers(-30, 31, a.shape), 0, 200)
        k = rng.randint(1, 55)
        t = rng.choice(["uint8", "int32", "float64"])
        with np.errstate(all="ignore"):
            res, v = outcome(viqa.GSM(data_range=255).score, (a + k).astype(t), (b + k).astype(t))
            _, w = outcome(viqa.GSM(data_range=255).score, a.astype(t), b.astype(t))
        rec = ctx.ev("shift", res=res, v=num(v), w=num(w), _in={"shape": list(a.shape), "add": k, "dtype": t,
                                                              "values": [repr(v), repr(w)]})
        if res == "ok":
            ctx.neg("value", rec, v=num(float(v) + 0.0001))
