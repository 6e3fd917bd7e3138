"""C26: what is scored of colour and grey images."""

import os

import numpy as np
import torch

from harness import metrics as M
from harness.lib import flat, num, outcome

COLOUR = ["RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"]
PERFECT = {"RMSE": 0.0, "PSNR": float("inf"), "MAD": 0.0}
LUM = np.array([0.2125, 0.7154, 0.0721])


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng

    def value(v):
        return num(float(np.ravel(v)[0])) if v is not None else num(None)

    def wrap(a):
        k = rng.randrange(5)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            return viqa.ImageArray(a)
        if k == 2 and a.dtype not in (np.uint16, np.uint32):
            return torch.from_numpy(np.ascontiguousarray(a))
        if k == 3:
            w = np.zeros([2 * n for n in a.shape], a.dtype)
            sl = tuple(slice(None, None, 2) for _ in a.shape)
            w[sl] = a
            return w[sl]
        return a

    def score(name, a, b, colour, dr=255, raw=False, **kw):
        prm = {**M.FR[name], **kw}
        if colour and name == "SSIM":
            prm.setdefault("color_weights", np.array([1.0, 1.0, 1.0]))
        kwm = {"chromatic": colour}
        if not colour and rng.random() < 0.5:
            kwm = {}
        mt = M.make(viqa, name, data_range=dr, **kwm)
        return outcome(mt.score, a if raw else wrap(a), b if raw else wrap(b), **prm)

    # 1. exact differences on small images of every shape
    TYPES = {"uint8": 255, "uint16": 60000, "int16": 30000, "int32": 90000, "float32": 255,
             "float64": 90000}
    cases = ctx.mine(ctx.cases["colour"])
    for c in cases:
        shape = tuple(c["shape"])
        for _ in range(12 if ctx.thorough else 4):
            t = rng.choice(sorted(TYPES))
            top = rng.choice([1, 3, TYPES[t]])
            r = npr.integers(0, top + 1, shape).astype(t)
            m = npr.integers(0, top + 1, shape).astype(t)
            if rng.random() < 0.3:
                m = r.copy()
                m[tuple(rng.randrange(n) for n in shape)] += 1 if top < TYPES[t] else 0
            mt = viqa.RMSE(chromatic=c["colour"])
            res, v = outcome(mt.score, wrap(r), wrap(m))
            rec = ctx.ev("rmse", shape=list(shape), colour=c["colour"], res=res, v=value(v),
                         r=flat(r), m=flat(m),
                         _in={"shape": list(shape), "chromatic": c["colour"], "dtype": t,
                              "r": flat(r), "m": flat(m), "outcome": res, "value": repr(v)})
            if res == "ok":
                ctx.neg("value", rec, v=num(float(v) * 1.001 + 0.001))
                ctx.neg("rejected", rec, res="ValueError")
                if len(shape) == 3 and shape[2] == 3 and top > 3:
                    w = np.sqrt(np.mean((r.mean(-1, dtype=float) - m.mean(-1, dtype=float)) ** 2))
                    if abs(w - float(v)) > 0.01 * abs(float(v)) + 0.01:
                        ctx.neg("average", rec, v=num(w))
            else:
                ctx.neg("accepted", rec, res="ok", v=num(1.0))
        if c["colour"] and c["out"] == "no":
            for name in M.FR:
                res, v = score(name, r, m, True)
                rec = ctx.ev("accept", shape=list(shape), colour=True, res=res,
                             _in={"metric": name, "shape": list(shape), "outcome": res})
                ctx.neg("accepted", rec, res="ok")

    # 2. metrics on larger images
    def images(t, noisy=False):
        h, w = rng.randint(44, 56), rng.randint(44, 56)
        k = rng.randrange(3)
        r = np.stack([M.smooth(npr, (h, w), 0, 255, np.int64) for _ in range(3)], -1)
        if noisy:                       # no flat parts
            r = 40 + r * 2 // 3 + npr.integers(-30, 31, r.shape)
        m = np.clip(r + npr.integers(-50, 51, r.shape), 0, 255)
        if k == 1:                      # only one channel differs
            q = r.copy()
            c = rng.randrange(3)
            q[..., c] = m[..., c]
            m = q
        elif k == 2:                    # smooth distortion
            m = np.clip((r * 3 + np.roll(r, 2, 0)) // 4, 0, 255)
        if t == "uint16":
            return r * 257, m * 257, r.astype(t) * 257, m.astype(t) * 257, 65535, 1
        if t == "unit":
            return r, m, r / 256, m / 256, 1, 256
        return r, m, r.astype(t), m.astype(t), 255, 1

    names = sorted(M.FR)
    jobs = [(n, t) for n in names for t in ["uint8", "uint16", "float64", "float32", "unit", "int32"]]
    jobs = ctx.mine(jobs)
    for name, t in jobs:
        for _ in range(3 if ctx.thorough else 1):
            ri, mi, r, m, dr, unit = images(t, name == "GSM")
            lr, lm = (ri @ LUM) / unit, (mi @ LUM) / unit
            res, v = score(name, r, m, False, dr)
            _, w = score(name, lr, lm, False, dr, raw=True)
            pos = [(rng.randrange(r.shape[0]), rng.randrange(r.shape[1])) for _ in range(12)]
            px = [{"p": [int(x) for x in ri[p]], "lum": num(lr[p])} for p in pos] + \
                 [{"p": [int(x) for x in mi[p]], "lum": num(lm[p])} for p in pos]
            info = {"metric": name, "dtype": t, "shape": list(r.shape), "outcome": res,
                    "value": repr(v), "luminance": repr(w)}
            rec = ctx.ev("lum", res=res, v=value(v), w=value(w), px=px, unit=unit, _in=info)
            if res == "ok" and np.isfinite(float(v)):
                ctx.neg("value", rec, v=num(float(v) * 1.002 + 0.001))
                ctx.neg("made", rec, px=[{**px[0], "lum": num(float(lr[pos[0]]) * 1.01 + 0.01)}])
                ctx.neg("rejected", rec, res="ValueError")
            # equal channels are the grey image
            g = np.stack([r[..., 0]] * 3, -1)
            h = np.stack([m[..., 0]] * 3, -1)
            if np.array_equal(g, h):
                h = np.stack([m[..., 1]] * 3, -1)
            _, w = score(name, g[..., 0], h[..., 0], False, dr)
            # GSM leaves out pixels without any gradient, which rounding of the luminance changes
            for colour in ([False, True] if name in COLOUR else [False] if name != "GSM" else []):
                res, v = score(name, g, h, colour, dr)
                rec = ctx.ev("same", res=res, v=value(v), w=value(w), why="equal_channels_not_grey",
                             _in={**info, "chromatic": colour, "outcome": res, "value": repr(v),
                                  "grey": repr(w)})
                if res == "ok" and np.isfinite(float(v)):
                    ctx.neg("value", rec, v=num(float(v) * 1.002 + 0.001))
            if name not in COLOUR:
                continue
            if name == "SSIM":
                res, v = outcome(M.make(viqa, name, data_range=dr, chromatic=True).score, r, m)
                rec = ctx.ev("refuse", res=res, _in={**info, "what": "no weights", "outcome": res})
                ctx.neg("accepted", rec, res="ok")
            if name in ("SSIM", "MSSSIM"):
                w3 = [rng.randint(1, 9) for _ in range(3)] if name == "SSIM" else [1, 1, 1]
                den = 4 if name == "SSIM" else 1
                kw = {"color_weights": np.array(w3) / den} if name == "SSIM" else {}
                res, v = score(name, r, m, True, dr, **kw)
                cs = [float(score(name, r[..., c], m[..., c], False, dr)[1]) for c in range(3)]
                rec = ctx.ev("channels", res=res, v=value(v), cs=[num(x) for x in cs], w=w3, den=den,
                             _in={**info, "weights": w3, "channels": cs, "value": repr(v)})
                if res == "ok":
                    ctx.neg("value", rec, v=num(float(v) * 1.002 + 0.001))
                    if len(set(w3)) == 3 and min(abs(cs[0] - cs[2]), abs(cs[0] - cs[1])) > 0.02:
                        ctx.neg("other_order", rec, cs=[num(x) for x in (cs[2], cs[1], cs[0])])
            if name in ("RMSE", "PSNR", "SSIM", "MSSSIM"):
                p = [0, 1, 2]
                rng.shuffle(p)
                _, w = score(name, r, m, True, dr)
                res, v = score(name, r[..., p], m[..., p], True, dr)
                rec = ctx.ev("same", res=res, v=value(v), w=value(w), why="order_of_channels_matters",
                             _in={**info, "order": p, "value": repr(v), "with": repr(w)})
            if name == "VIFp":          # luminance of its own
                k = np.array([0.299, 0.587, 0.114])
                _, w = score(name, (ri @ k) / unit, (mi @ k) / unit, False, dr, raw=True)
                res, v = score(name, r, m, True, dr)
                if float(w) > 0.01:
                    ctx.ev("same", res=res, v=value(v), w=value(w), why="not_the_colours",
                           _in={**info, "value": repr(v), "with": repr(w)})
            # a change of hue alone
            if t in ("float64", "unit"):
                f = (ri * 0.35 + 80) / unit
                step = (M.smooth(npr, r.shape[:2], 0, 12, np.int64) + 4.0) / unit
                d = np.zeros_like(f)
                d[..., 0] = step * 7154 / 2125
                d[..., 1] = -step
                if rng.random() < 0.5:
                    d[..., 0] = 0
                    d[..., 2] = step * 7154 / 721 * 0.2
                    d[..., 1] = -step * 0.2
                q = f + d
                gres, g0 = score(name, f, q, False, dr)
                cres, c0 = score(name, f, q, True, dr)
                pf = num(PERFECT.get(name, 1.0))
                rec = ctx.ev("hue", gres=gres, cres=cres, g=value(g0), c=value(c0), perfect=pf,
                             _in={**info, "grey": repr(g0), "colour": repr(c0)})
                if gres == "ok" and cres == "ok":
                    ctx.neg("blind", rec, c=pf)
                    ctx.neg("seen", rec, g=value(c0))

    # 3. pairs which do not fit, several metrics at once, files
    if ctx.shard == 0:
        for name in sorted(M.FR):
            _, _, r, m, dr, _ = images("uint8")
            for colour in (False, True):
                for a, b in ((r, m[..., 0]), (r[..., 0], m), (r, m[:-1])):
                    res, v = score(name, a, b, colour)
                    rec = ctx.ev("refuse", res=res, _in={"metric": name, "shapes": [a.shape, b.shape],
                                                         "outcome": res})
                    ctx.neg("accepted", rec, res="ok")
    if ctx.shard == 1 % ctx.nshards:
        import skimage.io

        for _ in range(4 if ctx.thorough else 2):
            ri, mi, r, m, dr, unit = images("uint8")
            ns = rng.sample(sorted(set(M.FR) - {"MAD", "GSM"}), 4)
            ms = [M.make(viqa, n) for n in ns]
            lr, lm = ri @ LUM, mi @ LUM
            mm = viqa.MultipleMetrics(metrics=ms, metrics_parameters=[dict(M.FR[n]) for n in ns])
            res, _ = outcome(mm.calculate, r, m)
            out = mm.results
            d = ctx.tmp("col")
            os.makedirs(d, exist_ok=True)
            pr, pm = os.path.join(d, "r.png"), os.path.join(d, "m.png")
            skimage.io.imsave(pr, r, check_contrast=False)
            skimage.io.imsave(pm, m, check_contrast=False)
            for n, mt in zip(ns, ms):
                _, w = score(n, lr, lm, False, raw=True)
                v = out.get(M.NAME.get(n, n)) if res == "ok" and out is not None else None
                rec = ctx.ev("same", res=res if v is not None or res != "ok" else "absent", v=value(v),
                             w=value(w), why="several_metrics_not_luminance",
                             _in={"metric": n, "value": repr(v), "luminance": repr(w), "outcome": res})
                if v is not None:
                    ctx.neg("value", rec, v=num(float(v) * 1.002 + 0.001))
                for colour in ([False, True] if n in COLOUR else [False]):
                    _, w = score(n, r, m, colour, raw=True)
                    res2, v = score(n, pr, pm, colour, raw=True)
                    ctx.ev("same", res=res2, v=value(v), w=value(w), why="files_differ",
                           _in={"metric": n, "value": repr(v), "arrays": repr(w), "chromatic": colour,
                                "outcome": res2})
