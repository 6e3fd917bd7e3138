"""C06: the same image scores the same however it is passed in."""

import os

import numpy as np
import torch

from harness import metrics as M
from harness import reprs as R
from harness.c05 import vec
from harness.lib import num, outcome


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    torch.set_num_threads(1)
    d = ctx.tmp("f")
    os.chdir(d)
    store = R.Store(d, rng)
    lays = {2: ctx.cases["layout2"], 3: ctx.cases["layout3"]}

    def images():
        """Pairs of images: (reference, modified, metric names, parameters)."""
        out = []
        for dt in ("uint8", "uint16", "float32", "float64", "int16", "int32", "uint32"):
            r, m = (x.astype(dt) for x in M.visible(npr, M.smooth(npr, (46, 48))))
            out.append((r, m.astype(dt), [*M.FR, "SNR", "CNR"]))
            r, m = (x.astype(dt) for x in M.visible(npr, M.smooth(npr, (45, 46, 4))))
            out.append((r, m.astype(dt), [*M.SLICED]))
            r = M.smooth(npr, (13, 12, 14)).astype(dt)
            m = (M.smooth(npr, (13, 12, 14)) // 2).astype(dt) + r // 2
            out.append((r, m.astype(dt), ["RMSE", "PSNR", "SSIM", "UQI", "SNR", "CNR"]))
        r = np.stack([M.smooth(npr, (46, 47)) for _ in range(3)], -1)
        m = np.stack([M.smooth(npr, (46, 47)) for _ in range(3)], -1)
        out.append((r, m, [*M.FR, "SNR"]))
        # extents that could be mistaken for channels, batches or lists
        for shape in ((3, 13, 14), (1, 12, 13), (4, 9, 11), (12, 3, 13), (3, 3, 7), (19, 3), (3, 21), (12, 13, 1)):
            dt = rng.choice(("uint8", "uint16", "float32", "float64"))
            out.append((npr.integers(0, 250, shape).astype(dt), npr.integers(0, 250, shape).astype(dt),
                        ["RMSE", "PSNR"]))
        return out

    def params(n, a):
        prm = dict(M.FR.get(n, {}))
        if n in ("SNR", "CNR"):
            nd = 2 if a.ndim == 2 or a.shape[-1] == 3 else 3
            prm = {"signal_center": (6, 5, 6)[:nd], "radius": 4, "region_type": "spherical"}
            if n == "CNR":
                prm["background_center"] = (7, 7, 8)[:nd]
        elif a.ndim == 3 and a.shape[-1] != 3:
            if n in M.SLICED:
                prm.update(dim=2)
            elif n in ("SSIM", "UQI"):
                prm["win_size"] = 5
                if n == "SSIM":
                    prm["gaussian_weights"] = False
        return prm

    def ctor(a):
        """Constructor settings: plain, normalised to each range, with a region."""
        roi = [(1, s) for s in a.shape[:2]]
        if a.ndim == 3 and a.shape[-1] != 3:
            roi.append((0, a.shape[2]))
        return {"plain": {}, "norm": {"normalize": True},
                "norm1": {"normalize": True, "data_range": 1},
                "norm16": {"normalize": True, "data_range": 65535},
                "roi": {"roi": roi}, "both": {"roi": roi, "normalize": True}}

    def score(n, r, m, a, c):
        prm = params(n, a)
        mt = M.make(viqa, n, **ctor(a)[c])
        if n in ("SNR", "CNR"):
            return outcome(mt.score, m, **prm)
        return outcome(mt.score, r, m, **prm)

    sets = images()
    fimg, fsc = {}, {}
    for i, (r, m, ns) in enumerate(sets):
        for j, a in enumerate((r, m)):
            fimg[i, j, "plain"] = ctx.fact(shape=list(a.shape), dtype=str(a.dtype), h=R.digest(a))

    def fact(i, n, c):
        if (i, n, c) not in fsc:
            r, m, _ = sets[i]
            res, v = score(n, r.copy(), m.copy(), r, c)
            fsc[i, n, c] = ctx.fact(metric=n, ctor=c, res=res, v=vec(v))
        return fsc[i, n, c]

    LOADS = {"plain": {}, "norm": {"data_range": 255, "normalize": True},
             "norm1": {"data_range": 1, "normalize": True},
             "norm16": {"data_range": 65535, "normalize": True}}

    def ifact(i, j, c):
        if (i, j, c) not in fimg:
            res, v = outcome(viqa.load_data, sets[i][j].copy(), **LOADS[c])
            assert res == "ok"
            fimg[i, j, c] = ctx.fact(shape=list(v.shape), dtype=str(v.dtype), h=R.digest(v))
        return fimg[i, j, c]

    def load(i, j, kind, lay):
        a = sets[i][j]
        o = R.represent(viqa, a, kind, lay, store)
        c = rng.choice(["plain", "plain", "norm", "norm1", "norm16"])
        res, v = outcome(viqa.load_data, o, **LOADS[c])
        rec = ctx.ev("load", fact=ifact(i, j, c), res=res,
                     type=type(v).__name__, shape=list(v.shape) if res == "ok" else [],
                     dtype=str(v.dtype) if res == "ok" else "",
                     h=R.digest(v) if res == "ok" else "",
                     _in={"form": kind, "load": c, "shape": list(a.shape), "dtype": str(a.dtype),
                          "layout": lay if "layout" in kind else None,
                          "object": type(o).__name__})
        ctx.neg("values", rec, h="0")
        ctx.neg("type", rec, dtype="int64")
        ctx.neg("class", rec, type="ndarray")
        return o

    # loading: every form of every image, every layout
    jobs = []
    for i, (r, m, ns) in enumerate(sets):
        for j in (0, 1):
            a = sets[i][j]
            ls = lays[a.ndim]
            for kind in R.memory_kinds(a) + R.file_kinds(a):
                if "layout" in kind:
                    sub = ls if ctx.thorough or a.ndim == 2 else rng.sample(ls, 24)
                    jobs += [(i, j, kind, x) for x in sub]
                else:
                    jobs.append((i, j, kind, None))
    for job in ctx.mine(jobs):
        load(*job)

    # scoring: pairs of forms
    jobs = []
    for i, (r, m, ns) in enumerate(sets):
        ks = R.memory_kinds(r) + R.file_kinds(r)
        for n in ns:
            ps = [(a, b) for a in ks for b in ks]
            k = len(ps) if ctx.thorough else (16 if n in ("RMSE", "PSNR", "UQI") else 7)
            for a, b in rng_sample(ctx, ps, k, (i, n)):
                jobs.append((i, n, a, b))
    # the same for all shards, then divided
    for i, n, a, b in ctx.mine(jobs):
        r, m, _ = sets[i]
        la, lb = rng.choice(lays[r.ndim]), rng.choice(lays[r.ndim])
        c = rng.choice(["plain", "plain", *ctor(r)])
        res, v = score(n, R.represent(viqa, r, a, la, store),
                       R.represent(viqa, m, b, lb, store), r, c)
        rec = ctx.ev("score", fact=fact(i, n, c), res=res, v=vec(v),
                     _in={"metric": n, "constructor": c, "shape": list(r.shape), "dtype": str(r.dtype),
                          "reference": a, "modified": b, "layouts": [la, lb],
                          "outcome": res, "value": repr(v)})
        if res == "ok" and rec["v"][0]["k"] == "n":
            ctx.neg("score", rec, v=[num(float(np.ravel(v)[0]) * 1.0001 + 1e-4),
                                     *rec["v"][1:]])
        ctx.neg("outcome", rec, res="TypeError")


def rng_sample(ctx, seq, k, salt):
    import random
    g = random.Random(repr((ctx.seed, salt)))
    return g.sample(seq, min(k, len(seq)))
