"""C14: full-reference metrics reach their optimum exactly for identical images."""

import numpy as np
import torch

from harness import metrics as M
from harness.lib import exact, num, outcome

CHROM = ["RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"]


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    torch.set_num_threads(1)

    def params(n, a, chrom):
        prm = dict(M.FR[n])
        if a.ndim == 3 and a.shape[-1] != 3:
            if n in M.SLICED:
                prm["dim"] = a._dim
                if a._slice is not None:
                    prm["im_slice"] = a._slice
            elif n in ("SSIM", "UQI"):
                prm["win_size"] = 5
                if n == "SSIM":
                    prm["gaussian_weights"] = False
        elif n == "SSIM":
            k = rng.randrange(3)
            if k == 1:
                prm.update(gaussian_weights=False, win_size=rng.choice([3, 5, 7]))
            elif k == 2:
                prm.update(alpha=rng.choice([1, 2]), K2=rng.choice([0.03, 0.1]))
        elif n == "UQI" and rng.random() < 0.5:
            prm["win_size"] = rng.choice([3, 5, 9])
        elif n == "MAD" and rng.random() < 0.5:
            prm.update(block_size=rng.choice([16, 8, 12]), block_overlap=rng.choice([0.5, 0.75, 0]))
        elif n == "GSM" and rng.random() < 0.5:
            prm.update(c=rng.choice([200, 500]), p=rng.choice([0.05, 0.1, 0.3]))
        if chrom and n == "SSIM":
            prm["color_weights"] = np.array([1.0, 1.0, 1.0])
        return prm

    class V(np.ndarray):
        _dim, _slice = 2, None

    def info(n, a, prm, chrom, dr):
        return {"metric": n, "shape": list(a.shape), "dtype": str(a.dtype), "data_range": dr,
                "settings": {k: str(v) for k, v in prm.items()}, "chromatic": chrom}

    def one(n, a, chrom=False, dr=255):
        prm = params(n, a, chrom)
        p = np.array(a)
        kw = {"chromatic": True} if chrom else {}
        res, v = outcome(M.make(viqa, n, data_range=dr, **kw).score, p, p.copy(), **prm)
        rec = ctx.ev("self", metric=n, res=res, v=num(v),
                     _in={**info(n, a, prm, chrom, dr), "outcome": res, "value": repr(v),
                          "pixels": np.array(a).ravel()[:8].astype(float).tolist()})
        ctx.neg("self_" + n, rec, limit=1, v=num(0.9999))

    def two(n, a, b, chrom=False, dr=255):
        prm = params(n, a, chrom)
        kw = {"chromatic": True} if chrom else {}
        p, q = np.array(a), np.array(b)
        res, v = outcome(M.make(viqa, n, data_range=dr, **kw).score, p, q, **prm)
        wres, w = outcome(M.make(viqa, n, data_range=dr, **kw).score, q.copy(), p.copy(), **prm)
        d = np.abs(p.astype(float) - q.astype(float))
        clearly = bool(d.mean() > dr * 0.02) and prm.get("gaussian_weights", True) and not chrom \
            and p.ndim == 2
        rec = ctx.ev("pair", metric=n, res=res, wres=wres, v=num(v), w=num(w), x=exact(v),
                     differ=bool(d.max() > 0), clearly=bool(clearly),
                     _in={**info(n, a, prm, chrom, dr), "outcome": [res, wres],
                          "value": repr(v), "swapped": repr(w)})
        if res == "ok" and rec["v"]["k"] == "n" and n in ("RMSE", "SSIM", "UQI", "FSIM", "VSI"):
            ctx.neg("swap", rec, w=num(float(w) * 1.001 + 1e-3))
            if n not in ("RMSE",):
                ctx.neg("bound", rec, v=num(1.001), w=num(1.001))

    def blocks(f, shape):
        h, w = shape[0] // 2, shape[1] // 2
        a = np.zeros(shape)
        a[:h, :w], a[:h, w:], a[h:, :w], a[h:, w:] = f
        return a

    # images made of the model's feature maps
    cs = ctx.mine(ctx.cases["maps"])
    alls = sorted({tuple(a) for a, _ in ctx.cases["maps"]})
    for f in ctx.mine(alls):
        a = blocks(f, (46, 47)).astype(rng.choice(["uint8", "uint16", "int16", "float32", "float64"]))
        for n in (M.FR if ctx.thorough else rng.sample(list(M.FR), 6)):
            one(n, a)
    for a, b in cs if ctx.thorough else rng.sample(cs, 24):
        p, q = blocks(a, (46, 45)).astype(np.uint8), blocks(b, (46, 45)).astype(np.uint8)
        for n in rng.sample([x for x in M.FR if x != "UQI"], 3):
            two(n, p, q)

    def image(kind, dt):
        hi = 255 if dt != "uint16" else rng.choice([255, 65535])
        sh = {"2": (44 + rng.randrange(8), 44 + rng.randrange(30)), "3": (12, 13, 11),
              "3s": (45, 44, 4), "c": (46, 45, 3)}[kind]
        k = rng.randrange(4)
        if kind == "3s":
            d = rng.randrange(3)
            sh = [45, 44, 46]
            sh[d] = 4
            if sh[-1] == 3:
                sh[-1] = 4
            sh = tuple(sh)
        if k == 0:
            a = npr.integers(0, hi + 1, sh)
        elif k == 1:
            a = M.smooth(npr, sh, 0, hi, np.int64)
        elif k == 2:
            a = M.smooth(npr, sh, 0, hi, np.int64)
            a[a < hi // 2] = 0                       # flat background
        else:
            a = np.zeros(sh, np.int64) + rng.randrange(hi)
            a[tuple(slice(s // 3, s // 3 + 3) for s in sh[:2])] = hi
        if dt.startswith("float") and rng.random() < 0.4:
            a = a / hi
            hi = 1
        a = a.astype(dt).view(V)
        if kind == "3s":
            a._dim = d
            a._slice = rng.choice([None, rng.randrange(4)])
        return a, hi if hi in (1, 255, 65535) else 255

    DT = ["uint8", "uint8", "uint16", "int16", "int32", "float32", "float64"]
    for _ in range(ctx.share(130, 2500)):
        kind = rng.choice(["2", "2", "3", "3s", "c", "cc"])
        dt = rng.choice(DT)
        a, dr = image("c" if kind == "cc" else kind, dt)
        pool = CHROM if kind == "cc" else (M.SLICED if kind == "3s" else
                                           ["RMSE", "PSNR", "SSIM", "UQI"] if kind == "3" else
                                           list(M.FR))
        n = rng.choice(pool)
        if n == "MAD" and dr == 1:
            dr = 255
        one(n, a, kind == "cc", dr)
    for _ in range(ctx.share(130, 2500)):
        kind = rng.choice(["2", "2", "3", "c", "cc"])
        dt = rng.choice(DT)
        a, dr = image("c" if kind == "cc" else kind, dt)
        if kind == "2" and rng.random() < 0.3:
            b = np.array(a)
            b[rng.randrange(a.shape[0]), rng.randrange(a.shape[1])] = \
                rng.choice([0, 1, b.max()])
        else:
            x = np.array(a).astype(float)
            b = np.clip(x + npr.normal(0, dr / 8, x.shape), 0, dr)
            b = b.astype(dt)
        pool = CHROM if kind == "cc" else (["RMSE", "PSNR", "SSIM", "UQI"] if kind == "3" else
                                           list(M.FR))
        n = rng.choice(pool)
        if n == "UQI":          # flat windows have no defined index
            a = np.array(a).astype(float)
            a = np.clip(a + npr.integers(0, 40, a.shape) * dr / 255, 0, dr).astype(dt)
        if n == "MAD" and dr == 1:
            dr = 255
        two(n, np.array(a).view(V), b, kind == "cc", dr)
