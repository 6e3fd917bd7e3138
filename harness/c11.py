"""C11: images that cannot be compared are rejected, never scored."""

import os

import numpy as np
import torch

from harness import metrics as M
from harness import reprs as R
from harness.lib import num, outcome

CHROM = ["RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"]
BAD = [lambda a: None, lambda a: 5, lambda a: 1.5, lambda a: a.tolist(), lambda a: tuple(a),
       lambda a: {"img": a}, lambda a: b"x.png", lambda a: [a, a], lambda a: object()]


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    torch.set_num_threads(1)
    d = ctx.tmp("f")
    os.chdir(d)
    store = R.Store(d, rng)
    # sizes: S and T differ, T is a reordering of S in some of the cases
    SH = {"2": {"S": (45, 46), "T": [(46, 45), (45, 47), (44, 46), (46, 46), (1, 2070)]},
          "3": {"S": (13, 12, 11), "T": [(12, 13, 11), (13, 12, 12), (11, 12, 13), (13, 11, 12),
                                         (13, 12, 10)]},
          "3s": {"S": (45, 44, 2), "T": [(44, 45, 2), (45, 44, 4), (45, 44, 1), (2, 44, 45)]},
          "c": {"S": (45, 46, 3), "T": [(46, 45, 3), (45, 46, 4), (45, 47, 3), (46, 46, 3)]},
          "1": {"S": (50,), "T": [(49,)]},
          "4": {"S": (4, 5, 4, 3), "T": [(4, 5, 4, 2)]}}
    pix = {}

    def image(n, spec, ty, role):
        ax = spec["ax"]
        if ax == "3" and n in M.SLICED:
            ax = "3s"
        sh = SH[ax][spec["sz"]]
        if spec["sz"] == "T":
            sh = rng.choice(sh)
        key = (sh, role)
        if key not in pix:
            pix[key] = M.smooth(npr, sh) if len(sh) in (2, 3) else \
                npr.integers(0, 200, sh).astype(np.uint8)
        a = pix[key]
        return (a // 2 if ty == "int8" else a).astype(ty)

    def obj(a, kind):
        if kind == "bad":
            return rng.choice(BAD)(a)
        if kind == "image":
            return viqa.ImageArray(a)
        if kind == "tensor":
            return torch.from_numpy(a.copy())
        if kind == "file":
            return store.file(a, rng.choice(R.file_kinds(a)))
        return a

    def params(n, a, chrom):
        prm = dict(M.FR[n])
        if a.ndim == 3 and not (a.shape[-1] == 3):
            if n in M.SLICED:
                prm["dim"] = 2
            elif n in ("SSIM", "UQI"):
                prm["win_size"] = 5
                if n == "SSIM":
                    prm["gaussian_weights"] = False
        if chrom and n == "SSIM":
            prm["color_weights"] = np.array([0.3, 0.3, 0.4])
        return prm

    prior = {}

    def pair(n, r, m, rk, mk, chrom):
        mt = M.make(viqa, n, **({"chromatic": True} if chrom else {}))
        before = None
        if rng.random() < 0.7:
            if n not in prior:
                x, y = M.smooth(npr, (46, 46)), M.smooth(npr, (46, 46))
                prior[n] = float(M.make(viqa, n).score(x, y, **M.FR[n]))
            before = prior[n]
            mt.score_val = before
        ro, mo = obj(r, rk), obj(m, mk)
        res, v = outcome(mt.score, ro, mo, **params(n, r, chrom))
        rec = ctx.ev("pair", r={"kind": rk, "shape": list(r.shape), "dtype": str(r.dtype)},
                     m={"kind": mk, "shape": list(m.shape), "dtype": str(m.dtype)},
                     chrom=chrom, res=res, score=num(v), before=num(before),
                     after=num(mt.score_val),
                     _in={"metric": n, "reference": [type(ro).__name__, str(r.dtype), list(r.shape)],
                          "modified": [type(mo).__name__, str(m.dtype), list(m.shape)],
                          "chromatic": chrom, "outcome": res, "score": repr(v)})
        if res == "ok":
            ctx.neg("rejected", rec, res="ValueError", after=rec["before"])
            ctx.neg("scored", rec, m={**rec["m"], "dtype": "other"})
            ctx.neg("remembered", rec, after=num(-123.4))
        else:
            ctx.neg("error", rec, res="IndexError")
            ctx.neg("remembered2", rec, after=num(-123.4))

    TY = [("uint8", "uint16"), ("uint8", "int16"), ("float32", "float64"), ("uint8", "float32"),
          ("uint16", "int16"), ("int32", "uint32"), ("uint8", "int8"), ("int32", "int64"),
          ("float64", "int64"), ("float32", "int32")]
    TT = ("uint8", "int16", "int32", "float32", "float64")

    def case(n, c):
        tr, tm = rng.choice(TY)
        if rng.random() < 0.5:
            tr, tm = tm, tr
        ty = {"A": tr, "B": tm}
        if c["ok"]:      # a size every metric can score
            c = {**c, "r": {**c["r"], "sz": "S"}, "m": {**c["m"], "sz": "S"}}
        r = image(n, c["r"], ty[c["r"]["ty"]], 0)
        m = image(n, c["m"], ty[c["m"]["ty"]], 1)
        rk, mk = c["r"]["kind"], c["m"]["kind"]
        ks = []
        for a, k in ((r, rk), (m, mk)):
            if k == "tensor" and str(a.dtype) not in TT:
                k = "image"
            if k == "array" and rng.random() < 0.2 and a.ndim in (2, 3) \
                    and [x for x in R.file_kinds(a) if x != "tiff"]:
                k = "file"
            ks.append(k)
        pair(n, r, m, ks[0], ks[1], c["chrom"])

    for c in ctx.mine(ctx.cases["pairs"]):
        n = rng.choice(list(M.FR))
        if c["chrom"] and c["ok"]:
            n = rng.choice(CHROM)
        case(n, c)
        if c["ok"]:
            for n in rng.sample(CHROM if c["chrom"] else list(M.FR), 4):
                case(n, c)
    # the same number of pixels, or the same sizes up to axes of length one
    UNIT = [((46, 45), (46, 45, 1)), ((46, 45), (1, 46, 45)), ((1, 46, 45), (46, 45, 1)),
            ((46, 1), (1, 46)), ((46, 45, 1), (46, 45)), ((45, 46), (46, 1)), ((46, 45), (1, 45)),
            ((46, 45), (1, 1)), ((46, 45), (46 * 45,)), ((46, 46), (23, 92)), ((9, 8, 6), (9, 48)),
            ((12, 12, 1), (12, 1, 12)), ((46, 45, 3), (46, 45)), ((46, 45, 3), (46, 45, 1)),
            ((46, 45, 3), (3, 46, 45)), ((3, 46, 45), (46, 45, 3)), ((46, 46, 3), (1, 1, 3)),
            ((46, 45, 3), (46, 45, 4)), ((1, 46, 45, 1), (46, 45)),
            ((1, 46, 45, 1), (1, 46, 45, 1)), ((1, 1, 46, 45), (1, 1, 46, 45)),
            ((1, 13, 12, 11), (1, 13, 12, 11)), ((46, 45, 3, 1), (46, 45, 3, 1)),
            ((1, 46, 45, 3), (1, 46, 45, 3)), ((2070,), (2070,))]
    for n in ctx.mine(list(M.FR)):
        for a, b in rng.sample(UNIT, ctx.scale(9, len(UNIT))):
            x = npr.integers(0, 200, a).astype(np.uint8)
            y = np.resize(x, b)
            k = [rng.choice(["array", "image", "tensor"]) for _ in range(2)]
            pair(n, x, y, *k, False)
    # constructor settings
    for n in M.FR:
        for kw in ({"data_range": None},):
            res, _ = outcome(getattr(viqa, n), **kw)
            if n == "RMSE":
                ctx.ev("made", res=res, _in={"metric": n, **kw})
            else:
                rec = ctx.ev("make", res=res, _in={"metric": n, **kw})
                ctx.neg("make", rec, res="ok")
        for kw in ({"data_range": None, "normalize": True}, {"data_range": 0, "normalize": True}):
            res, _ = outcome(getattr(viqa, n), **kw)
            ctx.ev("make", res=res, _in={"metric": n, **kw})
        for dr in (1, 255, 65535):
            for nm in (False, True):
                res, _ = outcome(getattr(viqa, n), data_range=dr, normalize=nm)
                rec = ctx.ev("made", res=res, _in={"metric": n, "data_range": dr, "normalize": nm})
        ctx.neg("made", rec, res="ValueError")
    # colour SSIM without weights
    a = np.stack([M.smooth(npr, (20, 20))] * 3, -1)
    res, _ = outcome(viqa.SSIM(chromatic=True).score, a, a.copy())
    ctx.ev("make", res=res, _in={"metric": "SSIM", "chromatic": True, "color_weights": None})
