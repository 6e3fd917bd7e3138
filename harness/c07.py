"""C07: the same pixel values score the same in every numeric type."""

import numpy as np
import torch

from harness import metrics as M
from harness.c05 import vec
from harness.lib import num, outcome

INT = ["uint8", "uint16", "int16", "int32", "uint32", "int64", "uint64"]
FLT = ["float16", "float32", "float64"]


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    torch.set_num_threads(1)

    def params(n, nd):
        prm = dict(M.FR.get(n, {}))
        if n in ("SNR", "CNR"):
            prm = {"signal_center": (6, 5, 6)[:nd], "radius": 4,
                   "region_type": rng.choice(["cubic", "spherical", "full"])}
            if n == "CNR":
                prm["background_center"] = (7, 7, 6)[:nd]
        elif nd == 3:
            if n in M.SLICED:
                prm.update(dim=2)
            elif n in ("SSIM", "UQI"):
                prm["win_size"] = 5
                if n == "SSIM":
                    prm["gaussian_weights"] = False
        if n == "SSIM" and nd == 2 and rng.random() < 0.5:
            prm.update(gaussian_weights=False, win_size=7)
        return prm

    def score(n, r, m, prm, dr, kw):
        mt = M.make(viqa, n, data_range=dr, **kw)
        if n in ("SNR", "CNR"):
            return outcome(mt.score, m, **prm)
        return outcome(mt.score, r, m, **prm)

    def group(name, r, m, ns, types, dr, nd, kw=None, base="float64"):
        """r, m: integer-valued arrays; all types of the group must agree."""
        for n in ns:
            prm = params(n, nd)
            k = kw or {}
            if k.get("chromatic") and n == "SSIM":
                prm["color_weights"] = np.array([0.2, 0.3, 0.5])
            res, v = score(n, r.astype(base), m.astype(base), prm, dr, k)
            f = ctx.fact(metric=n, res=res, v=vec(v))
            # a MAD just above zero hangs on the last bit of its visibility threshold
            edge = n == "MAD" and res == "ok" and not float(np.ravel(v)[0]) >= 1
            for t in types:
                if edge and t == "float32":
                    continue
                res, v = score(n, r.astype(t), m.astype(t), prm, dr, k)
                rec = ctx.ev("typed", fact=f, res=res, v=vec(v),
                             _in={"metric": n, "type": t, "group": name, "params": repr(prm),
                                  "outcome": res, "value": repr(v)})
                if res == "ok" and rec["v"][0]["k"] == "n":
                    ctx.neg("score", rec, v=[num(float(np.ravel(v)[0]) * 1.001 + 1e-3),
                                             *rec["v"][1:]])
                ctx.neg("outcome", rec, res="TypeError")

    ALL = [*M.FR, "SNR", "CNR"]

    def texture(shape, lo, hi):
        return M.smooth(npr, shape, lo, hi, np.int64)

    def vary(a, lo, hi):
        b = a + npr.integers(-(hi - lo) // 3, (hi - lo) // 3 + 1, a.shape)
        return np.clip(b, lo, hi)

    for rep in range(ctx.share(8, 120)):
        # full 8-bit range, including the extremes
        r = texture((46, 45), 0, 255)
        m = vary(r, 0, 255)
        if rep % 4 in (0, 1):
            r, m = M.visible(npr, r)
        if rep % 2:
            r, m = np.clip(r, 0, 254), 255 - r
        group("0..255", r, m, ALL, INT + FLT[1:], 255, 2)
        group("half", r, m, [n for n in ALL if n != "MAD"], ["float16"], 255, 2)
        # critical pixel pairs of the model, spread over an image
        case = rng.choice(ctx.cases["wrap"])
        idx = npr.integers(0, len(case["r"]), (46, 45))
        noise = npr.random((46, 45)) < 0.5
        r2 = np.where(noise, np.array(case["r"])[idx], r)
        m2 = np.where(noise, np.array(case["m"])[idx], m)
        group("critical", r2, m2, ALL, INT + FLT[1:], 255, 2)
        # 16-bit range
        r = texture((46, 45), 0, 65535)
        m = vary(r, 0, 65535)
        if rep % 2 == 0:
            r, m = M.visible(npr, r, 0, 65535)
        group("0..65535", r, m, ALL, ["uint16", "int32", "uint32", "int64", "float32"],
              65535, 2)
        # signed values
        r = texture((46, 45), -1000, 3000)
        m = vary(r, -1000, 3000)
        group("signed", r, m, ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "SNR", "CNR"],
              ["int16", "int32", "int64", "float32"], 4000, 2)
        # little contrast on a high level
        for lo, types in ((3000, ["int16", "uint16", "int32", "int64", "float32"]),
                          (20000, ["int16", "uint16", "int32", "uint32", "float32"]),
                          (60000, ["uint16", "int32", "uint64", "float32"])):
            hi = lo + rng.choice([9, 40])
            r = texture((46, 45), lo, hi)
            m = vary(r, lo, hi)
            group(f"{lo}..{hi}", r, m, ["RMSE", "PSNR", "SSIM", "SNR", "CNR"], types,
                  rng.choice([500, 65535]), 2)
        # 32-bit values: squares and spans that no 32-bit integer holds, and values
        # that single precision does not separate
        big = ["int32", "uint32", "int64", "uint64"]
        for lo, hi, types in ((0, 2**31 - 1, big), (0, 100000, big),
                              (-(2**31), 2**31 - 1, ["int32", "int64"]),
                              (0, 2**32 - 1, ["uint32", "int64", "uint64"]),
                              (2**26, 2**26 + 40, big)):
            r = texture((46, 45), lo, hi)
            m = vary(r, lo, hi)
            group(f"{lo}..{hi}", r, m, ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "SNR", "CNR"]
                  if lo != 2**26 else ["RMSE", "PSNR", "GSM", "SNR", "CNR"],
                  types, float(hi), 2)
            group(f"{lo}..{hi} normalised", r, m, ["RMSE", "SSIM", "SNR", "CNR"],
                  types, rng.choice([1, 255, 65535]), 2, {"normalize": True})
        # normalised small types
        for lo, hi, types in ((0, 255, INT), (-128, 127, ["int8", "int16", "int32", "float16"]),
                              (-32768, 32767, ["int16", "int32", "float32"]),
                              (0, 65535, ["uint16", "int32", "float32"]),
                              (3, 9, INT + FLT)):
            r = texture((46, 45), lo, hi)
            m = vary(r, lo, hi)
            t = [x for x in types if not (x == "uint8" and hi == 255)]
            group(f"{lo}..{hi} normalised", r, m, rng.sample(["RMSE", "PSNR", "SSIM", "UQI",
                  "GSM", "SNR", "CNR", "FSIM", "VIFp"], 4), t, rng.choice([1, 65535]), 2,
                  {"normalize": True})
        # volumes
        r = texture((13, 12, 14), 0, 255)
        group("volume", r, vary(r, 0, 255), ["RMSE", "PSNR", "SSIM", "UQI", "SNR", "CNR"],
              INT + FLT, 255, 3)
        if rep % 4 == 0 or ctx.thorough:
            r, m = M.visible(npr, texture((45, 44, 4), 0, 255))
            group("volume slices", r, m, M.SLICED,
                  ["uint8", "uint16", "int16", "float32"], 255, 3)
        # tiny signed type
        r, m = M.visible(npr, texture((46, 45), 0, 127), 0, 127)
        group("0..127", r, m, ALL, ["int8", "uint8"], 255, 2)
        # colour images reduced to grey values
        r = np.stack([texture((46, 45), 0, 255) for _ in range(3)], -1)
        m = np.stack([texture((46, 45), 0, 255) for _ in range(3)], -1)
        group("colour", r, m, ["RMSE", "PSNR", "SSIM", "SNR"],
              ["uint8", "uint16", "int32", "float32"], 255, 2)
        group("colour scored", r, m, ["FSIM", "VSI", "SSIM", "MSSSIM", "RMSE"],
              ["uint8", "uint16", "int32", "float32"], 255, 2, {"chromatic": True})
