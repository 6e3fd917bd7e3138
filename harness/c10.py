"""C10: cropping and regions of interest select exactly the requested block."""

import csv
import os

import numpy as np
import torch

from harness import metrics as M
from harness import reprs as R
from harness.c05 import vec
from harness.lib import flat, num, outcome


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    torch.set_num_threads(1)
    d = ctx.tmp("f")
    os.chdir(d)
    store = R.Store(d, rng)

    def crop(shape, lo, hi, ch=1, via=None, dtype=None, layout=None):
        shape, lo, hi = list(shape), list(lo), list(hi)
        full = shape + ([ch] if ch > 1 else [])
        n = int(np.prod(full))
        dtype = dtype or rng.choice(["uint8", "uint16", "int32", "float32", "float64"])
        base = rng.randrange(5)
        if n + base > 255 and dtype == "uint8":
            dtype = "uint16"
        a = (np.arange(n) + base).reshape(full).astype(dtype)
        via = via or rng.choice(["crop", "crop", "crop_image", "load", "load_image",
                                 "load_tensor", "load_file", "layout"])
        roi = [tuple(x) for x in zip(lo, hi)]
        if rng.random() < 0.3:
            roi = [list(x) for x in roi]
        ks = [k for k in R.file_kinds(a) if k != "tiff" or a.ndim == 2]
        if min(full) < 2 and a.ndim == 2:
            ks = []
        if via == "load_file" and not ks:
            via = "load"
        if via == "load_tensor" and dtype == "uint16":
            via = "load"
        if via == "crop":
            res, v = outcome(viqa.crop_image, a, *roi)
        elif via == "crop_image":
            res, v = outcome(viqa.crop_image, viqa.ImageArray(a), *roi)
        elif via == "load":
            res, v = outcome(viqa.load_data, a, roi=roi)
        elif via == "load_image":
            res, v = outcome(viqa.load_data, viqa.ImageArray(a), roi=roi)
        elif via == "load_tensor":
            res, v = outcome(viqa.load_data, torch.from_numpy(a.copy()), roi=roi)
        elif via == "load_file":
            res, v = outcome(viqa.load_data, store.file(a, rng.choice(ks)), roi=roi)
        else:
            b = np.asfortranarray(a)[::-1].copy(order="F")[::-1]
            res, v = outcome(viqa.crop_image, b, *roi)
        rec = ctx.ev("crop", shape=shape, lo=lo, hi=hi, channels=ch, base=base, res=res,
                     dtype=dtype, odtype=str(v.dtype) if v is not None else "",
                     oshape=list(v.shape) if v is not None else [],
                     out=flat(v) if v is not None else [],
                     _in={"shape": full, "region": [list(map(int, x)) for x in roi],
                          "via": via, "dtype": dtype, "outcome": res,
                          "shape_returned": list(v.shape) if v is not None else None})
        if res == "ok":
            o = rec["out"]
            ctx.neg("pixel", rec, out=[*o[:-1], o[-1] + 1])
            ctx.neg("shape", rec, oshape=[rec["oshape"][0] + 1, *rec["oshape"][1:]])
            ctx.neg("rejected", rec, res="ValueError")
        else:
            ctx.neg("accepted", rec, res="ok")

    cs = ctx.mine(ctx.cases["roi2"]) + ctx.mine(ctx.cases["roi3"])
    if not ctx.thorough:
        groups = {}
        for c in cs:
            # of the rejected ones: by the way the numbers of pixels compare
            big = int(np.prod(np.subtract(c["hi"], c["lo"]))) - int(np.prod(c["shape"]))
            groups.setdefault((len(c["shape"]), c["out"], c["out"] == "rejected" and
                               int(np.sign(big))), []).append(c)
        n = {(2, "cut"): 150, (3, "cut"): 200, (2, "rejected"): 60, (3, "rejected"): 40}
        cs = [c for g in groups
              for c in rng.sample(groups[g], min(n[g[:2]], len(groups[g])))]
    for c in cs:
        if len(c["shape"]) == 2:
            crop(c["shape"], c["lo"], c["hi"])
            if rng.random() < 0.5:
                crop(c["shape"], c["lo"], c["hi"], ch=3)
        elif c["shape"][-1] != 3:
            crop(c["shape"], c["lo"], c["hi"])

    def interval(n):
        k = rng.randrange(5)
        if k == 0:
            return 0, n
        if k == 1:
            return 0, rng.randint(1, n)
        if k == 2:
            return rng.randrange(n), n
        a, b = sorted((rng.randrange(n), rng.randrange(n)))
        return a, b + 1

    for _ in range(ctx.share(60, 2000)):
        nd = rng.choice([2, 2, 3])
        sh = [rng.choice([1, 2, 4, 5, 6, 7, 9]) for _ in range(nd)]
        if nd == 3 and sh[-1] == 3:
            sh[-1] = 4
        iv = [interval(n) for n in sh]
        crop(sh, [a for a, _ in iv], [b for _, b in iv], ch=3 if nd == 2 and
             rng.random() < 0.3 else 1)
    # too large, incomplete or unsupported
    for _ in range(ctx.share(60, 600)):
        nd = rng.choice([2, 3])
        sh = [rng.choice([2, 4, 5, 6]) for _ in range(nd)]
        iv = [interval(n) for n in sh]
        k = rng.randrange(nd)
        b = rng.choice([0, 0, 1, 3])
        iv[k] = (b, b + sh[k] + rng.choice([1, 1, 2, 100]))
        crop(sh, [a for a, _ in iv], [b for _, b in iv],
             ch=3 if nd == 2 and rng.random() < 0.3 else 1)
        if nd == 3:
            a = npr.integers(0, 200, sh)
            res, _ = outcome(viqa.crop_image, a, (0, 1), (0, 1))
            rec = ctx.ev("reject", res=res, _in={"crop": "volume without z range"})
            ctx.neg("reject", rec, res="ok")
        a = npr.integers(0, 200, (3,) if nd == 2 else (4, 4, 4, 4))
        res, _ = outcome(viqa.crop_image, a, (0, 1), (0, 1), (0, 1))
        ctx.ev("reject", res=res, _in={"crop": "image with %d axes" % a.ndim})

    # scoring with a region
    def params(n, nd, ext):
        prm = dict(M.FR.get(n, {}))
        if n in ("SNR", "CNR"):
            prm = {"signal_center": (4, 5, 4)[:nd], "radius": 3,
                   "region_type": rng.choice(["cubic", "spherical"])}
            if n == "CNR":
                prm["background_center"] = (5, 4, 4)[:nd]
        elif nd == 3 and n in M.SLICED:
            prm["dim"] = 2
        elif nd == 3 and n in ("SSIM", "UQI"):
            prm["win_size"] = 5
            if n == "SSIM":
                prm["gaussian_weights"] = False
        return prm

    sets = []
    for dt in ("uint8", "uint16", "float64"):
        sets.append((*(x.astype(dt) for x in M.visible(npr, M.smooth(npr, (56, 54)))), 2))
        sets.append((M.smooth(npr, (14, 13, 12)).astype(dt),
                     M.smooth(npr, (14, 13, 12)).astype(dt), 3))
    sets.append((*M.visible(npr, M.smooth(npr, (52, 50, 6))), 33))
    rgb = [np.stack([M.smooth(npr, (54, 52)) for _ in range(3)], -1) for _ in range(2)]
    sets.append((*rgb, 2))
    for _ in range(ctx.share(150, 3000)):
        r, m, kind = rng.choice(sets)
        nd = 2 if kind == 2 else 3
        rgb = r.ndim == 3 and nd == 2
        pool = [*M.FR, "SNR", "CNR"] if kind == 2 else \
            (["RMSE", "PSNR", "SSIM", "UQI", "SNR", "CNR"] if kind == 3 else M.SLICED)
        if rgb:
            pool = [x for x in pool if x != "CNR"]
        n = rng.choice(pool)
        need = [46, 45, 2] if kind in (2, 33) else [9, 9, 9]
        roi = []
        for k in range(nd):
            s = r.shape[k]
            a = rng.randint(0, s - need[k])
            roi.append((a, rng.randint(a + need[k], s)))
        if kind == 33 and roi[2][1] - roi[2][0] == 3:
            a = roi[2][0]
            roi[2] = (a, a + 2)
        sl = tuple(slice(*x) for x in roi)
        prm = params(n, nd, roi)
        via = rng.choice(["metric", "metric", "multi", "batch", "batch_global"])
        if n == "SNR" and rgb and via == "metric":
            via = "multi"
        norm = rng.choice([None, None, None, 255, 65535, 1])
        if norm == 1 and n == "MAD":
            norm = 255
        rb, mb = r, m
        if norm:
            rb, mb = viqa.normalize_data(r, (0, norm)), viqa.normalize_data(m, (0, norm))
        rb, mb = np.array(rb[sl]), np.array(mb[sl])
        if rgb and n in ("SNR", "CNR"):
            # several metrics reduce colour images to grey
            rb, mb = (np.asarray(x) for x in M.make(viqa, "RMSE").load_images(rb, mb))
        dr = norm or 255
        nr = n in ("SNR", "CNR")
        if nr:
            o1 = outcome(M.make(viqa, n).score, rb, **prm)
            o2 = outcome(M.make(viqa, n).score, mb, **prm)
            fres = o1[0] if o1[0] != "ok" else o2[0]
            fv = vec(o1[1]) + vec(o2[1]) if fres == "ok" else []
        else:
            fres, v = outcome(M.make(viqa, n, data_range=dr).score, rb, mb, **prm)
            fv = vec(v) if fres == "ok" else []
        f = ctx.fact(res=fres, v=fv)
        kw = {"data_range": norm, "normalize": True} if norm else {}
        if via == "metric":
            mk = {**({"data_range": dr}), **({"normalize": True} if norm else {}), "roi": roi}
            if nr:
                o1 = outcome(M.make(viqa, n, **mk).score, r, **prm)
                o2 = outcome(M.make(viqa, n, **mk).score, m, **prm)
                res = o1[0] if o1[0] != "ok" else o2[0]
                v = vec(o1[1]) + vec(o2[1]) if res == "ok" else []
            else:
                res, v = outcome(M.make(viqa, n, **mk).score, r, m, **prm)
                v = vec(v) if res == "ok" else []
        else:
            mt = M.make(viqa, n, data_range=dr)
            if via == "multi":
                res, v = outcome(viqa.MultipleMetrics([mt], [prm]).calculate, r, m, roi=roi, **kw)
            else:
                ks = [k for k in R.file_kinds(r) if k != "tiff" or r.ndim == 2]
                p = [os.path.basename(store.file(x, rng.choice(ks))) if ks else None
                     for x in (r, m)]
                if not ks:
                    p = [os.path.basename(store.file(x.astype(np.uint8), "png")) for x in (r, m)]
                    # the same pixels from a file of another type
                    f = None
                with open("pairs.csv", "w", newline="") as fh:
                    w = csv.writer(fh)
                    w.writerow(["reference_image", "modified_image"])
                    w.writerow(p)
                if f is None:
                    continue
                rois = [roi] if via == "batch" else None
                res, b = outcome(viqa.BatchMetrics, d, os.path.join(d, "pairs.csv"), [mt], [prm], rois)
                if res == "ok":
                    res, v = outcome(b.calculate, **kw, **({} if rois else {"roi": roi}))
                    v = v["0"] if res == "ok" else None
            if res == "ok":
                v = [x for k in v for x in vec(v[k])]
            else:
                v = []
        rec = ctx.ev("score", fact=f, res=res, v=v,
                     _in={"metric": n, "shape": list(r.shape), "dtype": str(r.dtype),
                          "region": roi, "via": via, "normalise": norm, "outcome": res,
                          "block_outcome": fres, "v": v, "want": fv})
        if res == "ok" and v and v[0]["k"] == "n":
            x = int("".join(f"{q:04d}" for q in reversed(v[0]["d"])) or 0) / 1e9
            ctx.neg("score", rec, v=[num(x * 1.001 + 1e-2), *v[1:]])
        ctx.neg("outcome", rec, res="TypeError")
