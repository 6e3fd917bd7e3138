"""C04: nothing the caller passes in is modified."""

import copy
import hashlib
import os
import pathlib

import matplotlib.pyplot as plt
import numpy as np
import skimage.io
import torch

from harness import metrics as M
from harness.lib import outcome


def digest(o):
    """Digest of values, shape, type and layout, recursively."""
    h = hashlib.sha256()

    def rec(x):
        if isinstance(x, np.ndarray):
            h.update(repr((type(x).__name__, x.shape, str(x.dtype), x.strides,
                           x.flags.writeable)).encode())
            h.update(np.ascontiguousarray(np.asarray(x)).tobytes())
            for k, v in sorted(getattr(x, "__dict__", {}).items()):
                h.update(k.encode())
                rec(v)
        elif isinstance(x, torch.Tensor):
            h.update(repr((tuple(x.shape), str(x.dtype), x.stride(),
                           x.requires_grad)).encode())
            h.update(np.ascontiguousarray(x.detach().numpy()).tobytes())
        elif isinstance(x, dict):
            h.update(b"{")
            for k, v in x.items():
                h.update(repr(k).encode())
                rec(v)
            h.update(b"}")
        elif isinstance(x, (list, tuple)):
            h.update(type(x).__name__.encode())
            for v in x:
                rec(v)
            h.update(b".")
        elif isinstance(x, (str, int, float, bool, bytes, type(None), np.generic,
                            pathlib.PurePath)):
            h.update(repr((type(x).__name__, x)).encode())
        else:
            h.update(type(x).__name__.encode())     # metric objects etc.

    rec(o)
    return h.hexdigest()[:24]


class World:
    """The objects the caller holds."""

    def __init__(self, ctx, filedir):
        self.ctx, self.filedir = ctx, filedir
        self.objs = {}

    def start(self):
        self.objs = {}
        self.fh = self.filehash()
        self.fresh = True

    def hold(self, **objs):
        self.objs.update(objs)
        self.ctx.ev("have", objs={k: digest(v) for k, v in objs.items()}, cut=self.fresh)
        self.fresh = False
        return self

    def filehash(self):
        h = hashlib.sha256()
        for r, ds, fs in sorted(os.walk(self.filedir)):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode() + open(p, "rb").read())
        return h.hexdigest()

    def op(self, name, f, *a, **k):
        res, v = outcome(f, *a, **k)
        after = {n: digest(o) for n, o in self.objs.items()}
        rec = self.ctx.ev("op", after=after,
                          kinds={n: type(o).__name__ for n, o in self.objs.items()},
                          files=self.filehash() == self.fh,
                          _in={"op": name, "outcome": res, "objects": list(after)})
        if after:
            n = next(iter(after))
            self.ctx.neg("changed", rec, after={**after, n: "0"})
        self.ctx.neg("files", rec, files=False)
        return v if res == "ok" else None


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    d = ctx.tmp("img")
    outd = ctx.tmp("out")
    w = World(ctx, d)
    S2, S3 = (46, 45), (14, 12, 13)

    files = {}
    for n in "rm":
        a = M.smooth(npr, S2)
        p = os.path.join(d, f"{n}.png")
        skimage.io.imsave(p, a, check_contrast=False)
        files["2d" + n] = p
        a = M.smooth(npr, S3)
        p = os.path.join(d, f"{n}_14x12x13_8bit.raw")
        a.ravel(order="F").tofile(p)
        files["3d" + n] = p
    pairs = os.path.join(d, "pairs.csv")
    with open(pairs, "w") as f:
        f.write("reference_image,modified_image\nr.png,m.png\nr.png,r.png\nm.png,r.png\n")

    DT = ["uint8", "uint16", "int16", "int32", "float32", "float64", "float64"]

    def values(a, dtype):
        """Pixels of all magnitudes the type holds, also undefined ones."""
        how = rng.choice(["plain", "plain", "signed", "small", "wide", "odd", "odd", "edge"])
        a = a.astype(np.float64)
        k = np.dtype(dtype).kind
        if how == "signed" and k in "if":
            a = a - 100
        elif how == "small" and k == "f":
            a = a / 1e5
        elif how == "wide" and np.dtype(dtype).itemsize >= 4:
            a = a * 8e6
        elif how == "odd" and k == "f":
            a = a - 3
            n = rng.randint(1, 3)
            at = tuple(npr.integers(0, s, n) for s in a.shape)
            a[at] = [rng.choice([np.nan, np.inf, -np.inf, -0.0, 1e-300, 1e30])
                     for _ in range(n)]
        elif how == "edge" and k in "ui":
            i = np.iinfo(dtype)
            a[tuple(npr.integers(0, s, 2) for s in a.shape)] = [float(i.min), float(i.max) // 2]
        with np.errstate(all="ignore"):
            return a.astype(dtype)

    def image(kind, shape, dtype, form=None):
        a = values(M.smooth(npr, shape), dtype)
        form = form or kind
        if form == "fortran":
            a = np.asfortranarray(a)
        if form == "strided":
            big = np.zeros(tuple(2 * s for s in shape), dtype)
            big[tuple(slice(None, None, 2) for _ in shape)] = a
            a = big[tuple(slice(None, None, 2) for _ in shape)]
        if form == "readonly":
            a.flags.writeable = False
        if form == "image":
            a = viqa.ImageArray(a)
            if rng.random() < 0.5 and dtype in ("uint8", "float32"):
                outcome(a.calculate_statistics)
        if form == "tensor":
            t = "int32" if dtype == "uint16" else dtype
            a = torch.from_numpy(a.astype(t))
        return a

    FORMS = ["array", "array", "fortran", "strided", "readonly", "image", "image", "tensor"]

    def pair(shape, same=True):
        dt_ = rng.choice(DT)
        f1, f2 = rng.choice(FORMS), rng.choice(FORMS)
        if "tensor" in (f1, f2) and dt_ == "uint16":
            dt_ = "int32"
        r = image("array", shape, dt_, f1)
        sh = shape if same else tuple(s - 2 for s in shape)
        m = image("array", sh, dt_, f2)
        return r, m

    def roi_for(shape):
        return [[int(s // 8), int(s - s // 8)] for s in shape[:3]]

    # --- pipelines of the model ------------------------------------------
    cases = ctx.mine(ctx.cases["pipes"])
    for hist in rng.sample(cases, min(len(cases), ctx.share(200, 10**6))):
        shape = S2 if rng.random() < 0.6 else S3
        w.start()
        a = image("array", shape, rng.choice(DT), rng.choice(FORMS[:7]))
        w.hold(img=a)
        cur = a
        for i, op in enumerate(hist):
            if op == "load":
                kw = rng.choice([{}, {"data_range": 255, "normalize": True},
                                 {"data_range": 1, "normalize": True},
                                 {"data_range": 65535, "normalize": True}])
                res = w.op("load_data", viqa.load_data, cur, **kw)
            elif op == "crop":
                roi = roi_for(cur.shape)
                w.hold(**{f"roi{i}": roi})
                res = w.op("crop_image", viqa.crop_image, cur, *roi)
            elif op == "norm":
                res = w.op("normalize_data", viqa.normalize_data, cur,
                           (0, rng.choice([1, 255, 65535])))
            elif op == "resize":
                other = image("array", tuple(s + 3 for s in cur.shape), cur.dtype.name)
                ps = [{}]
                w.hold(**{f"other{i}": other, f"params{i}": ps})
                res = w.op("MultipleMetrics resize",
                           viqa.MultipleMetrics([viqa.RMSE()], ps).calculate, other, cur)
                res = None
            elif op == "score":
                if cur.ndim == 2 and min(cur.shape) >= M.MIN:
                    n = rng.choice(list(M.FR))
                else:
                    n = rng.choice(["RMSE", "PSNR"])
                prm = dict(M.FR[n])
                m = np.array(cur) // 2 if np.issubdtype(cur.dtype, np.integer) else np.array(cur) / 2
                w.hold(**{f"m{i}": m, f"p{i}": prm})
                w.op("score " + n, M.make(viqa, n).score, cur, m, **prm)
                res = None
            elif op == "export":
                res = {"RMSE": 1.5}
                w.hold(**{f"results{i}": res})
                w.op("export_image", viqa.export_image, res, cur, cur,
                     **({} if cur.ndim == 2 else {"z": 1}), dpi=20)
                plt.close("all")
                res = None
            else:
                w.op("failing load", viqa.load_data, cur, normalize=True)
                w.op("failing crop", viqa.crop_image, cur, *[(0, 1000)] * cur.ndim)
                w.op("failing normalise", viqa.normalize_data, cur, (0, 77))
                w.op("failing score", viqa.SSIM().score, cur, cur, win_size=4)
                res = None
            if isinstance(res, np.ndarray):
                cur = res
                w.hold(**{f"res{i}": cur})

    # --- every metric on every kind of input, also failing ----------------
    allm = list(M.FR)
    for rep in range(ctx.share(10, 150)):
        for n in allm:
            for mode in ("ok", "ok3", "norm", "roi", "chromatic", "mismatch", "badparam",
                         "incomplete", "more", "arrays"):
                if mode in ("chromatic",) and n == "MAD":
                    continue
                if rng.random() < 0.5 and not ctx.thorough and (n, mode) != ("MSSSIM", "arrays"):
                    continue
                w.start()
                prm = {k: (list(v) if isinstance(v, list) else v)
                       for k, v in M.FR[n].items()}
                kw = {}
                if mode == "ok3":
                    shape = S3 if n in ("RMSE", "PSNR", "SSIM", "UQI") else (46, 45, 3 + 1)
                    r, m = pair(shape)
                    if n in M.SLICED:
                        prm["dim"] = 2
                        if rng.random() < 0.5:
                            prm["im_slice"] = 1
                    if n in ("SSIM", "UQI"):
                        prm["win_size"] = 5
                        if n == "SSIM":
                            prm["gaussian_weights"] = False
                elif mode == "incomplete":
                    r, m = pair(S3)
                    prm["im_slice"] = rng.choice([0, 1, 99, 1.5])
                    if rng.random() < 0.3:
                        prm["dim"] = rng.choice([3, "x", -1, 1.0])
                elif mode == "mismatch":
                    r, m = pair(S2, same=False)
                elif mode == "chromatic":
                    a = np.stack([M.smooth(npr, S2) for _ in range(3)], -1)
                    a = values(a, rng.choice(DT))
                    r, m = a, np.ascontiguousarray(a[::-1])
                    if rng.random() < 0.5:
                        r, m = viqa.ImageArray(r), viqa.ImageArray(m)
                    if n in ("SSIM", "FSIM", "VSI", "RMSE", "PSNR") and rng.random() < 0.7:
                        kw["chromatic"] = True
                        if n == "SSIM":
                            prm["color_weights"] = np.array([0.3, 0.3, 0.4])
                else:
                    r, m = pair(S2)
                if mode == "norm":
                    kw["normalize"] = True
                    kw["data_range"] = rng.choice([1, 255, 65535])
                if mode == "more":
                    prm = copy.deepcopy(rng.choice(M.MORE[n]))
                    if n == "MSSSIM" and rng.random() < 0.5:
                        prm["scale_weights"] = [1.0, 2.5]
                        prm["kernel_size"] = 3
                        if rng.random() < 0.6:
                            prm["scale_weights"] = torch.tensor([1.0, 2.5])
                    if rng.random() < 0.5:
                        prm = {k: np.array(v) if isinstance(v, list) else v
                               for k, v in prm.items()}
                if mode == "arrays":        # what looks as if it had to be brought in shape first
                    prm.update({"MSSSIM": {"scale_weights": rng.choice(
                                    [np.array([1.0, 2.5]), torch.tensor([1.0, 2.5])]),
                                    "kernel_size": rng.choice([3, 11])},
                                "MAD": {"weights": np.array([3.0, 1.0, 2.0]), "scales_num": 3,
                                        "csf_function": {"lambda_csf": 0.1, "f_peak": 6},
                                        "luminance_function": {"k": 0.03, "gamma": 2.0}},
                                }.get(n, {}))
                if mode == "roi":
                    kw["roi"] = [[0, 45], [0, 44]]
                if mode == "badparam":
                    prm = {"win_size": 4} if n in ("SSIM", "UQI") else {"nonsense": 1}
                if n == "MAD" and mode == "ok":
                    prm["weights"] = np.array([0.5, 0.75, 1.0, 5.0, 6.0])
                    prm["thresholds"] = [2.55, 3.35]
                w.hold(r=r, m=m, params=prm, ctor=kw)
                mt = M.make(viqa, n, **kw)
                w.op(f"{n} {mode}", mt.score, r, m, **prm)
                if rng.random() < 0.2:
                    w.op(f"{n} {mode} again", mt.score, m, r, **prm)
        for n in ("SNR", "CNR"):
            for mode in ("cubic", "spherical", "full", "auto", "bad", "roi", "chromatic"):
                shape = S2 if rng.random() < 0.5 else S3
                nd = len(shape)
                w.start()
                form = rng.choice(FORMS[:7])
                a = image("array", shape, rng.choice(DT), form)
                if mode == "chromatic":
                    a = np.stack([M.smooth(npr, S2) for _ in range(3)], -1)
                    a = values(a, rng.choice(DT))
                    nd = 2
                    mode = "cubic"
                prm = {"signal_center": [6] * nd, "radius": 3, "region_type": mode}
                if n == "CNR":
                    prm["background_center"] = [7] * nd
                if mode == "auto":
                    prm["region_type"] = rng.choice(["cubic", "spherical", "full"])
                    prm["auto_center"] = True
                if mode == "bad":
                    prm["region_type"] = "cubic"
                    prm["radius"] = 300
                if mode == "roi":
                    prm["region_type"] = "cubic"
                kw = {"roi": [[0, s - 1] for s in shape]} if mode == "roi" else {}
                w.hold(img=a, params=prm, ctor=kw)
                mt = M.make(viqa, n, **kw)
                w.op(f"{n} {mode}", mt.score, a, **prm)
                w.op(f"{n} {mode} remembered", mt.score, a)
                if a.ndim == 2 or mode != "auto":
                    w.op(f"{n} {mode} view", mt.visualize_centers, a, dpi=20)
                    plt.close("all")

    # --- the functions behind the metrics -----------------------------------
    from viqa.fr_metrics.gsm import gradient_similarity
    from viqa.fr_metrics.mad import most_apparent_distortion
    from viqa.fr_metrics.ssim import structural_similarity
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio
    from viqa.nr_metrics.snr import signal_to_noise_ratio
    from viqa.utils import correlate_convolve_abs, find_largest_region, gabor_convolve

    for rep in range(ctx.share(20, 200)):
        r, m = (np.asarray(x) if not isinstance(x, torch.Tensor) else x.numpy() for x in pair(S2))
        k = values(npr.integers(0, 9, (3, 3)), rng.choice(["float64", "int16"]))
        c, bg = [9, 9], [14, 20]
        w.start()
        w.hold(r=r, m=m, kernel=k, center=c, background=bg)
        w.op("gradient_similarity", gradient_similarity, r, m)
        w.op("structural_similarity", structural_similarity, r, m, data_range=255,
             gaussian_weights=rng.random() < 0.5)
        w.op("most_apparent_distortion", most_apparent_distortion, r, m, block_size=8)
        w.op("signal_to_noise_ratio", signal_to_noise_ratio, r, signal_center=c, radius=3,
             region_type=rng.choice(["cubic", "spherical", "full", "original"]))
        w.op("contrast_to_noise_ratio", contrast_to_noise_ratio, r, background_center=bg,
             signal_center=c, radius=3,
             region_type=rng.choice(["cubic", "spherical", "full", "original"]))
        w.op("gabor_convolve", gabor_convolve, r, 2, 2)
        if rep % 4 == 0:
            w.op("correlate_convolve_abs", correlate_convolve_abs, r, k,
                 mode=rng.choice(["correlate", "convolve"]))
        b = np.asarray(M.smooth(npr, S2)) > 120
        w.hold(binary=b)
        for t in ("cubic", "spherical", "full", "original", "other"):
            w.op("find_largest_region " + t, find_largest_region, b, iterations=1, region_type=t)

    # --- batch, several metrics, exports, fusion --------------------------
    for rep in range(ctx.share(12, 200)):
        w.start()
        ms = [viqa.RMSE(), viqa.SNR(), viqa.SSIM(), viqa.MAD()]
        ps = [{}, {"signal_center": [8, 8], "radius": 3, "region_type": "cubic"}, {},
              {"block_size": 8, "weights": np.array([0.5, 0.75, 1.0, 5.0, 6.0])}]
        rois = [[[0, 44], [1, 45]]] * 3 if rng.random() < 0.5 else None
        w.hold(metric_list=ms, params=ps, rois=rois)
        b = viqa.BatchMetrics(d, pairs, ms, ps, rois=rois)
        w.op("batch", b.calculate, **rng.choice([{}, {"roi": [[0, 44], [0, 40]]}]))
        w.op("batch report", b.report, file_path=outd)
        w.op("batch failing", b.calculate, roi=[[0, 2], [0, 3]])
        # every setting of every metric, complete or not, in runs of several metrics
        n = rng.sample(list(M.FR), 3)
        ms = [M.make(viqa, x) for x in n] + [viqa.SNR()]
        ps = [copy.deepcopy(rng.choice(M.MORE[x])) for x in n]
        ps.append(rng.choice([{}, {"signal_center": (8, 8, 6), "radius": 3}]))
        sh = rng.choice([S2, S3, (46, 45, 4)])
        for x in ps[:3]:
            if rng.random() < 0.6:
                x["im_slice"] = rng.choice([0, 1])
            if rng.random() < 0.4:
                x["dim"] = 2
        w.start()
        r, m = pair(sh, same=rng.random() < 0.8)
        w.hold(r=r, m=m, params=ps, metric_list=ms)
        mm = viqa.MultipleMetrics(ms, ps)
        w.op(f"several {n}", mm.calculate, r, m, **rng.choice(
            [{}, {"scaling_order": 0}, {"data_range": 1, "normalize": True}]))
        w.op(f"batch of {n}", viqa.BatchMetrics(d, pairs, ms, ps).calculate)
        ms = [viqa.RMSE(), viqa.SNR(), viqa.SSIM(), viqa.MAD()]
        ps = [{}, {}, {}, {"block_size": 8, "weights": np.array([0.5, 0.75, 1.0, 5.0, 6.0])}]
        w.start()
        r, m = pair(S2, same=rng.random() < 0.5)
        ps = [{}, {"signal_center": (8, 8), "radius": 3}, {}, dict(ps[3])]
        roi = [(0, 44), (1, 44)]
        res = {"RMSE": 2.0, "SNR_r": 1.0, "SNR_m": 3.0}
        w.hold(r=r, m=m, params=ps, roi=roi, results=res)
        mm = viqa.MultipleMetrics(ms, ps)
        w.op("multiple", mm.calculate, r, m, **rng.choice([{}, {"roi": roi}]))
        w.op("multiple report", mm.report, csv=True, metadata=True, text=True,
             file_path=outd)
        w.op("export_image", viqa.export_image, res, r, m, file_path=outd, dpi=20,
             show_image=False, **rng.choice([{}, {"roi": roi}]))
        sc = [viqa.RMSE(), viqa.PSNR()]
        for x in sc:
            x.score(np.zeros((4, 4)), np.ones((4, 4)))
        wt = [0.5, 2.0]
        w.hold(weights=wt, mets=sc)
        w.op("fusion", viqa.fuse_metrics_linear_combination, sc, wt)
        w.op("export_results", viqa.export_results, sc, outd, "res", return_dict=True)
        img = viqa.ImageArray(M.smooth(npr, S2))
        img.calculate_statistics()
        w.hold(image=img)
        w.op("describe", img.describe, outd, "stat")
        w.op("visualize", img.visualize, export_path=os.path.join(outd, "v.png"), dpi=20)
        plt.close("all")
        for form in ("2d", "3d"):
            p1, p2 = files[form + "r"], pathlib.Path(files[form + "m"])
            w.hold(paths=[p1, p2])
            w.op("score paths", viqa.RMSE().score, p1, p2)
            w.op("load path", viqa.load_data, p2, data_range=1, normalize=True)
