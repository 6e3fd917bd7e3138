"""C24: comparison images and views show the requested slices."""

import contextlib
import io
import os

import numpy as np
import skimage.transform

from harness.lib import num, outcome

NAMES = ["PSNR", "RMSE", "SSIM", "MS-SSIM", "FSIM", "VIFp", "VSI", "MAD", "GSM", "UQI", "own", "x_rr",
         "_mm", "A b"]
NRN = ["SNR_r", "SNR_m", "CNR_r", "CNR_m", "Q_r", "Q_m"]


class Views:
    def __init__(self, ctx):
        import matplotlib.pyplot as plt

        self.ctx, self.rng, self.plt = ctx, ctx.rng, plt
        plt.rcParams["figure.max_open_warning"] = 0

    def ramp(self, shape):
        n = int(np.prod(shape))
        dt = self.rng.choice(["float64", "float32", "int32", "uint16"] + (["uint8"] if n < 256 else []))
        a = np.arange(n).reshape(shape).astype(dt)
        if self.rng.random() < 0.2:
            a = np.asfortranarray(a)
        return a

    def results(self):
        rng = self.rng
        names = rng.sample(NAMES, rng.choice([0, 1, 3, 4, 5, 8, 9, 10])) + rng.sample(
            NRN, rng.choice([0, 0, 1, 2, 4, 6]))
        if rng.random() < 0.5:
            rng.shuffle(names)
        vals = [rng.choice([0.0, 1.0, -3.456, 0.994, 0.996, 123456.789, 1e-7, float("inf"), 42,
                            np.float64(2.5), np.float32(0.125), rng.uniform(-50, 50), "n/a"])
                for _ in names]
        return dict(zip(names, vals))

    def texts(self, fig):
        out = []
        for t in fig.texts:
            s = t.get_text()
            if t is getattr(fig, "_suptitle", None):
                continue
            name, _, v = s.rpartition(": ")
            try:
                v = float(v)
            except ValueError:
                pass
            out.append({"name": name, "v": num(v) if isinstance(v, float) else {"k": v, "s": 0, "d": []},
                        "pos": [round(float(p) * 10000) for p in t.get_position()]})
        return out

    def pictures(self, fig):
        return [np.asarray(ax.images[0].get_array(), dtype=float) for ax in fig.axes if ax.images]

    def rows(self, a, f=1):
        return [[int(v) for v in r] for r in np.rint(a * f)]

    def compare(self, x, good=True, bad=None):
        """One comparison image for a case of the design model."""
        ctx, rng = self.ctx, self.rng
        shape, off, ext, a, k = x["shape"], x["off"], x["ext"], x["a"], x["k"]
        nd = len(shape)
        r = self.ramp(shape)
        kw = {}
        mshape = list(shape)
        if rng.random() < 0.25 and min(shape) > 1:
            mshape = [max(2, n + rng.randint(-2, 3)) for n in shape]
            if nd == 3 and mshape[-1] == 3:
                mshape[-1] = 4
        m = ctx.nprng.integers(0, 250, mshape)
        m = (m + (0.5 if r.dtype.kind == "f" else 0)).astype(r.dtype)
        em = m
        if mshape != list(shape):
            o = rng.choice([None, 0, 1, 3])
            if o is not None:
                kw["scaling_order"] = o
            em = skimage.transform.resize(m, shape, preserve_range=True,
                                          order=1 if o is None else o).astype(r.dtype)
        roi = None
        if list(off) != [0] * nd or list(ext) != list(shape) or rng.random() < 0.2:
            roi = [(o, o + e) for o, e in zip(off, ext)]
            kw["roi"] = roi
        if a:
            kw["xyz"[a - 1]] = k
        elif rng.random() < 0.2:
            kw[rng.choice("xyz")] = 0              # ignored for 2D images
        rr, mm = r, m
        if nd == 2 and rng.random() < 0.25 and r.dtype == np.float64:
            rr, mm = (np.repeat(q[..., None], 3, axis=-1) for q in (r, m))
            if mshape != list(shape):
                return
        if rng.random() < 0.2:
            rr = ctx.viqa.ImageArray(rr)
            mm = ctx.viqa.ImageArray(mm)
        res_ = self.results()
        d = ctx.tmp("img")
        want = rng.random() < 0.15
        name = "cmp.png"
        kw["dpi"] = 20
        if bad:
            want = rng.random() < 0.3
            name = bad(kw) or name
        if want:
            kw["file_path"] = d
            kw["file_name"] = name
            kw["show_image"] = rng.random() < 0.5
        elif name != "cmp.png":
            kw["file_name"] = name
        self.plt.close("all")
        img = kw.pop("swap", None)
        if img is not None:
            rr = img
        with contextlib.redirect_stdout(io.StringIO()):
            res, _ = outcome(ctx.viqa.export_image, res_, rr, mm, **kw)
        files = os.listdir(d)
        ok = files == [name] and open(os.path.join(d, name), "rb").read(4) == b"\x89PNG"
        for f in files:
            os.unlink(os.path.join(d, f))
        rec = {"k": "compare", "good": good, "res": res, "shape": list(shape), "off": list(off),
               "ext": list(ext), "a": a, "kk": k, "left": [], "right": [], "tol": 1,
               "ref": [], "mod": [int(v) for v in np.rint(em.ravel().astype(float) * 1000)],
               "texts": [], "file": ok if want else bool(files), "want": want,
               "results": [{"name": n, "v": num(v) if v != "n/a" else {"k": v, "s": 0, "d": []}}
                           for n, v in res_.items()],
               "_in": {"shape": list(np.shape(rr)), "modified": list(np.shape(mm)),
                       "dtype": str(r.dtype), "kw": repr(kw), "results": repr(res_)}}
        if res == "ok" and good:
            fig = self.plt.figure(max(self.plt.get_fignums()))
            p = self.pictures(fig)
            if len(p) == 2:
                rec["left"], rec["right"] = self.rows(p[0]), self.rows(p[1], 1000)
            rec["texts"] = self.texts(fig)
            import copy
            c = copy.deepcopy(rec)
            w = rng.choice(["left", "right", "value", "name", "file", "reject"])
            if w == "left":
                c["left"][0][0] += 1
            elif w == "right":
                c["right"][-1][-1] += 5000
            elif w == "value" and c["texts"] and c["texts"][0]["v"]["k"] == "n":
                f = float(res_[c["texts"][0]["name"]])
                c["texts"][0]["v"] = num(f + 0.02)
            elif w == "name" and c["texts"]:
                c["texts"][-1]["name"] += "x"
            elif w == "file":
                c["file"] = not c["file"]
            else:
                c["res"] = "ValueError"
            ctx.neg("compare." + w, c)
        elif not good:
            ctx.neg("accept", rec, res="ok")
        ctx.ev(**rec)

    def bad(self, x):
        rng = self.rng
        nd = len(x["shape"])
        kinds = ["ext", "dims"]
        if nd == 3:
            kinds += ["none", "two", "three", "out", "four"]
        w = rng.choice(kinds)
        ext = x["ext"]

        def change(kw):
            if w == "ext":
                return rng.choice(["cmp.jpg", "cmp", "cmp.png.txt", "cmp.csv", "png"])
            if w == "dims":
                kw["swap"] = np.zeros([2] * (5 - nd)) if nd == 2 else np.zeros((4, 4))
            for q in "xyz":
                if w in ("none", "two", "three", "out"):
                    kw.pop(q, None)
            if w == "two":
                for q in rng.sample("xyz", 2):
                    kw[q] = rng.choice([0, 0, x["k"]])
            if w == "three":
                for q in "xyz":
                    kw[q] = 0
            if w == "out":
                i = rng.randrange(3)
                kw["xyz"[i]] = ext[i] + rng.choice([0, 1, 5])
            if w == "four":
                kw["swap"] = np.zeros((2, 2, 2, 2))
            return None

        self.compare(x, good=False, bad=change)

    def view2(self):
        ctx, rng = self.ctx, self.rng
        good = rng.random() < 0.8
        shape = [rng.randint(1, 6), rng.randint(1, 6)]
        img = self.ramp(shape) if good else np.zeros(rng.choice([(3,), (2, 3, 4), (2, 2, 4)]))
        self.plt.close("all")
        kw = {"dpi": 20}
        with contextlib.redirect_stdout(io.StringIO()):
            res, _ = outcome(ctx.viqa.utils.visualize_2d, img, **kw)
        p = self.pictures(self.plt.figure(max(self.plt.get_fignums()))) if res == "ok" else []
        rec = {"k": "view2", "good": good, "res": res, "shape": shape,
               "left": self.rows(p[0]) if len(p) == 1 and p[0].ndim == 2 else [],
               "_in": {"shape": list(img.shape)}}
        if rec["left"]:
            bad = [list(q) for q in rec["left"]]
            bad[0][0] += 1
            ctx.neg("view2", rec, left=bad)
        ctx.ev(**rec)

    def view3(self, shape, sl, good=True, img=None, sls=None):
        ctx, rng = self.ctx, self.rng
        img = self.ramp(shape) if img is None else img
        self.plt.close("all")
        arg = tuple(sl) if sls is None else sls
        with contextlib.redirect_stdout(io.StringIO()):
            res, _ = outcome(ctx.viqa.utils.visualize_3d, img, arg, dpi=20)
        vs = []
        if res == "ok" and good:
            for ax in self.plt.figure(max(self.plt.get_fignums())).axes:
                if not ax.images:
                    continue
                A = self.rows(np.asarray(ax.images[0].get_array(), dtype=float))
                lines = []
                for ln in ax.lines:
                    xs, ys = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
                    if xs[0] == xs[1]:
                        j = int(round(xs[0]))
                        lines.append([r[j] for r in A] if 0 <= j < len(A[0]) else [])
                    else:
                        i = int(round(ys[0]))
                        lines.append(A[i] if 0 <= i < len(A) else [])
                vs.append({"cells": A, "lines": lines})
        norm = [s % n for s, n in zip(sl, shape)]
        rec = {"k": "view3", "good": good, "res": res, "shape": list(shape), "sl": norm, "views": vs,
               "lines": list(sl) == norm and any(v["lines"] for v in vs),
               "_in": {"shape": list(np.shape(img)), "slices": repr(arg)}}
        if good and vs:
            import copy
            c = copy.deepcopy(rec)
            i = rng.randrange(3)
            if rng.random() < 0.5 or not rec["lines"] or len(c["views"][i]["lines"][0]) < 2:
                c["views"][i]["cells"][-1][-1] += 1
            else:
                c["views"][i]["lines"][0] = c["views"][i]["lines"][0][1:]
            ctx.neg("view3", c)
        elif not good:
            ctx.neg("accept3", rec, res="ok")
        ctx.ev(**rec)

    def batch(self):
        """The comparison images of a batch report show their own pair and results."""
        ctx, rng = self.ctx, self.rng
        d, o = ctx.tmp("bin"), ctx.tmp("bout")
        nd = rng.choice([2, 3, 3])
        n = rng.randint(2, 3)
        small = [rng.randint(4, 6) for _ in range(nd)]
        arr = []
        for i in range(n):
            shape = [q + rng.randint(0, 2) for q in small]
            r = np.arange(int(np.prod(shape))).reshape(shape).astype("uint16")
            m = ctx.nprng.integers(0, 250, shape).astype("uint16")
            name = "_".join(["{}", "x".join(map(str, shape if nd == 3 else [*shape, 1])), "16bit"]) + ".raw"
            for t, q in (("r", r), ("m", m)):
                if nd == 3:
                    # raw volumes store the last axis slowest
                    q.transpose(2, 1, 0).tofile(os.path.join(d, name.format(f"{t}{i}")))
                else:
                    import skimage.io
                    skimage.io.imsave(os.path.join(d, f"{t}{i}.png"), q.astype("uint8"), check_contrast=False)
            arr.append((r, m, shape, [name.format(f"{t}{i}") if nd == 3 else f"{t}{i}.png" for t in "rm"]))
        with open(os.path.join(d, "pairs.csv"), "w") as f:
            f.write("reference_image,modified_image\n" + "".join(",".join(q[3]) + "\n" for q in arr))
        rois = None
        if rng.random() < 0.6:
            rois = []
            for q in arr:
                lo = [rng.randint(0, 1) for _ in range(nd)]
                hi = [n_ - rng.randint(0, 1) for n_ in q[2]]
                rois.append([(u, v) for u, v in zip(lo, hi)])
                if nd == 3 and hi[-1] - lo[-1] == 3:
                    rois[-1][-1] = (0, q[2][-1])
        kw = {}
        a = 0 if nd == 2 else rng.randint(1, 3)
        k = 0 if nd == 2 else rng.randrange(2)
        if a:
            kw["xyz"[a - 1]] = k
        project = rng.choice([None, "proj"])

        def go():
            b = ctx.viqa.BatchMetrics(d, os.path.join(d, "pairs.csv"),
                                      [ctx.viqa.PSNR(data_range=65535), ctx.viqa.RMSE(data_range=65535)],
                                      [{}, {}], rois=rois)
            b.calculate()
            b.report(csv=False, metadata=False, image=True, file_path=o, project_name=project, **kw)
            return b.results

        self.plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            res, out = outcome(go)
        fs = sorted(os.listdir(o))
        for f in fs:
            os.unlink(os.path.join(o, f))
        nums = sorted(self.plt.get_fignums())
        pre = "proj_" if project else ""
        for i, (r, m, shape, _) in enumerate(arr):
            roi = rois[i] if rois else [(0, q) for q in shape]
            got = (out or {}).get(str(i), {})
            rec = {"k": "compare", "good": True, "res": res, "shape": shape, "off": [q[0] for q in roi],
                   "ext": [q[1] - q[0] for q in roi], "a": a, "kk": k, "left": [], "right": [], "tol": 1,
                   "ref": [], "mod": [int(v) * 1000 for v in m.ravel()], "texts": [],
                   "file": fs == [f"{pre}image_comparison_{j}.png" for j in range(n)], "want": True,
                   "results": [{"name": q, "v": num(v)} for q, v in got.items()],
                   "_in": {"shape": shape, "kw": repr(kw), "rois": repr(rois), "batch": i, "files": fs}}
            if res == "ok" and len(nums) == n:
                fig = self.plt.figure(nums[i])
                p = self.pictures(fig)
                if len(p) == 2:
                    rec["left"], rec["right"] = self.rows(p[0]), self.rows(p[1], 1000)
                rec["texts"] = self.texts(fig)
            ctx.ev(**rec)

    def report(self):
        ctx, rng = self.ctx, self.rng
        nd = rng.choice([2, 3])
        shape = [rng.randint(4, 6) for _ in range(nd)]
        if nd == 3 and shape[-1] == 3:
            shape[-1] = 4
        r = np.arange(int(np.prod(shape)), dtype="float64").reshape(shape)
        m = ctx.nprng.integers(0, 250, shape).astype("float64")
        mets = [ctx.viqa.PSNR(data_range=255), ctx.viqa.RMSE(data_range=255), ctx.viqa.SNR(data_range=255)]
        par = [{}, {}, {"signal_center": tuple(s // 2 for s in shape), "radius": 1}]
        a = 0 if nd == 2 else rng.randint(1, 3)
        k = 0 if nd == 2 else rng.randrange(shape[a - 1])
        d = ctx.tmp("rep")
        want = rng.random() < 0.5
        kw = {"image": True, "csv": False, "metadata": False, "file_path": d}
        if want or rng.random() < 0.5:
            kw["export_image"] = want
        if a:
            kw["xyz"[a - 1]] = k

        def go():
            mm = ctx.viqa.MultipleMetrics(mets, par)
            out = mm.calculate(r, m)
            mm.report(img_r=r, img_m=m, **kw)
            return out

        self.plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()):
            res, out = outcome(go)
        fs = os.listdir(d)
        for f in fs:
            os.unlink(os.path.join(d, f))
        rec = {"k": "compare", "good": True, "res": res, "shape": shape, "off": [0] * nd, "ext": shape,
               "a": a, "kk": k, "left": [], "right": [], "tol": 1, "ref": [],
               "mod": [int(v) * 1000 for v in m.ravel()], "texts": [],
               "file": fs == ["image_comparison.png"] if want else bool(fs), "want": want, "results": [{"name": n, "v": num(v)} for n, v in (out or {}).items()],
               "_in": {"shape": shape, "kw": repr(kw), "report": True}}
        if res == "ok":
            fig = self.plt.figure(max(self.plt.get_fignums()))
            p = self.pictures(fig)
            if len(p) == 2:
                rec["left"], rec["right"] = self.rows(p[0]), self.rows(p[1], 1000)
            rec["texts"] = self.texts(fig)
        ctx.ev(**rec)


def rgbish(x):
    return len(x["shape"]) == 3 and 3 in (x["shape"][-1], x["ext"][-1])


def run(ctx):
    w, rng = Views(ctx), ctx.rng
    three = [x for x in ctx.mine(ctx.cases["view3"]) if not rgbish(x)]
    two = ctx.mine(ctx.cases["view2"])
    for x in three if ctx.thorough else rng.sample(three, min(70, len(three))):
        w.compare(x)
    for x in two if ctx.thorough else rng.sample(two, min(40, len(two))):
        w.compare(x)
    for _ in range(ctx.share(160, 3000)):
        nd = rng.choice([2, 3, 3])
        shape = [rng.randint(2, 7) for _ in range(nd)]
        ext, off = [], []
        for n in shape:
            o = rng.randrange(n) if rng.random() < 0.4 else 0
            off.append(o)
            ext.append(rng.randint(1, n - o) if rng.random() < 0.4 else n - o)
        a = 0 if nd == 2 else rng.randint(1, 3)
        x = {"shape": shape, "off": off, "ext": ext, "a": a, "k": rng.randrange(ext[a - 1]) if a else 0}
        if rgbish(x):
            continue
        if rng.random() < 0.35:
            w.bad(x)
        else:
            w.compare(x)
    for _ in range(ctx.share(24, 200)):
        w.view2()
    for _ in range(ctx.share(80, 800)):
        shape = [rng.randint(1, 6) for _ in range(3)]
        k = rng.randrange(10)
        if k < 7:
            w.view3(shape, [rng.randrange(-n if rng.random() < 0.3 else 0, n) for n in shape])
        elif k == 7:
            i = rng.randrange(3)
            sl = [rng.randrange(n) for n in shape]
            sl[i] = rng.choice([shape[i], shape[i] + 1, -shape[i] - 1])
            w.view3(shape, sl, good=False)
        elif k == 8:
            w.view3(shape, [0, 0, 0], good=False,
                    sls=rng.choice([(0, 0), (0,), (0, 0, 0, 0), (0, 0, 0.0), (0, "0", 0), (0.5, 0, 0)]))
        else:
            w.view3(shape, [0, 0, 0], good=False, img=np.zeros(rng.choice([(3, 3), (2, 2, 2, 2)])))
    for _ in range(ctx.share(16, 60)):
        w.report()
    for _ in range(ctx.share(16, 60)):
        w.batch()
