"""C30: documented warnings come exactly in the situations they describe."""

import contextlib
import csv
import io
import os
import re
import warnings

import numpy as np
import skimage.io
import torch

from harness import metrics as M
from harness.lib import exc_class, num

KINDS = {
    "noscore": r"no score value", "plane": r"ignored for 2d images", "volume": r"full volume",
    "range": r"data_range is set but", "normalized": r"already normalized",
    "cropped": r"already cropped", "zaxis": r"parameter z", "slices": r"parameter slices",
    "grey": r"grayscale", "auto": r"automatically detected", "skipped": r"skipping",
    "rois": r"overwritten", "noresults": r"no results to plot", "nofile": r"not exported",
    "exponent": r"not an integer", "together": r"must be given together",
    "betas": r"ignoring beta",
}
# categories the documentation names
RUNTIME = {"noscore", "plane", "volume", "range", "normalized", "nofile", "exponent", "together",
           "betas"}
USER = {"skipped", "rois", "noresults"}
LABEL = {"MSSSIM": "MS-SSIM"}


def watch(f, *a, **k):
    """(outcome, value, kinds with repetition, categories right, printed text)."""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                res, v = "ok", f(*a, **k)
        except Exception as e:  # noqa: BLE001
            res, v = exc_class(e), None
    kinds, cats = [], True
    for w in ws:
        text = str(w.message).lower()
        for n, p in KINDS.items():
            if re.search(p, text):
                kinds.append(n)
                cats &= not (n in RUNTIME and not issubclass(w.category, RuntimeWarning))
                cats &= not (n in USER and not issubclass(w.category, UserWarning))
    return res, v, kinds, cats, out.getvalue()


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    import matplotlib.pyplot as plt
    torch.set_num_threads(1)
    plt.show = lambda *a, **k: None

    def ev(k, ks, res, cats, _in, **f):
        rec = ctx.ev(k, kinds=sorted(set(ks)), res=res, cats=cats, **f,
                     _in={**_in, "outcome": res, "warnings": ks})
        if res == "ok":
            ctx.neg(k + "_noise", rec, kinds=sorted({*rec["kinds"], "noresults" if k != "image" else "rois"}))
            ctx.neg(k + "_category", rec, cats=False)
            if ks:
                ctx.neg(k + "_missing", rec, kinds=rec["kinds"][1:])
        return rec

    # scoring requests of the model
    def image(q, t):
        sh = {"2": (46, 47), "3": (12, 13, 11), "c": (46, 47, 3)}[q["nd"]]
        if q["nd"] == "3" and q["m"] in M.SLICED:
            sh = (45, 46, 45)
        if q["nd"] == "3" and q["m"] in ("MAD", "GSM"):
            sh = (20, 21, 20)
        a = M.smooth(npr, sh, 0, 255, np.int64)
        a.flat[0], a.flat[-1] = 0, 255
        b = a if rng.random() < 0.2 else M.distorted(npr, a, 20)
        return a.astype(t), b.astype(t)

    cs = ctx.mine(ctx.cases["requests"])
    by = {}
    for q in cs:
        by.setdefault((q["m"], q["nd"]), []).append(q)
    for key in sorted(by):
        qs = by[key]
        rng.shuffle(qs)
        heavy = key[1] == "3" and key[0] in M.SLICED
        # every combination of axis, slice and colour setting, the rest at random
        todo, seen = [], set()
        for q in qs:
            f = (q["dim"], q["sl"], q["chrom"], q["range"])
            if (f not in seen and not heavy) or ctx.thorough:
                todo.append(q)
            seen.add(f)
        if heavy and not ctx.thorough:
            todo = qs[:4]
        elif not ctx.thorough:
            todo = todo[:12]
        for q in todo[:80]:
            if q["m"] in ("GSM", "MAD", "UQI") and q["chrom"]:
                continue
            t = "uint8" if q["eight"] else rng.choice(["float64", "int16", "uint16"] if q["norm"] else
                                                     ["uint8", "float64", "int16"])
            a, b = image(q, t)
            kw, prm = {}, dict(M.FR[q["m"]])
            if q["m"] == "SSIM" and q["chrom"]:
                prm["color_weights"] = np.array([1.0, 1.0, 1.0])
            if q["m"] in ("SSIM", "UQI") and q["nd"] == "3":
                prm["win_size"] = 5
                if q["m"] == "SSIM":
                    prm["gaussian_weights"] = False
            if q["chrom"]:
                kw["chromatic"] = True
            if q["norm"]:
                kw["normalize"] = True
            dr = None if q["range"] == 0 else 255 if q["eight"] or not q["norm"] or rng.random() < 0.5 else 1
            if dr == 1 and q["m"] == "MAD":
                dr = 255
            nd = 2 if q["nd"] == "c" else a.ndim
            if q["roi"] == "all":
                kw["roi"] = [(0, n) for n in a.shape]
                if q["nd"] == "c":
                    continue            # a region of a colour image has no third axis
            elif q["roi"] == "part":
                kw["roi"] = [(0, n - 1) for n in a.shape[:nd]]
                if q["nd"] == "c":
                    continue
            if q["dim"] != 99:
                prm["dim"] = q["dim"]
            if q["sl"] != 99:
                prm["im_slice"] = q["sl"]

            def ask():
                return getattr(viqa, q["m"])(data_range=dr, **kw).score(a, b, **prm)
            res, v, ks, cats, _ = watch(ask)
            info = {"request": q, "dtype": t, "data_range": dr}
            rec = ev("score", ks, res, cats, info, q=q)
            ctx.neg("outcome", rec, res="ValueError" if res == "ok" else "ok")
            if rng.random() < 0.2 and res == "ok":       # it comes every time
                res, v, ks, cats, _ = watch(ask)
                ev("score", ks, res, cats, {**info, "again": True}, q=q)

    # loading
    for _ in range(ctx.share(40, 400)):
        q = {"range": rng.randrange(2), "norm": rng.random() < 0.5, "roi": rng.choice(["none", "all", "part"]),
             "eight": False}
        sh = rng.choice([(7, 8), (5, 6, 7), (6, 6)])
        t = rng.choice(["uint8", "uint16", "float32", "float64", "int16"])
        a = npr.integers(0, 100, sh).astype(t)
        dr = rng.choice([1, 255, 65535])
        q["eight"] = bool(t == "uint8" and dr == 255 and q["norm"] and q["range"])
        if t == "uint16" and dr == 65535:
            dr = 255
        kw = {}
        if q["range"]:
            kw["data_range"] = dr
        if q["norm"] or rng.random() < 0.5:
            kw["normalize"] = q["norm"]
        if q["roi"] != "none":
            kw["roi"] = [(0, n - (q["roi"] == "part")) for n in sh]
        x = rng.choice([a, viqa.ImageArray(a)] + ([torch.from_numpy(a)] if t != "uint16" else []))
        res, v, ks, cats, _ = watch(viqa.load_data, x, **kw)
        rec = ev("load", ks, res, cats, {"kw": {k: str(i) for k, i in kw.items()}, "dtype": t, "shape": sh}, q=q)
        ctx.neg("load_outcome", rec, res="ValueError" if res == "ok" else "ok")
    a = npr.integers(0, 99, (5, 6))
    res, v, ks, cats, _ = watch(viqa.load_data, a, batch=True)
    rec = ctx.ev("deprecated", kinds=ks, res=res, cats=cats, _in={"outcome": res})
    ctx.neg("deprecated", rec, res="ok")

    # cropping
    for _ in range(ctx.share(50, 400)):
        sh = [rng.randint(2, 5) for _ in range(rng.choice([2, 2, 3]))]
        if sh[-1] == 3 and len(sh) == 3:
            sh[-1] = 4
        a = npr.integers(0, 99, sh).astype(rng.choice(["uint8", "float64"]))
        win = []
        for n in sh:
            lo = rng.choice([0, 0, rng.randrange(n)])
            win.append((lo, rng.choice([n, n, rng.randint(lo + 1, n)])))
        if rng.random() < 0.2:
            win = [(0, n) for n in sh]
        z = len(sh) == 3 or rng.random() < 0.4
        args = list(win)
        if len(sh) == 2 and z:
            args.append((0, rng.randint(1, 3)))
        res, v, ks, cats, _ = watch(viqa.crop_image, a, *args)
        rec = ev("crop", ks, res, cats, {"shape": sh, "windows": args}, shape=sh, z=z,
                 size=[b - c for c, b in win])

    # printing
    names = list(M.FR) + ["SNR", "CNR"]
    for n in ctx.mine(names * ctx.scale(2, 8)):
        o = M.make(viqa, n) if n in M.FR else getattr(viqa, n)()
        for scored in (False, True):
            if scored:
                o.score_val = rng.choice([0.0, 1.0, 12.345678, -3.14159, 0.005, 99.995, 1e-7, 1234.5,
                                          float("inf"), rng.uniform(-99, 99)])
                if rng.random() < 0.4:
                    o.score_val = np.float64(o.score_val)
            dec = rng.choice([None, 0, 1, 2, 3, 6])
            res, v, ks, cats, text = watch(o.print_score, **({} if dec is None else {"decimals": dec}))
            name, _, val = text.strip().rpartition(": ")
            try:
                val = float(val)
            except ValueError:
                val = None
            rec = ev("print", ks, res, cats, {"metric": n, "decimals": dec, "score": repr(o.score_val), "text": text},
                     scored=scored, text=name, label=LABEL.get(n, n), v=num(val), s=num(o.score_val),
                     dec=2 if dec is None else dec)
            if scored:
                ctx.neg("print_name", rec, text="X")
                if np.isfinite(o.score_val):
                    ctx.neg("print_value", rec, v=num(float(o.score_val) + 1.1))
            else:
                ctx.neg("print_none", rec, v=num(1.0))

    # batches
    d = ctx.tmp("batch")
    files = []
    for i in range(3):
        f = f"i{i}.png"
        skimage.io.imsave(os.path.join(d, f), npr.integers(0, 255, (20, 21)).astype(np.uint8), check_contrast=False)
        files.append(f)
    rois = [None, [(0, 15), (1, 16)], [(1, 17), (2, 20)]]
    for i in range(ctx.share(24, 200)):
        rows, prev = [], None
        for _ in range(rng.randint(1, 5)):
            r = prev if prev and rng.random() < 0.5 else (rng.choice(files), rng.choice(files))
            prev = r
            rows.append(r)
        own = rng.random() < 0.6
        sel = [rng.choice([1, 2, 2]) if own else 0 for _ in rows]
        glob = rng.choice([0, 0, 1])
        p = os.path.join(d, f"p{i}.csv")
        with open(p, "w", newline="") as h:
            w = csv.writer(h)
            w.writerow(["reference_image", "modified_image"])
            w.writerows(rows)
        kw = {"rois": [rois[s] for s in sel]} if own else {}
        b = viqa.BatchMetrics(d, p, [viqa.RMSE()], [{}], **kw)
        args = {"roi": rois[glob]} if glob else {}
        res, v, ks, cats, _ = watch(b.calculate, **args)
        eff = [[*r, glob or s] for r, s in zip(rows, sel)]
        ks = [k for k in ks if k in ("skipped", "rois")]
        rec = ev("run", ks, res, cats, {"rows": rows, "rois": sel, "roi": glob}, rows=eff, own=own,
                 glob=bool(glob), skips=ks.count("skipped"))
        ctx.neg("run_skips", rec, skips=rec["skips"] + 1)

    # thresholds of MAD, exponents of SSIM, automatic centres
    for _ in range(ctx.share(16, 80)):
        a = M.smooth(npr, (20, 21), 5, 250)
        b = M.distorted(npr, a)
        t1, t2 = rng.random() < 0.5, rng.random() < 0.5
        kw = {**({"thresh_1": 2.0} if t1 else {}), **({"thresh_2": 3.0} if t2 else {})}
        res, v, ks, cats, _ = watch(viqa.MAD().score, a, b, block_size=6, **kw)
        ev("mad", [k for k in ks if k != "range"], res, cats, {"kw": kw}, t1=t1, t2=t2)
        e = {n: rng.choice([1, 2, 1, 2, 1.0, 2.0, 1.7]) for n in rng.sample(["alpha", "beta", "gamma"], rng.randint(0, 3))}
        res, v, ks, cats, _ = watch(viqa.SSIM().score, a, b, **e)
        _, w, _, _, _ = watch(viqa.SSIM().score, a, b, **{n: int(x) for n, x in e.items()})
        rec = ev("ssim", [k for k in ks if k != "range"], res, cats, {"kw": e, "values": [repr(v), repr(w)]},
                 whole=all(isinstance(x, int) for x in e.values()), same=bool(v == w))
        ctx.neg("ssim_cast", rec, same=False)
        n = rng.choice(["SNR", "CNR"])
        auto = rng.random() < 0.5
        x = np.zeros((40, 40))
        x[8:30, 8:30] = 100
        x = x + npr.random((40, 40))
        kw = {"signal_center": (20, 20), "radius": 4}
        if n == "CNR":
            kw["background_center"] = (5, 34)
        if auto:
            kw["auto_center"] = True
        res, v, ks, cats, _ = watch(getattr(viqa, n)().score, x, **kw)
        ev("auto", [k for k in ks if k != "range"], res, cats, {"metric": n, "auto": auto}, auto=auto)

    # statistics, views, comparison images
    for i in range(ctx.share(16, 80)):
        out = ctx.tmp(f"d{i}")
        p, f = rng.random() < 0.6, rng.random() < 0.6
        img = viqa.ImageArray(npr.integers(0, 99, (6, 7)).astype(np.uint8))
        kw = {**({"path": out} if p else {}), **({"filename": rng.choice(["a.csv", "b", "c.CSV"])} if f else {})}
        res, v, ks, cats, _ = watch(img.describe, **kw)
        rec = ev("describe", ks, res, cats, {"kw": kw}, path=p, named=f, files=len(os.listdir(out)))
        ctx.neg("describe_files", rec, files=rec["files"] + 1)
        nd = rng.choice(["2", "3", "c"])
        img = viqa.ImageArray(npr.integers(0, 99, {"2": (6, 7), "3": (5, 6, 7), "c": (6, 7, 3)}[nd]).astype(np.uint8))
        sl = nd == "3" or rng.random() < 0.5
        res, v, ks, cats, _ = watch(img.visualize, **({"slices": (1, 2, 3)} if sl else {}))
        ev("view", ks, res, cats, {"kind": nd, "slices": sl}, nd=nd, slices=sl)
        n = rng.choice([0, 1, 3])
        from viqa.utils import export_image
        a = npr.integers(0, 99, (6, 7)).astype(np.uint8)
        res, v, ks, cats, _ = watch(export_image, {f"m{j}": 1.5 for j in range(n)}, a, a, file_path=out, show_image=False)
        ev("image", ks, res, cats, {"results": n}, n=n)
        plt.close("all")
