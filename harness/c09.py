"""C09: normalisation maps linearly onto the requested range."""

import numpy as np
import torch

from harness import metrics as M
from harness.lib import big, num, outcome


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng

    def norm(p, dtype, r, auto=True, rin=None, via="normalize", shape=None, layout=None):
        """p: integer numerators; float types hold p / 8."""
        p = np.asarray(p, dtype=np.int64)
        kind = np.dtype(dtype).kind if dtype not in ("bool",) else "b"
        div = 8 if kind == "f" else 1
        a = (p / div if kind == "f" else p).astype(dtype)
        if shape:
            a = a.reshape(shape)
        else:
            a = a.reshape(1, -1)
        if layout == "F":
            a = np.asfortranarray(a)
        elif layout == "image":
            a = viqa.ImageArray(a)
        elif layout == "rev":
            a = a[::-1].copy()[::-1]
        keep = np.array(a)
        if via == "load":
            res, v = outcome(viqa.load_data, a, data_range=r, normalize=True)
        elif via == "tensor":
            res, v = outcome(viqa.load_data, torch.from_numpy(np.array(a, order="C", copy=True)),
                             data_range=r, normalize=True)
        elif auto:
            res, v = outcome(viqa.normalize_data, a, (0, r))
        elif rin is None:
            res, v = outcome(viqa.normalize_data, a, (0, r), automatic_data_range=False)
        else:
            res, v = outcome(viqa.normalize_data, a, (0, r), (rin[0] / div, rin[1] / div)
                             if kind == "f" else rin, automatic_data_range=False)
        v = None if v is None else np.asarray(v)
        slack = {"float32": 20000}.get(dtype, 1 if dtype in ("float64",) else 0)
        if dtype in ("float32",) and r == 255:
            slack = 200
        o = v.ravel() if v is not None else []
        rec = ctx.ev("norm", dtype=dtype, r=r, numeric=kind in "iuf", auto=auto,
                     given=rin is not None, p=[big(x) for x in p],
                     lo=big(rin[0]) if rin else big(0), hi=big(rin[1]) if rin else big(0),
                     res=res, odtype=str(v.dtype) if v is not None else "",
                     shape_ok=v is not None and v.shape == keep.shape,
                     out=[num(x) for x in o],
                     oi=[big(int(x)) for x in o] if v is not None and r != 1
                     and v.dtype.kind in "iu" else [],
                     slack=slack,
                     _in={"dtype": dtype, "range": r, "via": via, "input_range": rin,
                          "pixels": [int(x) for x in p][:12], "outcome": res,
                          "out": [float(x) for x in o][:12]})
        if res == "ok" and v.dtype.kind in "iu" and len(set(p.tolist())) > 2 and dtype != "uint8":
            oi = rec["oi"]
            mid = int(np.argsort(p)[len(p) // 2])
            if oi[mid]["s"] and p[mid] not in (p.min(), p.max()):
                bad = [*oi[:mid], big(int(o[mid]) + 1), *oi[mid + 1:]]
                ctx.neg("off_by_one", rec, oi=bad)
            ctx.neg("type", rec, odtype="int32")
            ctx.neg("rejected", rec, res="TypeError")
        elif res != "ok":
            ctx.neg("accepted", rec, res="ok", oi=[], out=[])
        return v

    RNG = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535),
           "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
           "int64": (-2**35, 2**35), "uint64": (0, 2**36),
           "float16": (-2000, 2000), "float32": (-2**16, 2**16), "float64": (-2**30, 2**30)}

    def pixels(dtype, n):
        lo, hi = RNG[dtype]
        k = rng.randrange(5)
        if k == 0:      # full range
            p = [rng.randint(lo, hi) for _ in range(n)]
            p[0], p[1] = lo, hi
        elif k == 1:    # narrow
            c = rng.randint(lo, hi - 10)
            p = [c + rng.randrange(11) for _ in range(n)]
        elif k == 2:    # two values
            a, b = rng.randint(lo, hi), rng.randint(lo, hi)
            p = [rng.choice([a, b]) for _ in range(n)]
        elif k == 3:
            w = (hi - lo) // rng.choice([2, 3, 7, 100])
            c = rng.randint(lo, hi - w)
            p = [c + rng.randint(0, w) for _ in range(n)]
        else:
            p = [rng.randint(max(lo, -100), min(hi, 127)) for _ in range(n)]
        if len(set(p)) < 2:
            p[0], p[1] = lo, hi
        rng.shuffle(p)
        return p

    # images of the model in every type
    for img in ctx.mine(ctx.cases["img"]):
        t = rng.choice([x for x in RNG if x != "int8"])
        if t == "uint8" and rng.random() < 0.5:
            t = "uint16"
        norm(img, t, rng.choice([1, 255, 65535]))
    for _ in range(ctx.share(160, 4000)):
        t = rng.choice(list(RNG))
        n = rng.choice([4, 6, 12, 24])
        p = pixels(t, n)
        r = rng.choice([1, 255, 65535])
        sh = rng.choice([(2, n // 2), (1, n), (2, 1, n // 2), (n // 2, 2)])
        if max(abs(int(x)) for x in p) > 2000 and t == "float16":
            p = [x % 2000 for x in p]
        via = rng.choice(["normalize", "normalize", "load"])
        if t in ("uint8", "int16", "int32", "float32", "float64"):
            via = rng.choice([via, "tensor"])
        norm(p, t, r, via=via, shape=sh, layout=rng.choice([None, "F", "image", "rev"]))
        # explicit input range covering the image
        lo, hi = min(p), max(p)
        a, b = rng.choice([0, 1, 5, 100]), rng.choice([0, 1, 7, 1000])
        if t == "float16":
            a, b = a % 7, b % 9
        norm(p, t, r, auto=False, rin=(lo - a, hi + b), shape=sh)
        # an input range that ends in zero, and one that the image leaves
        # (only the float range: integers do not hold values outside theirs)
        if t[0] != "u" and t != "float16":
            w = rng.randint(1, 50)
            q = [-(abs(int(x)) % (w + 1)) for x in p]
            norm(q, t, r, auto=False, rin=(-w, 0), shape=sh)
            q = [abs(int(x)) % (w + 1) for x in p]
            norm(q, t, r, auto=False, rin=(0, w), shape=sh)
        q = [abs(int(x)) % 120 for x in p]
        lo = rng.randint(0, 60)
        norm(q, t, 1, auto=False, rin=(lo, lo + rng.randint(1, 70)), shape=sh)
    # invalid requests
    for _ in range(ctx.share(24, 200)):
        t = rng.choice(list(RNG))
        norm(pixels(t, 6), t, rng.choice([2, 100, 254, 256, 1000, 65536, 4095]),
             via=rng.choice(["normalize", "load"]))
        norm([0, 1, 1, 0], "bool", rng.choice([1, 255, 65535]))
        norm([0, 1, 1, 0], "complex64", rng.choice([1, 255, 65535]))
        t = rng.choice([x for x in RNG if x != "uint8"])
        norm(pixels(t, 6), t, rng.choice([1, 255, 65535]), auto=False)
        a = npr.integers(0, 300, (4, 5))
        res, _ = outcome(viqa.load_data, a, normalize=True)
        rec = ctx.ev("reject", res=res, _in={"load_data": "normalize without data_range"})
        ctx.neg("reject", rec, res="ok")
        n = rng.choice([*M.FR, "SNR", "CNR"])
        res, _ = outcome(getattr(viqa, n), data_range=None, normalize=True)
        ctx.ev("reject", res=res, _in={"metric": n, "data_range": None, "normalize": True})
        b = a.copy()
        res, v = outcome(viqa.load_data, b, data_range=255)
        rec = ctx.ev("ignored", res=res, same=res == "ok" and bool(np.array_equal(v, a))
                     and v.dtype == a.dtype)
        ctx.neg("ignored", rec, same=False)
    # metrics score the normalised images
    for _ in range(ctx.share(60, 1200)):
        n = rng.choice([*M.FR, "SNR", "CNR", "RMSE", "PSNR"])
        t = rng.choice(["uint8", "uint16", "int16", "int32", "float32", "float64"])
        sh = (46, 45)
        lo, hi = rng.choice([(0, 200), (10, 250), (3, 180)])
        r = M.smooth(npr, sh, lo, hi, np.int64)
        m = np.clip(r + npr.integers(-40, 41, sh), 0, 255)
        r, m = r.astype(t), m.astype(t)
        dr = rng.choice([1, 255, 65535])
        if n == "MAD" and dr == 1:
            dr = 255
        prm = dict(M.FR.get(n, {}))
        if n in ("SNR", "CNR"):
            prm = {"signal_center": (10, 12), "radius": 5, "region_type": "cubic"}
            if n == "CNR":
                prm["background_center"] = (25, 20)
            args, nargs = (m,), (viqa.normalize_data(m, (0, dr)),)
        else:
            args = (r, m)
            nargs = (viqa.normalize_data(r, (0, dr)), viqa.normalize_data(m, (0, dr)))
        wres, want = outcome(M.make(viqa, n, data_range=dr).score, *nargs, **prm)
        res, v = outcome(M.make(viqa, n, data_range=dr, normalize=True).score, *args, **prm)
        rec = ctx.ev("metric", res=res, wres=wres, v=num(v), want=num(want),
                     _in={"metric": n, "dtype": t, "data_range": dr, "outcome": res,
                          "value": repr(v), "want": repr(want)})
        if res == "ok" and np.isfinite(float(v)):
            ctx.neg("metric", rec, v=num(float(v) * 1.001 + 1e-3))
