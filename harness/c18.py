"""C18: volume scores from slices."""

import numpy as np
import torch

from harness import metrics as M
from harness.lib import num, outcome

# settings that change the score; (construction, score)
VAR = {
    "MSSSIM": [{"kernel_size": 3, "scale_weights": [0.4, 0.6]},
               {"kernel_size": 5, "scale_weights": [0.3, 0.7], "kernel_sigma": 1.0, "k2": 0.2}],
    "FSIM": [{}, {"scales": 3, "orientations": 2}, {"k": 1.0}],
    "VIFp": [{}, {"sigma_n_sq": 0.4}],
    "VSI": [{}, {"c1": 2.0, "alpha": 0.7}],
    "GSM": [{}],
    "MAD": [{"block_size": 6, "block_overlap": 0.5}, {"block_size": 4, "block_overlap": 0.25}],
}


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng

    def volume(shape, dr, low):
        """A pair in which every slice of every axis is distorted by its own amount."""
        hi = dr if dr > 1 else 255
        r = M.smooth(npr, shape, 0, hi, np.int64)
        if low:                  # MAD sees the distortion
            r = (hi * 0.35 + r * 0.2).astype(np.int64)
        amp = np.zeros(shape)
        for ax, n in enumerate(shape):
            w = npr.permutation(n) / max(1, n - 1)
            amp = amp + w.reshape([-1 if a == ax else 1 for a in range(3)])
        m = r + amp * npr.uniform(-1, 1, shape) * hi * 0.3
        m = np.clip(np.rint(m), 0, hi).astype(np.int64)
        if dr == 1:
            return r / 256, m / 256
        t = "uint8" if dr == 255 else "uint16"
        return r.astype(t), m.astype(t)

    def wrap(a):
        k = rng.randrange(5)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            return viqa.ImageArray(a)
        if k == 2 and a.dtype != np.uint16:
            return torch.from_numpy(np.ascontiguousarray(a))
        if k == 3:
            w = np.zeros([2 * n for n in a.shape], a.dtype)
            w[::2, ::2, ::2] = a
            return w[::2, ::2, ::2]
        return a

    def value(v):
        return num(float(np.ravel(v)[0])) if v is not None else num(None)

    def planes(case):
        h, w = [n for i, n in enumerate(case["shape"]) if i != case["d"]]
        return [(np.array(p), h, w) for p in case["planes"]]

    names = list(M.SLICED)
    cases = ctx.cases["slices"]
    by = {}
    for c in cases:
        by.setdefault(tuple(c["shape"]), {})[c["d"]] = c
    jobs = [(s, n) for s in sorted(by) for n in names]
    jobs = ctx.mine(jobs)
    for shape, name in jobs:
        for _ in range(4 if ctx.thorough else 1):
            dr = rng.choice([255, 255, 1, 65535])
            if name == "MAD" and dr == 1 and rng.random() < 0.5:
                dr = 255
            r, m = volume(shape, dr, name == "MAD" and rng.random() < 0.8)
            prm = rng.choice(VAR[name])
            mt = M.make(viqa, name, data_range=dr)
            ds = [0, 1, 2]
            rng.shuffle(ds)
            for d in ds:
                if name == "VIFp" and min(n for i, n in enumerate(shape) if i != d) < 44:
                    continue
                if min(n for i, n in enumerate(shape) if i != d) < 12:
                    continue
                if name == "MAD" and not ctx.thorough and np.prod(shape) / shape[d] > 900 \
                        and shape[d] > 5:
                    continue
                sc, val = [], []
                for idx, h, w in planes(by[shape][d]):
                    a, b = r.ravel()[idx].reshape(h, w), m.ravel()[idx].reshape(h, w)
                    v = M.make(viqa, name, data_range=dr).score(a, b, **prm)
                    sc.append(value(v))
                    val.append(float(v))
                if not np.isfinite(val).all():
                    continue
                n = shape[d]
                rgb = shape[2] == 3
                assert not rgb

                def ask(dim, s, i=0, sval=None):
                    kw = dict(prm)
                    if dim != "none":
                        kw["dim"] = dim
                    if s == "int":
                        kw["im_slice"] = i
                    elif s == "bad":
                        kw["im_slice"] = sval
                    res, v = outcome(mt.score, wrap(r), wrap(m), **kw)
                    ok = isinstance(dim, int) and dim in (0, 1, 2)
                    rec = ctx.ev("vol", d=dim if ok else 9, s=s, i=i, sc=sc, res=res, v=value(v),
                                 mem=value(mt.score_val) if res == "ok" else num(None),
                                 _in={"metric": name, "shape": list(shape), "data_range": dr,
                                      "kw": {k: str(x) for k, x in kw.items()}, "outcome": res,
                                      "value": repr(v), "slices": val})
                    if res == "ok":
                        w = num(float(v) * 1.001 + 0.001)
                        ctx.neg("value", rec, v=w, mem=w)
                        ctx.neg("remembered", rec, mem=w)
                        ctx.neg("rejected", rec, res="ValueError")
                        if len(sc) > 1 and s == "none" and abs(val[0] - np.mean(val)) > 1e-3:
                            ctx.neg("first_slice", rec, v=sc[0], mem=sc[0])
                            ctx.neg("other_axis_count", rec, sc=sc[1:])
                    else:
                        ctx.neg("accepted", rec, res="ok", v=sc[0], mem=sc[0])
                ks = {0, n - 1, rng.randrange(n)}
                for i in sorted(ks):
                    ask(d, "int", i)
                ask(d, "none")
                if rng.random() < 0.5:
                    ask(d, "int", n + rng.randrange(3))
                k = rng.randrange(4)
                if k == 0:
                    ask("none", "int", 0)
                elif k == 1:
                    ask(rng.choice([3, 7, -1, "x"]), rng.choice(["int", "none"]), 0)
                elif k == 2:
                    ask(d, "bad", sval=rng.choice([1.0, 0.5, "0", [0], (0, 1)]))
                else:
                    ask("none", "none")
                # a plane with axis and slice given
                idx, h, w = planes(by[shape][d])[0]
                a, b = r.ravel()[idx].reshape(h, w), m.ravel()[idx].reshape(h, w)
                kw = rng.choice([{"dim": 1}, {"dim": 0, "im_slice": 2}, {"im_slice": 1},
                                 {"dim": 2, "im_slice": 500}, {"dim": 5}])
                res, v = outcome(mt.score, a, b, **prm, **kw)
                rec = ctx.ev("plane", res=res, v=value(v), w=sc[0],
                             _in={"metric": name, "shape": [h, w], "kw": kw, "outcome": res})
                if res == "ok":
                    ctx.neg("value", rec, v=num(float(v) * 1.001 + 0.001))
