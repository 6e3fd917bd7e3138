"""C25: modified images of another size are brought to the size of the reference."""

import contextlib
import io
import os

import numpy as np
import skimage.io
import skimage.transform

from harness.lib import outcome

INT = ["uint8", "uint16", "int32", "int16"]
FLT = ["float64", "float32"]


def spies(viqa, log):
    """Metrics of a user that keep what they are given."""

    class Pair(viqa.RMSE):
        def score(self, img_r, img_m, **kw):
            log.append(("pair", np.array(img_r), np.array(img_m)))
            self.score_val = 1.0
            return 1.0

    class Single(viqa.SNR):
        def score(self, img, **kw):
            log.append(("one", np.array(img)))
            self.score_val = 1.0
            return 1.0

    return Pair, Single


def flat(a, integer):
    a = np.asarray(a)
    return [int(v) for v in (a.ravel() if integer else np.rint(a.ravel().astype(float) * 1000))]


class Runs:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.n = 0

    def one(self, ishape, rshape, off, ext, way=None, order="rnd"):
        ctx, rng, viqa = self.ctx, self.rng, self.ctx.viqa
        nd = len(rshape)
        if nd == 3 and 3 in (ishape[-1], rshape[-1], ext[-1]):
            return
        way = way or rng.choice(["multi", "multi", "batch", "batch2"])
        files = way != "multi"
        integer = files or rng.random() < 0.6
        dtr = rng.choice(["uint8"] if files and nd == 2 else ["uint8", "uint16"] if files else
                         INT if integer else FLT)
        dtm = dtr
        if ishape != rshape and not files and rng.random() < 0.3:
            dtm = rng.choice(INT if integer else FLT + INT)
        if ishape != rshape and files and nd == 3 and rng.random() < 0.3:
            dtm = rng.choice(["uint8", "uint16"])
        r = ctx.nprng.integers(0, 250, rshape).astype(dtr)
        base = ctx.nprng.integers(0, 250, ishape)
        if rng.random() < 0.2:
            base[...] = rng.choice([0, 249, 100])
        m = base.astype(dtm)
        if order == "rnd":
            order = rng.choice([None, 0, 1, 1, 2, 3, 4, 5])
        kw = {} if order is None else {"scaling_order": order}
        o = 1 if order is None else order
        lib = skimage.transform.resize(m, rshape, preserve_range=True, order=o).astype(dtr) \
            if list(ishape) != list(rshape) else m
        roi = None
        if list(off) != [0] * nd or list(ext) != list(rshape):
            roi = [(p, p + e) for p, e in zip(off, ext)]
        log = []
        Pair, Single = spies(viqa, log)
        ms = [Pair(), Single()] if rng.random() < 0.5 else [Single(), Pair(), Pair()]
        ps = [{} for _ in ms]
        r0, m0 = r.copy(), m.copy()
        if way == "multi":
            if roi is not None:
                kw["roi"] = roi
            rr, mm = r, m
            if rng.random() < 0.3:
                rr, mm = viqa.ImageArray(r), viqa.ImageArray(m)
            if rng.random() < 0.2:
                rr, mm = np.asfortranarray(rr), np.asfortranarray(mm)
            f = lambda: viqa.MultipleMetrics(ms, ps).calculate(rr, mm, **kw)     # noqa: E731
        else:
            d = ctx.tmp("b")
            self.n += 1
            names = []
            for t, q in (("r", r), ("m", m)):
                if nd == 2:
                    n = f"{t}{self.n}.png"
                    skimage.io.imsave(os.path.join(d, n), q, check_contrast=False)
                else:
                    bits = 8 * q.dtype.itemsize
                    n = f"{t}{self.n}_" + "x".join(map(str, q.shape)) + f"_{bits}bit.raw"
                    q.ravel(order="F").tofile(os.path.join(d, n))
                names.append(n)
            rois = None
            with open(os.path.join(d, "p.csv"), "w") as g:
                g.write("reference_image,modified_image\n")
                if way == "batch2":            # the pair comes after another one
                    g.write(f"{names[0]},{names[0]}\n")
                g.write(",".join(names) + "\n")
            full = [(0, q) for q in rshape]
            if roi is not None:
                if rng.random() < 0.5:
                    kw["roi"] = roi
                else:
                    rois = [full, roi] if way == "batch2" else [roi]
            f = lambda: viqa.BatchMetrics(d, os.path.join(d, "p.csv"), ms, ps, rois=rois).calculate(**kw)  # noqa: E731
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            res, _ = outcome(f)
        if files:
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
        rec = {"k": "run", "res": res, "is": list(ishape), "rs": list(rshape), "off": list(off),
               "ext": list(ext), "order": o, "int": bool(integer), "dtr": dtr,
               "ref": flat(r0, integer), "img": flat(m0, integer), "raw": [int(v) for v in base.ravel()],
               "lib": flat(lib, integer),
               "_in": {"way": way, "reference": list(rshape), "modified": list(ishape), "types": [dtr, dtm],
                       "kw": repr(kw), "roi": repr(roi)}}
        if res != "ok":
            ctx.ev(**rec, r={}, m={})
            return
        pairs = [x for x in log if x[0] == "pair"]
        ones = [x for x in log if x[0] == "one"]
        got = [(x[1], x[2]) for x in pairs[-sum(isinstance(q, Pair) for q in ms):]]
        if len(ones) >= 2:
            got.append((ones[-2][1] if way != "batch2" else None, ones[-1][1]))
        done = set()
        for gr, gm in got:
            if gr is None:
                gr = got[0][0]
            key = (gr.tobytes(), gm.tobytes(), str(gm.dtype), gm.shape, gr.shape)
            if key in done:
                continue
            done.add(key)
            e = {**rec, "r": {"shape": list(gr.shape), "px": flat(gr, integer), "dt": str(gr.dtype)},
                 "m": {"shape": list(gm.shape), "px": flat(gm, integer), "dt": str(gm.dtype)}}
            w = rng.choice(["px", "ref", "shape", "dt"])
            if w == "px":
                px = list(e["m"]["px"])
                px[rng.randrange(len(px))] += 3 if integer else 3000
                ctx.neg("px", e, m={**e["m"], "px": px})
            elif w == "ref":
                px = list(e["r"]["px"])
                px[rng.randrange(len(px))] += 1
                ctx.neg("ref", e, r={**e["r"], "px": px})
            elif w == "shape":
                ctx.neg("shape", e, m={**e["m"], "shape": [*e["m"]["shape"][:-1], e["m"]["shape"][-1] + 1]})
            else:
                ctx.neg("dt", e, m={**e["m"], "dt": "float16"})
            ctx.ev(**e)


def run(ctx):
    w, rng = Runs(ctx), ctx.rng
    cs = ctx.mine(ctx.cases["sizes"])
    for x in cs if ctx.thorough else rng.sample(cs, min(len(cs), 60)):
        for nd in ((2,) if not ctx.thorough else (2, 3)):
            # the case on one axis, another one on the other axes
            axes = [rng.choice(cs) for _ in range(nd)]
            axes[rng.randrange(nd)] = x
            if nd == 3:
                axes = [a if a["n"] < 6 else rng.choice([q for q in cs if q["n"] < 6]) for a in axes]
            w.one([a["n"] for a in axes], [a["m"] for a in axes], [a["off"] for a in axes],
                  [a["ext"] for a in axes])
    for _ in range(ctx.share(240, 5000)):
        nd = rng.choice([2, 2, 3])
        top = 6 if nd == 3 else 8
        rs = [rng.randint(2, top) for _ in range(nd)]
        k = rng.randrange(4)
        if k == 0:
            is_ = list(rs)
        elif k == 1:
            is_ = [rng.randint(1, n) for n in rs]              # enlarged
        elif k == 2:
            is_ = [min(9, rng.randint(n, n + 4)) for n in rs]         # made smaller
        else:
            is_ = [rng.randint(2, top) for n in rs]
        off = [rng.randrange(n) if rng.random() < 0.3 else 0 for n in rs]
        ext = [rng.randint(1, n - o) if rng.random() < 0.3 else n - o for n, o in zip(rs, off)]
        w.one(is_, rs, off, ext)
