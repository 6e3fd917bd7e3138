"""C17: automatic region detection."""

import numpy as np

from harness.c05 import vec
from harness.lib import flat, num, outcome

TYPES = ["cubic", "cube", "square", "spherical", "sphere", "circle", "full", "original", "cleaned"]


def pixels(mask):
    return [int(x) for x in np.flatnonzero(np.asarray(mask).ravel(order="C"))]


def exact_rank(n, q):
    """The percentile rank is computed without rounding trouble at integer ranks."""
    i = q * (n - 1)
    v = q / 100 * (n - 1)
    return i % 100 or v == i // 100


class Driver:
    def __init__(self, ctx):
        self.ctx, self.viqa, self.rng, self.npr = ctx, ctx.viqa, ctx.rng, ctx.nprng
        from viqa.utils import find_largest_region
        self.flr = find_largest_region
        import viqa.utils.misc as misc
        self.binary = getattr(misc, "_get_binary", None)

    def find(self, shape, b, it, isbool=True, t=None, default=False):
        ctx, rng = self.ctx, self.rng
        t = t or rng.choice(TYPES)
        a = np.zeros(int(np.prod(shape)), bool)
        a[list(b)] = True
        a = a.reshape(shape)
        if not isbool:
            a = a.astype(rng.choice(["uint8", "float64", "int32"]))
        lay = rng.randrange(4)
        if lay == 0:
            a = np.asfortranarray(a)
        elif lay == 1:
            a = a[::-1].copy()[::-1]
        elif lay == 2 and isbool:
            w = np.zeros([2 * n for n in shape], bool)
            w[tuple(slice(None, None, 2) for _ in shape)] = a
            a = w[tuple(slice(None, None, 2) for _ in shape)]
        kw = {} if default else {"iterations": it}
        if t != "cubic" or rng.random() < 0.5:
            kw["region_type"] = t
        before = a.copy()
        res, v = outcome(self.flr, a, **kw)
        c, r, reg = [], 0, []
        if res == "ok":
            c, r, m = v
            if t in ("cubic", "cube", "square", "spherical", "sphere", "circle"):
                reg = pixels(~np.ma.getmaskarray(m))
            else:
                reg = pixels(np.ma.filled(m, False))
            c, r = [int(x) for x in c], int(r)
        rec = ctx.ev("find", shape=list(shape), b=sorted(b), isbool=isbool, it=it, t=t, res=res,
                     c=c, r=r, reg=reg, same=bool(np.array_equal(before, a)),
                     _in={"shape": list(shape), "binary": before.astype(int).tolist(), "kw": kw,
                          "outcome": res, "center": c, "radius": r})
        if res == "ok":
            ctx.neg("radius", rec, r=r + 1)
            ctx.neg("region", rec, reg=reg[1:] if reg else [0])
            if r:
                ctx.neg("centre", rec, c=[0] * len(c))
            ctx.neg("changed", rec, same=False)
            ctx.neg("rejected", rec, res="ValueError")
        else:
            ctx.neg("accepted", rec, res="ok")

    def blob(self, shape, dtype):
        """A compact bright block and the percentile that separates it."""
        rng, npr = self.rng, self.npr
        n = int(np.prod(shape))
        hi = {"uint8": 255, "uint16": 65535, "int16": 3000, "float64": 4000, "float32": 4000}[dtype]
        p = npr.permutation(n).reshape(shape) % (hi // 3)
        w = [rng.choice([4, 5, 5, 6]) for _ in shape]
        o = [rng.randint(0, max(0, m - x)) for m, x in zip(shape, w)]
        s = tuple(slice(a, a + x) for a, x in zip(o, w))
        p[s] = p[s] + hi // 2
        k = p[s].size
        for lo in range(max(0, 99 - k * 100 // n), -1, -1):
            if exact_rank(n, lo):
                break
        return p.astype(np.int64), lo

    def image(self, shape, dtype, ties=False):
        """Bright block(s) in a dark, slightly structured surrounding."""
        rng, npr = self.rng, self.npr
        n = int(np.prod(shape))
        hi = {"uint8": 255, "uint16": 65535, "int16": 3000, "float64": 4000, "float32": 4000}[dtype]
        if ties:
            p = npr.integers(0, rng.choice([2, 4, 9]), shape)
        else:
            p = npr.permutation(n).reshape(shape) % (hi // 3)
        for _ in range(rng.randint(1, 2)):
            s = []
            for m in shape:
                w = rng.randint(max(2, m // 3), max(2, m - 1))
                o = rng.randint(0, m - w)
                s.append(slice(o, o + w))
            p[tuple(s)] = p[tuple(s)] // 2 + hi // 2
        if dtype in ("int16", "float64", "float32") and rng.random() < 0.5:
            p = p - hi // 4
        return p.astype(np.int64)

    def quant(self, n):
        while True:
            lo = self.rng.choice([0, 5, 10, 25, 50, 60, 75, 80, 90, 33, 67])
            up = self.rng.choice([99, 95, 100, 90, 75, 97])
            if lo < up and exact_rank(n, lo) and exact_rank(n, up):
                return lo, up

    def mark(self, shape, dtype):
        p = self.image(shape, dtype, self.rng.random() < 0.5)
        lo, up = self.quant(p.size)
        res, b = outcome(self.binary, p.astype(dtype), lo, up)
        if res != "ok":
            raise RuntimeError("threshold failed: " + res)
        b = pixels(b)
        rec = self.ctx.ev("mark", px=flat(p), lo=lo, up=up, b=b,
                          _in={"px": p.tolist(), "dtype": dtype, "lower": lo, "upper": up})
        self.ctx.neg("pixel", rec, b=b[1:] if b else [0])

    def snr(self, shape, dtype, rgb=False):
        ctx, rng = self.ctx, self.rng
        p, lo = self.blob(shape, dtype)
        n = p.size
        kw = {"auto_center": True}
        if rng.random() < 0.6:
            up = rng.choice([x for x in (100, 99, 98, 97) if exact_rank(n, x)])
            kw.update(lower_threshold=lo, upper_threshold=up)
        else:
            p = self.image(shape, dtype, rng.random() < 0.3)
            lo, up = 90, 99
        if len(kw) > 1:
            pass
        elif not (exact_rank(n, 90) and exact_rank(n, 99)) or rng.random() < 0.75:
            lo, up = self.quant(n)
            kw.update(lower_threshold=lo, upper_threshold=up)
        it = 5
        if rng.random() < 0.7:
            it = rng.choice([1, 1, 2, 3])
            kw["iterations"] = it
        t = rng.choice(TYPES[:-1]) if rng.random() < 0.9 else "cleaned"
        if t != "cubic" or rng.random() < 0.5:
            kw["region_type"] = t
        c = tuple(rng.choice([0, 1, 2, 500, -3]) for _ in shape)
        r = rng.choice([1, 2, 900, 0])
        ch = []
        a = p.astype(dtype)
        if rgb:
            # three equal channels: the luminance is the same up to rounding, which cannot
            # change an order of distinct integers
            a = np.stack([a, a, a], -1)
            ch = [flat(p)] * 3
            kw["yuv"] = False
        elif rng.random() < 0.2:
            a = self.viqa.ImageArray(a)
        mt = self.viqa.SNR()
        if rng.random() < 0.3:
            mt.parameters.update({"signal_center": (1, 1), "radius": 1})
        res, v = outcome(mt.score, a, signal_center=c, radius=r, **kw)
        vv = vec(v) if res == "ok" else []
        rec = ctx.ev("snr", shape=list(shape), px=flat(p), lo=lo, up=up, it=it, t=t,
                     mode="rgb" if rgb else "grey", ch=ch, res=res, v=vv,
                     mem=vec(mt.score_val) if res == "ok" else [],
                     _in={"metric": "SNR", "img": p.tolist(), "dtype": dtype, "rgb": rgb,
                          "center": c, "radius": r, "kw": kw, "outcome": res, "value": repr(v)})
        if res == "ok" and np.isfinite(np.ravel(v)).all() and np.ravel(v).all():
            f = np.ravel(v)
            w = [num(float(x) * 1.01 + 0.01) for x in f]
            ctx.neg("value", rec, v=w, mem=w)
            ctx.neg("remembered", rec, mem=w)

    def cnr(self, shape, dtype):
        ctx, rng = self.ctx, self.rng
        k = rng.random()
        if k < 0.25:
            # a wide block in narrow strips: most of the dark pixels have the smallest value
            # of all and are not background
            shape = [rng.randint(19, 21), rng.randint(19, 21)]
            while not exact_rank(shape[0] * shape[1], 90):
                shape[1] += 1
            n = shape[0] * shape[1]
            k = n - 1 - 90 * (n - 1) // 100
            p = self.npr.permutation(n).reshape(shape) % 70 + 5
            w, g = rng.choice([3, 4, 4]), 3
            o = rng.randrange(w + g)
            for y in range(shape[1]):
                if (y + o) % (w + g) >= w:
                    p[:, y] = 0
            o = [rng.randint(0, m - 8) for m in shape]
            p[max(0, o[0] - 3):o[0] + 9, max(0, o[1] - 3):o[1] + 9] = 0
            for i in range(k):
                x, y = o[0] + i // 6, o[1] + i % 6
                if x < shape[0]:
                    p[x, y] = 120 + rng.randrange(80)
            p = p.astype(np.int64)
            if rng.random() < 0.5:
                p, shape = np.ascontiguousarray(p.T), shape[::-1]
        elif k < 0.75:
            # a block that makes up the top tenth
            shape = [rng.randint(12, 17), rng.randint(12, 17)]
            while not exact_rank(shape[0] * shape[1], 90):
                shape[1] += 1
            n = shape[0] * shape[1]
            k = n - 1 - 90 * (n - 1) // 100
            p = self.npr.permutation(n).reshape(shape) % 80
            w = int(np.sqrt(k))
            o = [rng.randint(0, m - w - 2) for m in shape]
            q = [(o[0] + i // w, o[1] + i % w) for i in range(k)]
            for x, y in q[:n]:
                if x < shape[0]:
                    p[x, y] += 120
            p = p.astype(np.int64)
        else:
            p = self.image(shape, dtype, rng.random() < 0.3)
        if not exact_rank(p.size, 90):
            return
        kw = {"auto_center": True}
        it = 5
        if rng.random() < 0.9:
            it = rng.choice([1, 1, 1, 2])
            kw["iterations"] = it
        t = rng.choice(TYPES)
        if t != "cubic" or rng.random() < 0.5:
            kw["region_type"] = t
        cs = [tuple(rng.choice([0, 1, 2, 500, -3]) for _ in shape) for _ in range(2)]
        r = rng.choice([1, 2, 900, 0])
        mt = self.viqa.CNR()
        res, v = outcome(mt.score, p.astype(dtype), signal_center=cs[0], background_center=cs[1],
                         radius=r, **kw)
        vv = vec(v) if res == "ok" else []
        rec = ctx.ev("cnr", shape=list(shape), px=flat(p), it=it, t=t, res=res, v=vv,
                     mem=vec(mt.score_val) if res == "ok" else [],
                     _in={"metric": "CNR", "img": p.tolist(), "dtype": dtype, "centers": cs,
                          "radius": r, "kw": kw, "outcome": res, "value": repr(v)})
        if res == "ok" and np.isfinite(float(v)) and v != 0:
            w = [num(float(v) * 1.01 + 0.01)]
            ctx.neg("value", rec, v=w, mem=w)
            ctx.neg("remembered", rec, mem=w)

    def run(self):
        ctx, rng, npr = self.ctx, self.rng, self.npr
        cs = ctx.mine(ctx.cases["bin"])
        if not ctx.thorough:
            full = [x for x in cs if not x["empty"]]
            rest = [x for x in cs if x["empty"]]
            cs = rng.sample(full, min(45, len(full))) + rng.sample(rest, min(6, len(rest)))
        for x in cs:
            self.find(x["shape"], x["b"], x["it"])
        for _ in range(ctx.share(120, 2500)):
            nd = rng.choice([2, 2, 3])
            sh = [rng.randint(5, 14) for _ in range(2)] if nd == 2 else \
                [rng.randint(4, 7), rng.randint(4, 7), rng.randint(4, 7)]
            # a union of blobs with some salt and pepper
            a = np.zeros(sh, bool)
            for _ in range(rng.randint(1, 3)):
                s = tuple(slice(o, o + rng.randint(2, 8)) for o in
                          [rng.randint(0, m - 2) for m in sh])
                a[s] = True
            if rng.random() < 0.5:
                a ^= npr.random(sh) < 0.08
            if rng.random() < 0.04:
                a[...] = rng.random() < 0.5
            default = rng.random() < 0.1
            self.find(sh, pixels(a), 5 if default else rng.choice([1, 1, 2, 3]), default=default,
                      isbool=rng.random() > 0.04)
        D = ["uint8", "uint16", "int16", "float64", "float32"]

        def shape():
            return [rng.randint(7, 13), rng.randint(7, 13)] if rng.random() < 0.75 else \
                [rng.randint(5, 7), rng.randint(5, 7), rng.choice([5, 6, 7])]
        if self.binary:
            for _ in range(ctx.share(40, 800)):
                self.mark(shape(), rng.choice(D))
        for _ in range(ctx.share(90, 1500)):
            s = shape()
            self.snr(s, rng.choice(D), rgb=len(s) == 2 and rng.random() < 0.25)
        for _ in range(ctx.share(50, 1000)):
            self.cnr(shape(), rng.choice(D))


def run(ctx):
    Driver(ctx).run()
