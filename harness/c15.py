"""C15, C16: SNR and CNR of exactly the requested regions."""

import numpy as np
import torch

from harness.c05 import vec
from harness.lib import big, num, outcome

ALIAS = {"cubic": ["cubic", "cube", "square"], "spherical": ["spherical", "sphere", "circle"],
         "full": ["full", "original"], "nonsense": ["nonsense", "cubi", "", "Cubic", "ball"]}
RANGE = {"uint8": (0, 255), "uint16": (0, 65535), "int16": (-3000, 3000), "int32": (-90000, 90000),
         "uint32": (0, 2**32 - 1), "float64": (-2**20, 2**20), "float32": (-2000, 2000),
         "float16": (-500, 500)}
DEN = {"float64": 256, "float32": 8, "float16": 1}


class Driver:
    def __init__(self, ctx, cnr):
        self.ctx, self.cnr = ctx, cnr
        self.viqa, self.rng, self.npr = ctx.viqa, ctx.rng, ctx.nprng
        self.mt = None

    def new(self):
        self.mt = (self.viqa.CNR if self.cnr else self.viqa.SNR)(
            **self.rng.choice([{}, {"data_range": 255}, {"data_range": 65535}]))
        self.known = False
        self.ctx.ev("new", cut=True)

    def image(self, shape, rgb, dtype=None):
        """(array, exact integer pixels per channel): scaled by DEN, which cancels."""
        rng = self.rng
        dtype = dtype or rng.choice(list(RANGE))
        lo, hi = RANGE[dtype]
        full = [*shape, 3] if rgb else list(shape)
        kind = rng.randrange(6)
        if kind == 0:
            p = np.full(full, rng.choice([lo, hi, 0, 7]))
        elif kind == 1:
            # one deviating pixel
            p = np.full(full, rng.choice([0, 5]))
            p.flat[rng.randrange(p.size)] = rng.choice([1, 100, min(hi, 9000)])
        elif kind == 2 and dtype in ("uint8", "uint16"):
            # bright pixels, as in a saturated scan
            p = self.npr.integers(hi - 5, hi, full, dtype=np.int64, endpoint=True)
        else:
            p = self.npr.integers(lo, hi, full, dtype=np.int64, endpoint=True)
        den = DEN.get(dtype, 1)
        a = (p / den if den > 1 else p).astype(dtype)
        px = [p[..., i] for i in range(3)] if rgb else [p]
        px = [[big(x) for x in q.ravel()] for q in px]
        lay = rng.randrange(7)
        if lay == 0:
            a = np.asfortranarray(a)
        elif lay == 1:
            a = a[::-1].copy()[::-1]
        elif lay == 2:
            a = self.viqa.ImageArray(a)
        elif lay == 3 and dtype not in ("uint16", "uint32"):
            a = torch.from_numpy(np.ascontiguousarray(a))
        return a, px, dtype

    def ask(self, shape, c, r, t, b=None, rgb=False, yuv=True, give=(True, True, True),
            neg=True, dtype=None, odd=None):
        ctx, rng = self.ctx, self.rng
        a, px, dtype = self.image(shape, rgb, dtype)
        t = rng.choice(ALIAS.get(t, [t]))
        kw = {}
        c, b = list(c), list(b) if b is not None else None
        if give[0]:
            kw["signal_center"] = tuple(c)
        if give[1]:
            kw["radius"] = r
        if self.cnr and give[2]:
            kw["background_center"] = tuple(b)
        if t != "cubic" or rng.random() < 0.5:
            kw["region_type"] = t
        if rgb and (not yuv or rng.random() < 0.5):
            kw["yuv"] = yuv
        if odd:                       # replace a coordinate or the radius by a non-integer
            if odd == "radius":
                kw["radius"] = rng.choice([float(r), r + 0.5, str(r), None])
            else:
                k = odd if odd in kw else "signal_center"
                q = list(kw[k])
                i = rng.randrange(len(q))
                q[i] = rng.choice([float(q[i]), q[i] + 0.5, str(q[i]), None])
                kw[k] = tuple(q)
        elif rng.random() < 0.15 and "signal_center" in kw:
            kw["signal_center"] = list(kw["signal_center"])
        res, v = outcome(self.mt.score, a, **kw)
        if res not in ("ok", "ValueError", "TypeError"):
            pass
        v = vec(v) if res == "ok" else []
        rec = ctx.ev("cnr" if self.cnr else "snr", shape=list(shape), px=px,
                     mode="grey" if not rgb else "yuv" if yuv else "rgb",
                     gc=give[0], gr=give[1], gb=bool(self.cnr and give[2]), c=c, r=int(r),
                     b=b or [], t=t, cint=odd in (None, "radius"), rint=odd != "radius",
                     rel=1000 if dtype in ("float32", "float16") else 1000000,
                     res=res, v=v, mem=vec(self.mt.score_val) if res == "ok" else [], cut=False,
                     _in={"metric": "CNR" if self.cnr else "SNR", "shape": list(np.shape(a)),
                          "dtype": dtype, "kw": repr(kw), "outcome": res,
                          "value": repr(self.mt.score_val) if res == "ok" else None})
        if not neg:
            return res
        if res == "ok":
            f = float(np.ravel(self.mt.score_val)[0])
            if not rgb:
                ctx.neg("value", rec, v=[num(f * 1.01 + 0.01), *v[1:]],
                        mem=[num(f * 1.01 + 0.01), *v[1:]])
            ctx.neg("remembered", rec, mem=[num(f * 1.01 + 0.01), *v[1:]])
            ctx.neg("rejected", rec, res="ValueError")
        else:
            ctx.neg("accepted", rec, res="ok", v=[num(1)], mem=[num(1)])
        return res

    def centre(self, shape, r):
        return [self.rng.randint(r, n - r) for n in shape]

    def run(self):
        ctx, rng = self.ctx, self.rng
        cs = ctx.mine(ctx.cases["reg2"]) + ctx.mine(ctx.cases["reg3"])
        if not ctx.thorough:
            by = {}
            for x in cs:
                by.setdefault((len(x["shape"]), x["out"], x["t"]), []).append(x)
            n = {"taken": 26, "rejected": 10}
            cs = [x for k in sorted(by) for x in rng.sample(by[k], min(n[k[1]], len(by[k])))]
        for x in cs:
            self.new()
            ok = x["out"] == "taken"
            sh = x["shape"]
            rgb = not self.cnr and len(sh) == 2 and rng.random() < 0.3
            if len(sh) == 3 and sh[-1] == 3:
                continue
            if self.cnr:
                b = self.centre(sh, x["r"]) if 0 < 2 * x["r"] <= min(sh) else [1] * len(sh)
                if not ok and rng.random() < 0.5:
                    self.ask(sh, b, x["r"], x["t"], b=x["c"])
                else:
                    self.ask(sh, x["c"], x["r"], x["t"], b=b)
            else:
                self.ask(sh, x["c"], x["r"], x["t"], rgb=rgb, yuv=rng.random() < 0.5)
        T = ["cubic", "spherical", "full"]
        # histories with partly given regions
        for _ in range(ctx.share(60, 1500)):
            self.new()
            nd = rng.choice([2, 2, 3])
            small = [rng.randint(4, 9) for _ in range(nd)]
            if nd == 3 and small[-1] == 3:
                small[-1] = 4
            known = None
            for _ in range(rng.randint(2, 5)):
                sh = [n + rng.randint(0, 2) for n in small]
                r = rng.randint(1, min(small) // 2)
                c = self.centre(small, r)
                b = self.centre(small, r)
                if known is None:
                    give = rng.choice([(True, True, True)] * 4 + [
                        (False, False, False), (True, False, True), (False, True, False),
                        (True, True, False) if self.cnr else (False, True, True)])
                else:
                    give = rng.choice([(False, False, False)] * 3 + [(True, True, True)] * 2 + [
                        (True, False, True), (False, True, False), (False, False, True),
                        (True, False, False)])
                full = give[0] and give[1] and (give[2] or not self.cnr)
                if known is None and not full:
                    self.ask(sh, c, r, rng.choice(T), b=b, give=give)
                    continue
                if known:
                    # the mixture must be valid or the claim is about rejection only
                    c = c if give[0] else known[0]
                    r = r if give[1] else known[1]
                    b = b if give[2] else known[2]
                rgb = not self.cnr and nd == 2 and rng.random() < 0.2
                res = self.ask(sh, c, r, rng.choice(T), b=b, give=give, rgb=rgb,
                               yuv=rng.random() < 0.5)
                known = (c, r, b) if res == "ok" else None
                if res == "ok" and rng.random() < 0.35:
                    # an invalid setting is not replaced by a remembered one
                    k, g = rng.choice([("r", (False, True, False)), ("r", (True, True, True)),
                                       ("c", (True, False, False)), ("c", (True, False, True)),
                                       ("b" if self.cnr else "c", (False, False, True)
                                        if self.cnr else (True, False, False)),
                                       ("t", (False, False, False)), ("odd", (False, True, False)),
                                       ("oddc", (True, False, False))])
                    w, q, v, t, odd = c, r, b, rng.choice(T), None
                    if k == "r":
                        q = rng.choice([0, 0, -1, 400])
                    elif k == "c":
                        w = rng.choice([[0] * nd, [1] * (nd - 1), [500] * nd, [-1] * nd])
                    elif k == "b":
                        v = rng.choice([[0] * nd, [1] * (nd - 1), [500] * nd, [-1] * nd])
                    elif k == "t":
                        t = "nonsense"
                    else:
                        odd = "radius" if k == "odd" else "signal_center"
                    self.ask(sh, w, q, t, b=v, give=g, odd=odd)
                    self.new()
                    known = None
                if res != "ok":
                    self.new()
        # invalid requests
        for _ in range(ctx.share(60, 600)):
            self.new()
            nd = rng.choice([2, 3])
            sh = [rng.randint(4, 7) for _ in range(nd)]
            r = rng.randint(1, 2)
            c, b = self.centre(sh, r), self.centre(sh, r)
            k = rng.randrange(6)
            t = rng.choice(T)
            if k == 0:
                self.ask(sh, c, r, t, b=b, odd="radius")
            elif k == 1:
                self.ask(sh, c, r, t, b=b, odd=rng.choice(["signal_center", "background_center"])
                         if self.cnr else "signal_center")
            elif k == 2:
                self.ask(sh, c, rng.choice([0, -1, -2]), t, b=b)
            elif k == 3:
                self.ask(sh, c, r, "nonsense", b=b)
            elif k == 4:
                # wrong number of coordinates
                w = rng.choice([c[:-1], [*c, c[0]]])
                if self.cnr and rng.random() < 0.5:
                    self.ask(sh, c, r, t, b=w)
                else:
                    self.ask(sh, w, r, t, b=b)
            else:
                # leaving the image on one side
                i = rng.randrange(nd)
                w = list(c)
                w[i] = rng.choice([r - 1, sh[i] - r + 1, sh[i], sh[i] + 50, -1, -r, -sh[i] + r, -50])
                if self.cnr and rng.random() < 0.5:
                    self.ask(sh, c, r, t, b=w)
                else:
                    self.ask(sh, w, r, t, b=b)
        # larger images
        for _ in range(ctx.share(18, 300)):
            self.new()
            nd = rng.choice([2, 3])
            sh = [rng.randint(10, 17) for _ in range(2)] if nd == 2 else \
                [rng.randint(6, 9) for _ in range(3)]
            r = rng.randint(1, min(sh) // 2)
            self.ask(sh, self.centre(sh, r), r, rng.choice(T), b=self.centre(sh, r),
                     rgb=not self.cnr and nd == 2 and rng.random() < 0.4, yuv=rng.random() < 0.5)


def run(ctx):
    Driver(ctx, False).run()
