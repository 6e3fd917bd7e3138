"""C23: interactive selection of regions, and the views that mark them."""

import builtins
import contextlib
import io
import os

import numpy as np

from harness.lib import big, num, outcome

builtins.__IPYTHON__ = True          # the selection is offered in notebooks only
os.environ["JUPYTER_PLATFORM_DIRS"] = "1"

KEYS = ("signal_center", "radius", "region_type", "auto_center", "iterations",
        "lower_threshold", "upper_threshold")


def views(fig, shape):
    """For every axes: the pixels it shows and the pixels inside its mark."""
    out = []
    for ax in fig.axes:
        if not ax.images:
            continue
        a = np.rint(np.asarray(ax.images[0].get_array(), dtype=float)).astype(int)
        y, x = np.mgrid[: a.shape[0], : a.shape[1]]
        inside = np.zeros(a.shape, bool)
        for p in ax.patches:
            name = type(p).__name__
            if name == "Rectangle":
                x0, y0 = p.get_xy()
                x1, y1 = x0 + p.get_width(), y0 + p.get_height()
                # a pixel belongs to the mark if its middle does, wherever in the
                # pixel the drawing puts its coordinates
                inside |= (x0 <= x + .25) & (x + .25 < x1) & (y0 <= y + .25) & (y + .25 < y1)
            elif name in ("Circle", "Ellipse"):
                cx, cy = p.get_center()
                r = p.get_width() / 2
                inside |= (x - cx) ** 2 + (y - cy) ** 2 <= r * r + 0.3
        out.append({"cells": sorted(int(v) for v in a.ravel()),
                    "px": sorted(int(v) for v in a[inside])})
    return out


class World:
    def __init__(self, ctx):
        import ipywidgets
        import matplotlib.pyplot as plt

        self.ctx, self.rng, self.W, self.plt = ctx, ctx.rng, ipywidgets, plt
        plt.rcParams["figure.max_open_warning"] = 0
        for m in ("snr", "cnr"):
            with contextlib.suppress(Exception):
                mod = __import__("viqa.nr_metrics." + m, fromlist=["x"])
                mod.display = lambda *a, **k: None
        self.inst = ipywidgets.widgets.widget._instances

    def start(self, kinds):
        self.W.Widget.close_all()
        self.plt.close("all")
        self.kinds = kinds
        self.mets = [self.ctx.viqa.SNR() if k == "snr" else self.ctx.viqa.CNR() for k in kinds]
        self.dlg, self.own, self.img = [], [], []
        self.ctx.ev("new", cut=True, mets=kinds)

    def ramp(self, shape, rgb=False):
        n = int(np.prod(shape))
        a = np.arange(n).reshape(shape)
        a = a.astype(self.rng.choice(["float64", "int32"] + (["uint8"] if n <= 255 else [])))
        if rgb:
            a = np.repeat(a[..., None], 3, axis=-1).astype("float64")
        return a

    def mem(self):
        out = []
        for m in self.mets:
            p = m.parameters
            i = lambda k: -1 if p.get(k) is None else int(p[k])       # noqa: E731
            c = lambda k: [] if p.get(k) is None else [int(v) for v in p[k]]   # noqa: E731
            out.append({"sc": c("signal_center"), "bc": c("background_center"), "r": i("radius"),
                        "t": p.get("region_type") or "", "auto": bool(p.get("auto_center")),
                        "it": i("iterations"), "lo": i("lower_threshold"),
                        "hi": i("upper_threshold")})
        return out

    def state(self):
        sh, li = [], []
        for d in self.dlg:
            sc = [d[f"{x} Coordinate (Signal)"] for x in "XYZ" if f"{x} Coordinate (Signal)" in d]
            bc = [d[f"{x} Coordinate (Background)"] for x in "XYZ"
                  if f"{x} Coordinate (Background)" in d]
            g = lambda k: int(d[k].value) if k in d else -1           # noqa: E731
            sh.append({"sc": [s.value for s in sc], "bc": [s.value for s in bc], "r": g("Radius"),
                       "t": d["Region Type:"].value if "Region Type:" in d else "cubic",
                       "it": g("Iterations"), "lo": g("Lower Threshold"),
                       "hi": g("Upper Threshold")})
            li.append({"r": [d["Radius"].min, d["Radius"].max],
                       "c": [[s.min, s.max] for s in sc + bc]})
        return {"mems": self.mem(), "shown": sh, "lims": li}

    def figure(self, before, shape):
        new = [n for n in self.plt.get_fignums() if n not in before]
        v = views(self.plt.figure(max(new)), shape) if new else []
        return v

    def open(self, m, shape, rgb=False, ints=True, odd=None, **given):
        rng, ctx = self.rng, self.ctx
        img = self.ramp(shape, rgb)
        self.plt.close("all")
        seen = set(self.inst)
        kw = dict(given)
        if odd:
            kw.update(odd)
        with contextlib.redirect_stdout(io.StringIO()):
            res, _ = outcome(self.mets[m].set_centers, img, **kw)
        new = [self.inst[k] for k in list(self.inst) if k not in seen]
        d = {}
        for w in new:
            ch = getattr(w, "children", ())
            if len(ch) == 2 and isinstance(ch[0], self.W.Label):
                d[ch[0].value] = ch[1]
            elif getattr(w, "description", ""):
                d[w.description] = w
        if res == "ok":
            self.dlg.append(d)
            self.own.append(m)
            self.img.append(img)
        g = {"sc": list(given.get("signal_center", ())), "bc": list(given.get("background_center", ())),
             "r": given.get("radius", -1), "t": given.get("region_type", ""), "auto": False,
             "it": given.get("iterations", -1), "lo": given.get("lower_threshold", -1),
             "hi": given.get("upper_threshold", -1)}
        rec = {"k": "open", "m": m + 1, "kind": self.kinds[m], "shape": list(shape), "given": g,
               "ints": ints, "res": res, **self.state(), "views": self.figure(set(), shape) if res == "ok" else [],
               "_in": {"metric": self.kinds[m], "shape": list(img.shape), "given": repr(kw)}}
        self.negs(rec, len(self.dlg) - 1, "open" if res == "ok" else "reject")
        ctx.ev(**rec)
        return res == "ok"

    def negs(self, rec, di, what):
        ctx, rng = self.ctx, self.rng
        if what == "reject":
            ctx.neg("accept", rec, res="ok")
            return
        w = self.rng.choice(["shown", "mems", "lims", "views", "other"])
        import copy
        c = copy.deepcopy(rec)
        if w == "shown":
            c["shown"][di]["sc"][0] += rng.choice([-1, 1])
        elif w == "mems":
            c["mems"][rng.randrange(len(c["mems"]))]["r"] += 1
        elif w == "lims":
            c["lims"][di]["c"][-1][1] += 1
        elif w == "views" and c["views"] and c["views"][0]["px"]:
            c["views"][0]["px"].pop()
        elif w == "views" and c["views"]:
            c["views"][-1]["cells"].pop()
        else:
            c["mems"][-1]["t"] = "cubicc"
        ctx.neg(what + "." + w, c, limit=3)

    def do(self, di, what, a=1, v=0, t="", must=True):
        d, ctx = self.dlg[di], self.ctx
        shape = self.img[di].shape[:2] if self.img[di].shape[-1] == 3 else self.img[di].shape
        self.plt.close("all")
        name = {"r": "Radius", "it": "Iterations", "lo": "Lower Threshold",
                "hi": "Upper Threshold", "t": "Region Type:", "calc": "Calculate Full Region",
                "save": "Save Current Values"}.get(what)
        if what in ("sc", "bc"):
            name = "XYZ"[a - 1] + " Coordinate (" + {"sc": "Signal", "bc": "Background"}[what] + ")"
        w = d[name]
        with contextlib.redirect_stdout(io.StringIO()):
            if what in ("calc", "save"):
                w.click()
            else:
                w.value = t if what == "t" else v
        rec = {"k": "do", "d": di + 1, "m": self.own[di] + 1, "what": what, "a": a, "v": v, "t": t,
               **self.state(), "views": self.figure(set(), shape),
               "_in": {"control": name, "value": t or v, "shape": list(shape)}}
        self.negs(rec, di, what)
        ctx.ev(**rec)

    def told(self, m, shape, bc=None):
        """A score with an explicit region is remembered as well."""
        rng = self.rng
        r = rng.randint(1, min(shape) // 2)
        kw = {"signal_center": tuple(rng.randint(r, n - r) for n in shape), "radius": r}
        if self.kinds[m] == "cnr":
            kw["background_center"] = tuple(rng.randint(r, n - r) for n in shape)
        elif rng.random() < 0.5:
            kw["region_type"] = rng.choice(["cubic", "spherical"])
        res, _ = outcome(self.mets[m].score, self.ramp(shape), **kw)
        if res != "ok":
            raise AssertionError("a valid region was rejected: " + repr((kw, shape)))
        self.ctx.ev("told", m=m + 1, sc=list(kw["signal_center"]), r=r,
                    bc=list(kw.get("background_center", ())), t=kw.get("region_type", ""))

    def score(self, di):
        """Score another image with what was saved last."""
        ctx, rng = self.ctx, self.rng
        m = self.own[di]
        mt = self.mets[m]
        shape = self.img[di].shape[:2] if self.img[di].shape[-1] == 3 else self.img[di].shape
        p = ctx.nprng.integers(0, 200, shape, dtype=np.int64)
        img = p.astype(rng.choice(["float64", "uint8", "int32"]))
        kw, rt = {}, mt.parameters.get("region_type")
        keep = dict(mt.parameters)
        if self.kinds[m] == "snr":
            if rt == "full":
                return
            if rt != "cubic" or rng.random() < 0.5:
                kw = {k: mt.parameters[k] for k in KEYS}
        res, v = outcome(mt.score, img, **kw)
        mt.parameters.clear()
        mt.parameters.update(keep)
        if res != "ok":
            v = None
        rec = {"k": "score", "m": m + 1, "kind": self.kinds[m], "shape": list(shape),
               "px": [big(x) for x in p.ravel()], "v": num(v),
               "_in": {"metric": self.kinds[m], "saved": repr(keep), "outcome": res}}
        if v is not None:
            ctx.neg("score", rec, v=num(float(v) * 1.02 + 0.02))
        ctx.ev(**rec)

    def overlay(self, di):
        """After a calculation: the region that is shown is scored (2D)."""
        ctx, rng = self.ctx, self.rng
        img = self.img[di]
        if img.ndim != 2 or self.dlg[di]["Region Type:"].value != "full":
            return
        # redraw
        self.plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()):
            self.dlg[di]["Region Type:"].value = "original"
            self.plt.close("all")
            self.dlg[di]["Region Type:"].value = "full"
        nums = self.plt.get_fignums()
        if not nums:
            return
        ax = [a for a in self.plt.figure(max(nums)).axes if a.images][0]
        if len(ax.images) < 2:
            return
        o = ax.images[1].get_array()
        px = np.ma.compressed(np.ma.masked_array(o))
        if px.size == 0:
            return
        mt = self.mets[self.own[di]]
        keep = dict(mt.parameters)
        kw = {k: mt.parameters.get(k) for k in KEYS}
        res, v = outcome(mt.score, img, **kw)
        mt.parameters.clear()
        mt.parameters.update(keep)
        rec = {"k": "overlay", "px": [big(round(float(x))) for x in px],
               "v": num(v if res == "ok" else None),
               "_in": {"shape": list(img.shape), "kw": repr(kw), "outcome": res}}
        if res == "ok":
            ctx.neg("overlay", rec, v=num(float(v) * 1.02 + 0.02))
        ctx.ev(**rec)

    def view(self, kind):
        """The view of a metric outside a notebook selection."""
        ctx, rng = self.ctx, self.rng
        nd = rng.choice([2, 2, 3])
        shape = [rng.randint(4, 9) for _ in range(nd)]
        if nd == 3 and shape[-1] == 3:
            shape[-1] = 5
        rgb = nd == 2 and rng.random() < 0.25
        r = rng.randint(1, min(shape) // 2)
        c = tuple(rng.randint(r, n - r) for n in shape)
        b = tuple(rng.randint(r, n - r) for n in shape)
        t = rng.choice(["cubic", "cube", "square", "spherical", "sphere", "circle"]
                       + (["original"] if kind == "snr" else []))
        img = self.ramp(shape, rgb)
        mt = ctx.viqa.SNR() if kind == "snr" else ctx.viqa.CNR()
        kw = {"signal_center": c, "radius": r}
        if kind == "cnr":
            kw["background_center"] = b
        if t == "original":
            kw.pop("signal_center")
            kw.pop("radius")
            c = tuple(n // 2 for n in shape)
        if rng.random() < 0.3 and t != "original":
            mt.parameters.update(kw)
            kw = {}
        if kind == "cnr" and t == "cubic" and rng.random() < 0.5:
            pass
        else:
            kw["region_type"] = t
        path = None
        if rng.random() < 0.1:
            path = os.path.join(ctx.tmp("views"), "v.png")
            kw["export_path"] = path
            kw["dpi"] = 30
        self.plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()):
            res, _ = outcome(mt.visualize_centers, img, **kw)
        v = self.figure(set(), shape) if res == "ok" else []
        if path and not (os.path.exists(path) and os.path.getsize(path) > 100):
            v = []                  # nothing was exported
        if path and os.path.exists(path):
            os.unlink(path)
        rec = {"k": "view", "kind": kind, "shape": shape, "t": t, "sc": list(c), "r": r,
               "bc": list(b) if kind == "cnr" else [], "views": v, "cut": True,
               "_in": {"metric": kind, "shape": list(img.shape), "kw": repr(kw), "outcome": res}}
        if v and t != "original":
            bad = [dict(x) for x in v]
            i = rng.randrange(len(bad))
            if rng.random() < 0.5:
                bad[i]["px"] = bad[i]["px"][1:]
            else:
                bad[i]["px"] = sorted({*bad[i]["px"], bad[i]["cells"][0], bad[i]["cells"][-1]})
                if bad[i]["px"] == v[i]["px"]:
                    bad[i]["px"] = bad[i]["px"][:-1]
            ctx.neg("view." + kind, rec, views=bad)
        ctx.ev(**rec)


def given(rng, kind, shape):
    r = rng.randint(1, min(shape) // 2)
    g = {}
    if rng.random() < 0.6:
        g["radius"] = r
    r = g.get("radius", 1)
    if rng.random() < 0.6 or "radius" in g:
        g["signal_center"] = tuple(rng.randint(r, n - r) for n in shape)
        if kind == "cnr":
            g["background_center"] = tuple(rng.randint(r, n - r) for n in shape)
    if kind == "snr":
        if rng.random() < 0.4:
            g["region_type"] = rng.choice(["cubic", "spherical", "full", "original"])
        if rng.random() < 0.3:
            g["iterations"] = rng.randint(1, 10)
        if rng.random() < 0.3:
            g["lower_threshold"] = rng.randint(0, 60)
            g["upper_threshold"] = rng.randint(70, 100)
    return g


def run(ctx):
    w, rng = World(ctx), ctx.rng
    # the selections of the design model
    cs = ctx.mine(ctx.cases["snr2"]), ctx.mine(ctx.cases["cnr2"]), ctx.mine(ctx.cases["snr3"])
    for group, n in zip(cs, (60, 40, 30)):
        pick = group if ctx.thorough else rng.sample(group, min(len(group), n))
        if ctx.thorough:
            pick = rng.sample(group, min(len(group), 12 * n))
        for c in pick:
            w.start([c["kind"]] * 2)
            cur = []
            for m in (0, 1):
                w.open(m, c["shape"])
                cur.append(len(w.dlg) - 1)
            for e in c["steps"]:
                m = e["d"] - 1
                if e["what"] == "open":
                    if w.open(m, c["shape"]):
                        cur[m] = len(w.dlg) - 1
                else:
                    w.do(cur[m], e["what"], max(1, e["a"]), e["v"], e["t"])
                    if e["what"] == "save":
                        w.score(cur[m])
    # longer selections on other images
    for _ in range(ctx.share(48, 900)):
        kinds = rng.choice([["snr"], ["snr", "snr"], ["cnr"], ["cnr", "cnr"], ["snr", "cnr"]])
        w.start(kinds)
        nd = rng.choice([2, 2, 3])
        small = [rng.randint(4, 9) for _ in range(nd)]
        if nd == 3 and small[-1] == 3:
            small[-1] = 4
        if nd == 2 and rng.random() < 0.2:
            small = [rng.randint(10, 13), rng.randint(10, 13)]
        for _ in range(rng.randint(5, 14)):
            if not w.dlg or (rng.random() < 0.12 and len(w.dlg) < 4):
                m = rng.randrange(len(kinds))
                rgb = nd == 2 and rng.random() < 0.2
                if rng.random() < 0.15:
                    w.told(m, small)
                w.open(m, small, rgb=rgb, **given(rng, kinds[m], small))
                if not w.dlg:
                    break
                continue
            di = rng.randrange(len(w.dlg))
            k = kinds[w.own[di]]
            what = rng.choice(["sc", "sc", "r", "r", "save"] + (["bc", "bc"] if k == "cnr" else
                              ["t", "t", "it", "lo", "hi", "calc"]))
            if what in ("sc", "bc"):
                a = rng.randint(1, nd)
                w.do(di, what, a, rng.randint(0, small[a - 1] + 1))
            elif what == "r":
                w.do(di, "r", v=rng.randint(0, max(small)))
            elif what == "it":
                w.do(di, "it", v=rng.randint(0, 12))
            elif what == "lo":
                w.do(di, "lo", v=rng.randint(0, 60))
            elif what == "hi":
                w.do(di, "hi", v=rng.randint(70, 100))
            elif what == "t":
                w.do(di, "t", t=rng.choice(["cubic", "spherical", "full", "original"]))
            elif what == "calc":
                lo, hi = w.dlg[di]["Lower Threshold"].value, w.dlg[di]["Upper Threshold"].value
                n = w.img[di].size
                if lo == 0 and hi == 100 or (hi - lo) * n < 300:
                    continue
                w.do(di, "calc")
                w.do(di, "save")
                w.overlay(di)
            else:
                w.do(di, "save")
                w.score(di)
    # starts that are not allowed
    for _ in range(ctx.share(40, 300)):
        k = rng.choice(["snr", "cnr"])
        w.start([k])
        nd = rng.choice([2, 3])
        shape = [rng.randint(4, 8) for _ in range(nd)]
        if nd == 3 and shape[-1] == 3:
            shape[-1] = 4
        r = rng.randint(1, min(shape) // 2)
        c = [rng.randint(r, n - r) for n in shape]
        b = [rng.randint(r, n - r) for n in shape]
        g = {"radius": r}
        bad = rng.randrange(7)
        i = rng.randrange(nd)
        odd, ints = {}, True
        which = rng.choice([c, b]) if k == "cnr" else c
        if bad == 0:
            which[i] = rng.choice([r - 1, -1, shape[i] - r + 1, shape[i] + 2])
        elif bad == 1:
            g["radius"] = rng.choice([0, -2])
        elif bad == 2:
            which.append(which[0])
        elif bad == 3:
            which.pop()
        elif bad == 4:
            odd, ints = {"radius": rng.choice([r + 0.5, str(r)])}, False
        elif bad == 5:
            q = list(map(float, c))
            odd, ints = {"signal_center": tuple(q)}, False
        elif k == "snr":
            g["region_type"] = rng.choice(["nonsense", "Cubic", "cubi"])
        else:
            g["radius"] = max(shape)
        g["signal_center"] = tuple(c)
        if k == "cnr":
            g["background_center"] = tuple(b)
        w.open(0, shape, ints=ints, odd=odd, **g)
    for _ in range(ctx.share(60, 600)):
        w.view(rng.choice(["snr", "cnr"]))
