"""C22: image objects calculate like plain arrays and report correct statistics."""

import copy
import hashlib
import operator
import pickle

import numpy as np

from harness.lib import flat, num, outcome

BIN = ["add", "subtract", "maximum", "minimum"]
CMP = ["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
SYM = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
       "floor_divide": operator.floordiv, "remainder": operator.mod, "equal": operator.eq,
       "not_equal": operator.ne, "less": operator.lt, "less_equal": operator.le,
       "greater": operator.gt, "greater_equal": operator.ge}
INP = {"add": operator.iadd, "subtract": operator.isub, "multiply": operator.imul}


class World:
    """A, V (a view of A), B images, P a plain array."""

    def __init__(self, ctx, mod):
        self.ctx, self.rng, self.mod = ctx, ctx.rng, mod
        I = ctx.viqa.ImageArray
        h, w = self.h, self.w = self.rng.choice([(2, 3), (1, 4), (3, 2), (2, 2)])
        dt = "uint8" if mod else self.rng.choice(["int64", "int32"])
        b = [ctx.nprng.integers(0 if mod else -9, 200 if mod else 10, (h, w)).astype(dt)
             for _ in range(3)]
        base = np.ascontiguousarray(b[0]) if self.rng.random() < 0.7 else np.asfortranarray(b[0])
        A = I(base)
        ix = np.arange(h * w).reshape(h, w)
        f = self.rng.choice([lambda a: a[::-1], lambda a: a[:, ::-1], lambda a: a[::-1, ::-1],
                             lambda a: a[...]])
        self.o = {"A": A, "V": f(A), "P": b[1], "B": I(b[2])}
        self.perm = [int(x) + 1 for x in f(ix).ravel()]
        self.base = base
        ctx.ev("new", cut=True, bufs=self.bufs(), perm=self.perm, mod=mod, h=h, w=w)
        self.dt = dt

    def bufs(self):
        return [flat(self.o["A"]), flat(self.o["P"]), flat(self.o["B"])]

    def op(self, kind, op, x, y, o="-", sv=2, w=(), idx=(1,)):
        ctx, rng = self.ctx, self.rng
        X = self.o[x]
        Y = sv if y == "S" else self.o[y]
        before = {k: v.__array_interface__["data"][0] for k, v in self.o.items()}
        u = getattr(np, op, None)
        wk = {}
        if w:
            m = np.array(w, bool).reshape(self.h, self.w)
            wk["where"] = ctx.viqa.ImageArray(m) if rng.random() < 0.5 else m
        sym = rng.random() < 0.5
        unary = op in ("negative", "absolute")
        if kind == "new":
            if unary:
                res, r = outcome(u, X)
            elif sym and op in SYM:
                res, r = outcome(SYM[op], X, Y)
            else:
                res, r = outcome(u, X, Y)
        elif kind == "out":
            O = self.o[o]
            args = (X,) if unary else (X, Y)
            res, r = outcome(u, *args, out=O if sym else (O,), **wk)
        elif kind == "in":
            if sym and op in INP:
                res, r = outcome(INP[op], X, Y)
            else:
                res, r = outcome(u, X, Y, out=X)
        elif kind == "set":
            def put():
                X[np.unravel_index(idx[0] - 1, X.shape)] = sv
            res, r = outcome(put)
        else:
            if X.ndim == 2:
                k = np.unravel_index(np.array(idx) - 1, X.shape)
            res, r = outcome(u.at, X, k, sv)
        got = [] if kind in ("set", "at") or res != "ok" else flat(r)
        img = isinstance(r, ctx.viqa.ImageArray)
        fresh = kind != "new" or res != "ok" or not any(
            np.shares_memory(r, v) for v in self.o.values())
        iso = kind != "out" or res != "ok" or r is self.o[o]
        where_ok = all(v.__array_interface__["data"][0] == before[k] for k, v in self.o.items())
        rec = dict(k="op", kind=kind, op=op, x=x, y=y, o=o, sv=sv, w=list(w), idx=list(idx),
                   res=res, r=got, img=img, fresh=fresh, iso=iso and where_ok, bufs=self.bufs(),
                   _in={"kind": kind, "op": op, "x": x, "y": y, "out": o, "number": sv,
                        "dtype": self.dt, "result": got})
        if res == "ok":
            q = [list(z) for z in rec["bufs"]]
            i = rng.randrange(3)
            q[i][0] += 1
            ctx.neg("array", rec, bufs=q)
            if got:
                ctx.neg("result", rec, r=[got[0] + 1, *got[1:]])
                ctx.neg("class", rec, img=not img)
            if kind == "new":
                ctx.neg("shares", rec, fresh=False)
        ctx.ev(**rec)

    def red(self, op, x, ax):
        X = self.o[x]
        f = getattr(np, op) if self.rng.random() < 0.5 else lambda a, axis: getattr(a, op)(axis=axis)
        r = flat(f(X, axis=None if ax == 9 else ax))
        rec = self.ctx.ev("red", op=op, x=x, ax=ax, r=r, bufs=self.bufs(),
                          _in={"op": op, "axis": ax, "result": r})
        self.ctx.neg("reduced", rec, r=[r[0] + 1, *r[1:]])


def sessions(ctx):
    rng = ctx.rng
    hs = ctx.mine(ctx.cases["ops"])
    hs = rng.sample(hs, min(len(hs), ctx.scale(28, 400)))
    O = ["A", "V", "P", "B"]
    for h in hs:
        w = World(ctx, rng.choice([0, 0, 256]))
        for e in h:
            op = e["op"] if rng.random() < 0.5 else rng.choice(BIN)
            w.op(e["kind"], op if e["kind"] not in ("at",) else "add", e["x"], e["y"], e["o"],
                 sv=rng.randint(0, 9), idx=[rng.randint(1, w.h * w.w)])
        for _ in range(rng.randint(1, 5)):
            k = rng.randrange(7)
            x, y, o = (rng.choice(O) for _ in range(3))
            if k == 0:
                w.op("new", rng.choice(CMP), x, rng.choice([y, "S"]), sv=rng.randint(0, 9))
            elif k == 1:
                w.op("out", rng.choice(BIN), x, y, o,
                     w=[rng.randint(0, 1) for _ in range(w.h * w.w)])
            elif k == 2:
                w.op("new", rng.choice(["floor_divide", "remainder", "multiply"]), x, "S",
                     sv=rng.randint(1, 3))
            elif k == 3 and not w.mod:
                w.op(rng.choice(["new", "out"]), rng.choice(["negative", "absolute"]), x, x, o)
            elif k == 4:
                w.op("at", rng.choice(["add", "subtract"]), x, "S", sv=rng.randint(0, 3),
                     idx=[rng.randint(1, w.h * w.w) for _ in range(rng.randint(1, 3))])
            elif k == 5:
                w.red(rng.choice(["sum", "max", "min"]), x, rng.choice([0, 1, 9]))
            else:
                w.op("in", rng.choice(BIN), x, rng.choice([y, "S"]), sv=rng.randint(0, 9))


# elementwise, function of two arrays
TWIN = [
    (True, lambda a, b: a + b), (True, lambda a, b: a - b), (True, lambda a, b: a * b),
    (True, lambda a, b: a / b), (True, lambda a, b: a // b), (True, lambda a, b: a % b),
    (True, lambda a, b: np.power(a, 2)), (True, lambda a, b: a ** 0.5), (True, lambda a, b: -a),
    (True, lambda a, b: abs(a)), (True, lambda a, b: 3 - a), (True, lambda a, b: 2.5 * a),
    (True, lambda a, b: 7 // (a + 1)), (True, lambda a, b: a > b), (True, lambda a, b: a == b),
    (True, lambda a, b: ~(a > b)), (True, lambda a, b: (a > 3) & (b > 3)),
    (True, lambda a, b: np.sqrt(np.abs(a))), (True, lambda a, b: np.exp(a / 100)),
    (True, lambda a, b: np.maximum(a, b)), (True, lambda a, b: np.hypot(a, b)),
    (True, lambda a, b: divmod(a, 3)), (True, lambda a, b: np.modf(a / 4)),
    (True, lambda a, b: np.divmod(a, b)), (True, lambda a, b: np.frexp(a * 1.0)),
    (True, lambda a, b: np.isfinite(a * 1.0)), (True, lambda a, b: np.logical_not(a)),
    (True, lambda a, b: np.add.accumulate(a, axis=0)), (True, lambda a, b: np.add.outer(a[0], b[0])),
    (True, lambda a, b: np.add(a, b, dtype="float64")), (True, lambda a, b: a[1:] + b[:-1]),
    (True, lambda a, b: a[:, ::2] * 2), (True, lambda a, b: a.T + 1), (True, lambda a, b: a @ b.T),
    (True, lambda a, b: np.where(a > b, a, b) + a), (True, lambda a, b: a[::-1] - a),
    (False, lambda a, b: a.sum()), (False, lambda a, b: np.sum(a, axis=0)),
    (False, lambda a, b: a.mean(axis=1, keepdims=True)), (False, lambda a, b: np.mean(a)),
    (False, lambda a, b: np.mean(a, where=a > b)), (False, lambda a, b: np.std(a, axis=0)),
    (False, lambda a, b: np.var(a, ddof=1)), (False, lambda a, b: np.median(a)),
    (False, lambda a, b: np.percentile(a, [5, 50, 95])), (False, lambda a, b: a.min()),
    (False, lambda a, b: a.max(axis=1)), (False, lambda a, b: np.argmax(a, axis=0)),
    (False, lambda a, b: np.multiply.reduce(a, axis=0)), (False, lambda a, b: np.add.reduceat(a, [0, 1])),
    (False, lambda a, b: np.any(a > b)), (False, lambda a, b: np.all(a == a, axis=0)),
    (False, lambda a, b: np.cumsum(a)), (False, lambda a, b: np.dot(a, b.T)),
    (False, lambda a, b: np.linalg.norm(a)), (False, lambda a, b: np.ptp(a)),
    (False, lambda a, b: a[0, 1]), (False, lambda a, b: a[0]), (False, lambda a, b: a[a > b]),
    (False, lambda a, b: np.clip(a, 2, 9)), (False, lambda a, b: a.round()),
    (False, lambda a, b: np.sort(a, axis=None)), (False, lambda a, b: np.concatenate([a, b])),
    (False, lambda a, b: np.stack([a, b])), (False, lambda a, b: a.astype("float32")),
    (False, lambda a, b: a.reshape(-1)), (False, lambda a, b: np.diff(a, axis=0)),
    (False, lambda a, b: np.unique(a)), (False, lambda a, b: np.array_equal(a, b)),
    (False, lambda a, b: np.allclose(a, b)), (False, lambda a, b: float(a[0, 0])),
    (False, lambda a, b: a.tolist()), (False, lambda a, b: np.max(a, initial=50)),
    (False, lambda a, b: np.maximum.reduce(a, axis=None)), (False, lambda a, b: np.copyto(a, b)),
    (False, lambda a, b: np.add(a, b, out=a)), (False, lambda a, b: np.divmod(a, 3, out=(a, b))),
    (False, lambda a, b: operator.iadd(a, b)), (False, lambda a, b: operator.imul(a, 2)),
    (False, lambda a, b: np.subtract(a, b, out=b, where=a > b)),
    (False, lambda a, b: np.add.at(a, ([0, 0], [1, 1]), 1)),
    (False, lambda a, b: np.sum(a, axis=0, out=b[0])), (False, lambda a, b: a.__setitem__(a > b, 0)),
    (False, lambda a, b: np.add.reduce(a, axis=1, where=a > b)),
    (False, lambda a, b: np.bitwise_and(a.astype(int), 3)), (False, lambda a, b: copy.copy(a) + 1),
    (False, lambda a, b: copy.deepcopy(a) * 2), (False, lambda a, b: pickle.loads(pickle.dumps(a)) - 1),
]


def digest(v):
    if isinstance(v, (tuple, list)):
        d = [digest(x) for x in v]
        return {"val": "|".join(x["val"] for x in d), "shape": [x["shape"] for x in d],
                "dtype": "|".join(x["dtype"] for x in d)}
    if v is None:
        return {"val": "None", "shape": [], "dtype": "None"}
    a = np.asarray(v)
    return {"val": hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:16],
            "shape": list(a.shape), "dtype": str(a.dtype)}


def twins(ctx):
    rng, npr = ctx.rng, ctx.nprng
    I = ctx.viqa.ImageArray
    D = ["uint8", "int16", "uint16", "int64", "float32", "float64", "float16"]
    for f in [t for t in ctx.mine(range(len(TWIN))) for _ in range(ctx.scale(3, 30))]:
        el, fun = TWIN[f]
        sh = rng.choice([(3, 4), (2, 2), (4, 3), (5, 6), (2, 5)])
        d1, d2 = rng.choice(D), rng.choice(D)
        a = npr.integers(0, 100, sh).astype(d1)
        b = npr.integers(1, 100, sh).astype(d2)
        if rng.random() < 0.3:
            b = a.astype(d2)
            d2 = str(b.dtype)
        lay = rng.randrange(3)

        def mk(x):
            x = x.copy()
            if lay == 1:
                x = np.asfortranarray(x)
            elif lay == 2:
                x = np.repeat(x, 2, 0)[::2]
            return x
        pa, pb, ia, ib = mk(a), mk(b), mk(a), mk(b)
        which = rng.choice(["both", "both", "first"] + (["second"] if f < 20 else []))
        A = I(ia) if which != "second" else ia
        B = I(ib) if which != "first" else ib
        r1, v1 = outcome(fun, pa, pb)
        r2, v2 = outcome(fun, A, B)
        d = {"res": r1, **digest(v1), "args": [digest(pa)["val"], digest(pb)["val"]]}
        e = {"res": r2, **digest(v2), "args": [digest(ia)["val"], digest(ib)["val"]]}
        vs = v2 if isinstance(v2, tuple) else (v2,)
        used = which in ("both", "first")
        el = el and used
        img = all(isinstance(x, I) for x in vs)
        rec = ctx.ev("twin", a=d, b=e, elementwise=el, img=img,
                     _in={"function": f, "dtypes": [d1, d2], "shape": list(sh), "image": which,
                          "plain": [r1, repr(v1)[:300]], "with_image": [r2, repr(v2)[:300]]})
        ctx.neg("value", rec, b={**e, "val": "x"})
        ctx.neg("type", rec, b={**e, "dtype": "x"})
        ctx.neg("shape", rec, b={**e, "shape": [99]})
        ctx.neg("argument", rec, b={**e, "args": ["x", "y"]})
        if el and r2 == "ok":
            ctx.neg("class", rec, img=False)


def new_like(v):
    return np.zeros(np.shape(v), np.asarray(v).dtype)


# functions that fill arrays they are given
OUT = [
    lambda a, b, o: np.add(a, b, out=o), lambda a, b, o: np.add(a, b, o),
    lambda a, b, o: np.sqrt(a, out=o), lambda a, b, o: np.add.reduce(a, axis=0, out=o),
    lambda a, b, o: np.add.reduce(a, 1, None, o), lambda a, b, o: np.maximum.reduce(a, axis=1, out=o),
    lambda a, b, o: np.add.accumulate(a, axis=0, out=o), lambda a, b, o: np.add.outer(a[0], b[0], out=o),
    lambda a, b, o: np.multiply.reduceat(a, [0, 1], axis=0, out=o), lambda a, b, o: np.sum(a, axis=0, out=o),
    lambda a, b, o: a.sum(axis=1, out=o), lambda a, b, o: a.sum(1, None, o),
    lambda a, b, o: np.clip(a, 2, 9, out=o), lambda a, b, o: a.clip(2, 9, out=o),
    lambda a, b, o: np.cumsum(a, axis=0, out=o), lambda a, b, o: a.max(axis=0, out=o),
    lambda a, b, o: np.min(a, axis=1, out=o), lambda a, b, o: a.mean(axis=0, out=o),
    lambda a, b, o: np.greater(a, b, out=o), lambda a, b, o: np.matmul(a, b.T, out=o),
    lambda a, b, o: np.subtract(a, b, out=(o,)), lambda a, b, o: np.any(a, axis=0, out=o),
    lambda a, b, o: np.where(a > b, np.add(a, 1, out=o), o),
    lambda a, b, o: np.negative(o, out=o), lambda a, b, o: np.add(a, b, out=o, where=a > b),
    lambda a, b, o: np.divide(a, b + 1, out=o, casting="unsafe"),
]
OUT2 = [
    lambda a, b, o, p: np.divmod(a, b + 1, out=(o, p)), lambda a, b, o, p: np.modf(a / 4, out=(o, p)),
    lambda a, b, o, p: np.divmod(a, b + 1, o, p), lambda a, b, o, p: np.frexp(a / 4, out=(o, p)),
    lambda a, b, o, p: np.divmod(a, b + 1, out=(o, None)), lambda a, b, o, p: np.divmod(a, b + 1, out=(None, p)),
]


def outs(ctx):
    """What is given as out is filled and returned itself."""
    rng, npr = ctx.rng, ctx.nprng
    I = ctx.viqa.ImageArray
    n1 = len(OUT)
    for f in [t for t in ctx.mine(range(n1 + len(OUT2))) for _ in range(ctx.scale(3, 20))]:
        sh = rng.choice([(3, 4), (4, 3), (5, 6)])
        t = rng.choice(["int64", "float64", "int32"])
        a = npr.integers(0, 50, sh).astype(t)
        b = npr.integers(0, 50, sh).astype(t)
        two = f >= n1
        fun = OUT2[f - n1] if two else OUT[f]
        # the shapes and types numpy would choose by itself
        probe = [np.zeros((), None)]
        try:
            if two:
                v = [np.zeros(sh, t), np.zeros(sh, t)]
                if f - n1 in (1, 3):
                    v = [np.zeros(sh), np.zeros(sh, np.int32 if f - n1 == 3 else float)]
            else:
                v = None
                for cand in (sh, (sh[1],), (sh[0],), (sh[0], sh[0]), (sh[1], sh[1]), (2, sh[1])):
                    for ty in (t, "float64", "bool"):
                        try:
                            fun(a.copy(), b.copy(), np.zeros(cand, ty))
                            v = [np.zeros(cand, ty)]
                            break
                        except (TypeError, ValueError):
                            pass
                    if v:
                        break
            if not v:
                continue
            del probe
        except (TypeError, ValueError):
            continue
        po = [x.copy() for x in v]
        io = [I(x.copy()) if rng.random() < 0.6 else x.copy() for x in v]
        A = I(a.copy()) if rng.random() < 0.7 else a.copy()
        B = I(b.copy()) if rng.random() < 0.5 else b.copy()
        r1, v1 = outcome(fun, a, b, *po)
        r2, v2 = outcome(fun, A, B, *io)
        w1 = list(v1) if isinstance(v1, tuple) else [v1]
        w2 = list(v2) if isinstance(v2, tuple) else [v2]

        def same(ws, os):
            return [next((j for j, o in enumerate(os) if w is o), -1) for w in ws]
        rec = ctx.ev("outs", a={"res": r1, "out": [digest(x)["val"] for x in po], "is": same(w1, po),
                                "ret": [digest(x)["val"] for x in w1]},
                     b={"res": r2, "out": [digest(x)["val"] for x in io], "is": same(w2, io),
                        "ret": [digest(x)["val"] for x in w2]},
                     args=bool(np.array_equal(a, A) and np.array_equal(b, B)),
                     _in={"function": f, "shape": list(sh), "dtype": t, "plain": r1,
                          "with_image": [r2, repr(v2)[:300]],
                          "classes": [type(x).__name__ for x in (A, B, *io)]})
        ctx.neg("out_other", rec, b={**rec["b"], "is": [-1] * len(w1)}
                if any(x >= 0 for x in rec["a"]["is"]) else {**rec["b"], "res": "x"})
        ctx.neg("out_filled", rec, b={**rec["b"], "out": ["x"] * len(po)})
        ctx.neg("out_value", rec, b={**rec["b"], "ret": ["x"] * len(w1)})
        ctx.neg("out_argument", rec, args=False)


def statistics(ctx):
    rng, npr = ctx.rng, ctx.nprng
    I = ctx.viqa.ImageArray
    BINS = {"uint8": 255, "int8": 127, "uint16": 65535, "int16": 32767}
    for _ in range(ctx.share(70, 1500)):
        t = rng.choice(["uint8", "uint8", "int8", "uint16", "int16", "float64", "float64", "float32"])
        lo, hi = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (20000, 52767),
                  "int16": (-9000, 20000), "float64": (-5000, 5000), "float32": (-300, 300)}[t]
        sh = rng.choice([(4, 5), (3, 3), (2, 3, 4), (5, 7), (1, 6), (3, 4, 3)])
        k = rng.randrange(5)
        if k == 0:
            p = np.full(sh, rng.randint(lo, hi))
        elif k == 1:
            p = npr.choice([lo, hi, (lo + hi) // 2], sh)
        else:
            p = npr.integers(lo, hi, sh, endpoint=True)
        den = {"float64": 256, "float32": 4}.get(t, 1)
        a = (p / den if den > 1 else p).astype(t)
        if rng.random() < 0.3:
            a = np.asfortranarray(a)
        img = I(a)
        if rng.random() < 0.4:
            # statistics of an earlier content, then a change
            img.calculate_statistics()
            q = npr.integers(lo, hi, sh, endpoint=True)
            img[...] = (q / den if den > 1 else q).astype(t)
            p = q
        elif rng.random() < 0.3 and p.shape[0] > 2:
            img.calculate_statistics()
            img = img[1:]
            p = p[1:]
        keep = np.array(img)
        res, _ = outcome(img.calculate_statistics)
        if res != "ok":
            raise RuntimeError("calculate_statistics raised " + res)
        h, e = img.histogram
        nz = [{"i": int(i), "c": int(h[i])} for i in np.flatnonzero(h)]
        st = {n: num(getattr(img, m)) for n, m in (
            ("mean", "mean_value"), ("median", "median"), ("var", "variance"),
            ("std", "standarddev"), ("skew", "skewness"), ("kurt", "kurtosis"),
            ("min", "minimum"), ("max", "maximum"))}
        if t == "float32" and abs(float(img.skewness)) < 0.05:
            continue
        rec = ctx.ev("stat", px=flat(p), den=den, **st, hist=nz, bins=len(h), first=num(e[0]),
                     last=num(e[-1]), want=BINS.get(t, 255),
                     same=bool(np.array_equal(keep, np.array(img))),
                     _in={"px": np.asarray(p).tolist(), "den": den, "dtype": t,
                          "mean": repr(img.mean_value), "skewness": repr(img.skewness)})
        for n, m in (("mean", "mean_value"), ("median", "median"), ("var", "variance"),
                     ("std", "standarddev"), ("min", "minimum"), ("max", "maximum")):
            ctx.neg(n, rec, **{n: num(float(getattr(img, m)) + max(0.01, abs(float(getattr(img, m))) * 0.001))})
        if float(img.variance) > 0:
            ctx.neg("skew", rec, skew=num(float(img.skewness) + 0.01))
            ctx.neg("kurt", rec, kurt=num(float(img.kurtosis) + 0.01))
            ctx.neg("hist", rec, hist=[{"i": len(h) - 1, "c": int(h.sum())}]
                    if nz[0]["i"] < len(h) - 1 else [])
        ctx.neg("bins", rec, bins=len(h) + 1)


def run(ctx):
    sessions(ctx)
    twins(ctx)
    outs(ctx)
    statistics(ctx)
