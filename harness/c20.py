"""C20: comparison and fusion of metrics."""

import operator

import numpy as np

from harness.lib import exact, num, outcome

OPS = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le,
       "gt": operator.gt, "ge": operator.ge}


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng

    def truth(f, *a):
        res, v = outcome(f, *a)
        if res != "ok":
            return res
        return "true" if v is True or (isinstance(v, np.bool_) and v) else (
            "false" if v is False or isinstance(v, np.bool_) else repr(v))

    def rmse(v):
        m = viqa.RMSE()
        a = np.full((2, 2), 10.0)
        m.score(a, a + v)
        return m

    def build(v):
        """A metric object of a random kind whose score is the known value v."""
        if v == "nan":
            m = rng.choice([viqa.RMSE, lambda: viqa.PSNR(data_range=255)])()
            a = np.full((3, 2), 9.0)
            a[1, 1] = np.nan
            m.score(a, np.full((3, 2), 8.0))
            return m, num(float("nan"))
        if v == "inf":
            m = viqa.PSNR(data_range=255)
            a = np.full((3, 2), 9.0)
            m.score(a, a)
            return m, num(float("inf"))
        if v < 0 or rng.random() < 0.3:
            # PSNR: 20*log10(range / diff)
            m = viqa.PSNR(data_range=1)
            a = np.zeros((2, 3))
            m.score(a, a + 10 ** (-v / 20))
            return m, num(float(v))
        return rmse(v), num(float(v))

    def session(vs):
        ms, want = zip(*[build(v) for v in vs])
        ms = list(ms)
        ctx.ev("set", vals=[num(m.score_val) for m in ms],
               xs=[exact(m.score_val) for m in ms], want=list(want), cut=True)
        return ms

    def compare(ms, a, b, n=None):
        for op, f in OPS.items():
            r = truth(f, ms[a], ms[b] if b is not None else n)
            rec = ctx.ev("cmp", a=a + 1, b=0 if b is None else b + 1, n=exact(n), op=op,
                         res=r, cut=False,
                         _in={"left": repr(ms[a]), "right": repr(ms[b]) if b is not None
                              else float(n), "op": op, "result": r})
            ctx.neg("cmp_" + op, rec, limit=2, res="false" if r == "true" else "true")
            if b is None:        # number on the left side: mirrored by Python
                mirror = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt",
                          "ge": "le"}
                r = truth(OPS[mirror[op]], n, ms[a])
                ctx.ev("cmp", a=a + 1, b=0, n=exact(n), op=op, res=r, cut=False)

    def fuse(ms, idx, w):
        res, v = outcome(viqa.fuse_metrics_linear_combination, [ms[i] for i in idx],
                         w)
        rec = ctx.ev("fuse", idx=[i + 1 for i in idx], w=[num(x) for x in list(w)], res=res,
                     ret=num(v), cut=False,
                     _in={"metrics": [repr(ms[i]) for i in idx], "weights": [float(x) for x in w],
                          "outcome": res, "value": repr(v)})
        if res == "ok":
            ctx.neg("sum", rec, ret=num(float(v) * 1.001 + 0.001))
        else:
            ctx.neg("lengths", rec, res="ok")

    # histories of the model: score, fail, compare, fuse
    hs = ctx.mine(ctx.cases["hist"])
    rng.shuffle(hs)
    K = {"A": [1.0, 0.5, 3.25], "B": [1.0, 2.0, 0.0, 17.5]}
    for h in hs[:ctx.share(150, 100000)]:
        ms = [viqa.RMSE(), viqa.RMSE() if rng.random() < 0.5 else viqa.PSNR(data_range=1)]
        vals = {}
        for m in ms:        # start scored
            m.score(np.zeros((2, 2)), np.ones((2, 2)))
        known = [1.0, 1.0 if isinstance(ms[1], viqa.RMSE) else 0.0]
        ctx.ev("set", vals=[num(m.score_val) for m in ms],
               xs=[exact(m.score_val) for m in ms], want=[num(x) for x in known],
               cut=True)
        for op in h:
            o = op["o"] - 1
            if op["op"] == "score":
                v = rng.choice(K[op["i"]])
                if isinstance(ms[o], viqa.RMSE):
                    ms[o].score(np.zeros((2, 2)), np.full((2, 2), v))
                else:
                    ms[o].score(np.zeros((2, 2)), np.full((2, 2), 10 ** (-v / 20)))
                known[o] = v
                ctx.ev("set", vals=[num(m.score_val) for m in ms],
               xs=[exact(m.score_val) for m in ms],
                       want=[num(x) for x in known], cut=False)
            elif op["op"] == "fail":
                outcome(ms[o].score, np.zeros((2, 2)), np.zeros((3, 2)))
            elif op["op"] == "cmp":
                compare(ms, o, 1 - o)
                compare(ms, o, None, rng.choice([1, 1.0, 0, 2, -1, 17.5, np.float32(0.5)]))
            else:
                fuse(ms, [o, 1 - o], [rng.choice([0.5, 1, -2]), rng.choice([0.25, 0, 3])])

    # fusions of the model
    cs = ctx.mine(ctx.cases["fusion"])
    rng.shuffle(cs)
    for c in cs[:ctx.share(300, 100000)]:
        ms = session(c["v"])
        order = [i - 1 for i in c["order"]]
        fuse(ms, order, [c["w"][i] for i in order])
        fuse(ms, order, [c["w"][i] for i in order][:-1])
        fuse(ms, order[1:], [c["w"][i] for i in order])

    # scores that are no number
    for _ in range(ctx.share(16, 200)):
        ms = session(rng.sample(["nan", "nan", "inf", 0.0, 3.5, -2.0], 4))
        for a in range(4):
            compare(ms, a, rng.randrange(4))
            compare(ms, a, None, rng.choice([float("nan"), float("inf"), -float("inf"), 0, 3.5]))
    # random values, many metrics, all pairs
    for _ in range(ctx.share(24, 600)):
        n = rng.randrange(1, 9)
        pool = [round(rng.uniform(0, 40), 3) for _ in range(4)] + ["inf", 0.0, -3.0, 1e-6, 7]
        ms = session([rng.choice(pool) for _ in range(n)])
        for _ in range(6):
            a = rng.randrange(n)
            compare(ms, a, rng.randrange(n))
            compare(ms, a, None, rng.choice([0, 1, 7, 40.5, float("inf"),
                                             float(ms[rng.randrange(n)].score_val)]))
        res, v = outcome(sorted, list(enumerate(ms)), key=lambda t: t[1])
        rec = ctx.ev("sort", n=n, perm=[i + 1 for i, _ in v] if v else [], cut=False)
        if n > 1 and len({repr(num(m.score_val)) for m in ms}) == n:
            ctx.neg("sort", rec, perm=rec["perm"][::-1])
        fin = [i for i in range(n) if np.isfinite(ms[i].score_val)]
        for _ in range(3):
            rng.shuffle(fin)
            w = [rng.choice([0, 1, -1, 0.1, 2.5, 100, 1 / 3]) for _ in fin]
            form = rng.choice([list, tuple, np.array])
            fuse(ms, fin, form([float(x) for x in w]) if form is np.array else form(w))
            k = rng.randrange(0, len(fin) + 2)
            if k != len(fin):
                fuse(ms, fin, [1.0] * k)
