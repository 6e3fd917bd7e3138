"""C12: RMSE and PSNR are exact for every image pair."""

from decimal import Decimal, getcontext
from fractions import Fraction

import numpy as np

from harness.lib import big, exact, num, outcome

getcontext().prec = 50
RNG = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-32768, 32767),
       "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1), "int64": (-2**40, 2**40),
       "float32": (-2**20, 2**20), "float64": (-2**40, 2**40), "float16": (-2000, 2000)}


def power(v):
    """10^(v/10), scaled by 10^9."""
    if v is None or not np.isfinite(float(v)):
        return num(None)
    f = Fraction(float(v))
    x = Decimal(10) ** (Decimal(f.numerator) / Decimal(f.denominator) / 10)
    return {"k": "n", **big(int((x * 10**9).to_integral_value()))}


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    grp = [0]

    def arr(p, dtype, den, shape, lay):
        a = np.array([x / den for x in p] if den > 1 else p, dtype=np.float64 if den > 1
                     else np.int64).astype(dtype).reshape(shape)
        if lay == "F":
            a = np.asfortranarray(a)
        elif lay == "rev":
            a = a[::-1].copy()[::-1]
        elif lay == "image":
            a = viqa.ImageArray(a)
        return a

    def do(r, m, dtype, shape, rngs=(1, 255, 65535), g=0):
        den = {"float16": 8, "float32": 16, "float64": 1024}.get(dtype, 1)
        lay = rng.choice(["C", "C", "F", "rev", "image"])
        a, b = arr(r, dtype, den, shape, lay), arr(m, dtype, den, shape, lay)
        info = {"dtype": dtype, "shape": list(shape), "layout": lay,
                "reference": [x / den for x in r][:12], "modified": [x / den for x in m][:12]}
        # single and half precision images are compared in single precision
        rel = 300000 if dtype in ("float16", "float32") else 10**9
        common = dict(rel=big(rel), r=[big(x) for x in r], m=[big(x) for x in m], den=den)
        res, v = outcome(viqa.RMSE(data_range=rng.choice([None, 255])).score, a, b)
        rec = ctx.ev("rmse", **common, res=res, v=num(v),
                     _in={"metric": "RMSE", **info, "outcome": res, "value": repr(v)})
        if res == "ok" and np.isfinite(float(v)):
            ctx.neg("rmse", rec, v=num(float(v) * 1.0001 + 1e-4))
        dr = rng.choice(rngs)
        res, v = outcome(viqa.PSNR(data_range=dr).score, a, b)
        rec = ctx.ev("psnr", **common, range=dr, grp=g, res=res, v=num(v), x=exact(v),
                     p=power(v), _in={"metric": "PSNR", "data_range": dr, **info,
                                      "outcome": res, "value": repr(v)})
        if res == "ok" and np.isfinite(float(v)):
            ctx.neg("psnr", rec, p=power(float(v) + 0.001), grp=0)
        elif res == "ok":
            ctx.neg("psnr_inf", rec, v=num(100.0))

    for c in ctx.mine(ctx.cases["imgs"]):
        n = len(c["r"])
        dt = rng.choice([x for x in RNG if x not in ("int8", "float16")])
        do(c["r"], c["m"], dt, rng.choice([(1, n), (n, 1), (1, n, 1)]))

    def pix(dtype, n):
        lo, hi = RNG[dtype]
        k = rng.randrange(4)
        if k == 0:
            return [rng.choice([lo, hi]) for _ in range(n)]
        if k == 1:
            return [rng.randint(lo, hi) for _ in range(n)]
        if k == 2:
            c = rng.randint(lo, hi - 5)
            return [c + rng.randrange(6) for _ in range(n)]
        return [rng.randint(max(lo, 0), min(hi, 255)) for _ in range(n)]

    shapes = [(2, 3), (3, 3), (4, 3), (1, 6), (6, 1), (2, 2, 2), (3, 2, 4), (2, 3, 1), (3, 1, 2),
              (5, 7), (1, 1), (3, 4, 5), (2, 5), (1, 1, 1), (3, 3, 2)]
    for _ in range(ctx.share(420, 8000)):
        dt = rng.choice(list(RNG))
        sh = rng.choice(shapes)
        n = int(np.prod(sh))
        r = pix(dt, n)
        k = rng.randrange(5)
        if k == 0:
            m = list(r)
        elif k == 1:
            m = list(r)
            i = rng.randrange(n)
            m[i] = pix(dt, 1)[0]
        elif k == 2:
            lo, hi = RNG[dt]
            m = [min(hi, max(lo, x + rng.choice([-1, 0, 1]))) for x in r]
        else:
            m = pix(dt, n)
        do(r, m, dt, sh)
    # growing differences: neighbouring scores are compared
    for _ in range(ctx.share(24, 400)):
        grp[0] += 1
        dt = rng.choice(list(RNG))
        sh = rng.choice(shapes)
        n = int(np.prod(sh))
        r = pix(dt, n)
        for _ in range(6):
            do(r, pix(dt, n) if rng.random() < 0.5 else
               [x if rng.random() < 0.6 else y for x, y in zip(r, pix(dt, n))],
               dt, sh, rngs=(255,), g=grp[0])
