"""C13: SSIM and UQI implement their published formula on every window."""

import numpy as np

from harness.lib import flat, num, outcome


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng

    def score(r, m, metric="SSIM", w=None, gauss=False, sig=15, dr=255, k1=None, k2=None,
              abg=(1, 1, 1), lin=0, weights=None, tol=40000, dtype="uint8", extra=None):
        r, m = np.asarray(r), np.asarray(m)
        kw = dict(extra or {})
        if metric == "SSIM":
            kw["gaussian_weights"] = gauss
            if not gauss:
                if w is not None:
                    kw["win_size"] = w
            elif sig != 15:
                kw["sigma"] = sig / 10
            if gauss and rng.random() < 0.5:
                kw.pop("gaussian_weights")        # the default
            if k1 is not None:
                kw["K1"] = k1 / 1000
            if k2 is not None:
                kw["K2"] = k2 / 1000
            for name, x in zip(("alpha", "beta", "gamma"), abg):
                if x != 1 or rng.random() < 0.2:
                    kw[name] = x
        elif w is not None:
            kw["win_size"] = w
        mk = {"data_range": dr}
        if weights:
            mk["chromatic"] = True
            kw["color_weights"] = np.array(weights) / 1000
        res, v = outcome(getattr(viqa, metric)(**mk).score, r.astype(dtype), m.astype(dtype), **kw)
        sh = list(r.shape[:2] if weights else r.shape)
        K1, K2 = (10 if k1 is None else k1), (30 if k2 is None else k2)
        if metric == "UQI":
            K1 = K2 = 0
        W = 2 * int(3.5 * sig / 10 + 0.5) + 1 if gauss else (w or 7)
        chans = (lambda a: [flat(a[..., c]) for c in range(3)]) if weights else \
            (lambda a: [flat(a)])
        rec = ctx.ev("colour" if weights else "ssim", shape=sh, w=W, gauss=gauss, sig=sig,
                     range=dr, k1=K1, k2=K2, alpha=abg[0], beta=abg[1], gamma=abg[2],
                     lin=lin, r=chans(r), m=chans(m), weights=weights or [], res=res, v=num(v),
                     tol=tol, _in={"metric": metric, "shape": list(r.shape), "settings":
                                   {a: str(b) for a, b in kw.items()}, "data_range": dr,
                                   "dtype": dtype, "reference": flat(r)[:16],
                                   "modified": flat(m)[:16], "outcome": res, "value": repr(v)})
        if res == "ok" and np.isfinite(float(v)):
            ctx.neg("value" + ("_g" if gauss else ""), rec, v=num(float(v) + 3e-4))
        return v

    def image(sh, hi=60, amp=None):
        """Enough contrast in every window."""
        a = npr.integers(0, hi, sh)
        if rng.random() < 0.4:
            a = a // 2 + int(rng.randrange(hi // 2))
        return a

    def other(a, hi=60):
        k = rng.randrange(4)
        if k == 0:
            return np.clip(a + npr.integers(-6, 7, a.shape), 0, 255)
        if k == 1:
            return image(a.shape, hi)
        if k == 2:
            return hi - np.clip(a, 0, hi) + npr.integers(0, 3, a.shape)
        return np.clip(a + rng.choice([10, 25]), 0, 255) + npr.integers(0, 4, a.shape)

    # profiles of the model, as images
    cs = ctx.mine(ctx.cases["prof"])
    for x, y in cs if ctx.thorough else rng.sample(cs, min(len(cs), 30)):
        r, m = np.array([x] * 3), np.array([y] * 3)
        if rng.random() < 0.5:
            r, m = r.T.copy(), m.T.copy()
        score(r, m, w=3)
    EXP = [(1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 2), (3, 1, 1), (2, 3, 3), (0, 1, 1), (1, 0, 0)]
    for _ in range(ctx.share(78, 1500)):
        w = rng.choice([3, 3, 5, None])
        nd = rng.choice([2, 2, 3]) if w else 2
        if nd == 3 and w == 5:
            w = 3
        sh = tuple((w or 7) + rng.randrange(0, 3) for _ in range(nd))
        if nd == 3:
            sh = tuple(w + rng.randrange(0, 2) for _ in range(3))
            if sh[-1] == 3:
                sh = (*sh[:2], 4)
        r = image(sh)
        m = other(r)
        metric = rng.choice(["SSIM", "SSIM", "SSIM", "UQI"])
        dr = rng.choice([255, 255, 60, 100, 1])
        if metric == "UQI":
            score(r, m, "UQI", w=w, dr=rng.choice([1, 255, 65535]))
        elif rng.random() < 0.3:
            # different exponents for contrast and structure
            c = rng.choice([1, 2, 3, -1, -2])
            d = rng.randrange(5) if c > 0 else 130
            m = c * r + d
            b, g = rng.choice([(1, 2), (2, 1), (3, 1), (1, 3), (2, 3), (0, 1), (1, 0)])
            score(r, m, w=w, dr=255, abg=(rng.choice([1, 2]), b, g), lin=c, dtype="int16",
                  tol=60000)
        else:
            score(r, m, w=w, dr=dr, k1=rng.choice([None, None, 5, 20, 100, 0]),
                  k2=rng.choice([None, None, 10, 60, 300]), abg=rng.choice(EXP),
                  tol=60000, dtype=rng.choice(["uint8", "uint16", "int32", "float32", "float64"])
                  if m.min() >= 0 and max(m.max(), r.max()) < 256 else "int32")
    # wide windows
    for _ in range(ctx.share(16, 120)):
        w = rng.choice([9, 11, 13, 15])
        sh = (w + rng.randrange(0, 2), w + rng.randrange(0, 2))
        r = image(sh)
        if rng.random() < 0.3:
            score(r, other(r), "UQI", w=w)
        else:
            score(r, other(r), w=w, abg=rng.choice(EXP), tol=60000, dr=rng.choice([255, 60]))
    # Gaussian windows
    for _ in range(ctx.share(36, 600)):
        sig = rng.choice([15, 15, 15, 10, 8, 5, 18, 20, 25])
        W = 2 * int(3.5 * sig / 10 + 0.5) + 1
        sh = tuple(W + rng.randrange(0, 2) for _ in range(2))
        r = image(sh, 40)
        m = np.clip(other(r, 40), 0, 45)
        score(r, m, gauss=True, sig=sig, dr=rng.choice([255, 60]),
              k1=rng.choice([None, None, 20]), k2=rng.choice([None, None, 60]),
              abg=rng.choice([(1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 2)]), tol=60000)
    # colour
    for _ in range(ctx.share(14, 200)):
        w = 3
        sh = (w + rng.randrange(0, 3), w + rng.randrange(0, 3), 3)
        r = image(sh)
        m = other(r)
        ws = rng.choice([[1000, 1000, 1000], [500, 300, 200], [0, 0, 3000], [100, 1500, 700],
                         [200, 0, 0]])
        score(r, m, w=w, weights=ws, tol=100000)
    # invalid settings
    for _ in range(ctx.share(18, 60)):
        a, b = image((9, 8)), image((9, 8))
        for metric, kw in (("SSIM", {"win_size": rng.choice([2, 4, 6, 8]), "gaussian_weights": False}),
                           ("SSIM", {"win_size": rng.choice([9, 11, 13]), "gaussian_weights": False}),
                           ("SSIM", {"K1": -rng.choice([0.01, 1, 1e-6])}),
                           ("SSIM", {"K2": -rng.choice([0.01, 1, 1e-6])}),
                           ("SSIM", {"sigma": -rng.choice([0.01, 1.5])}),
                           ("SSIM", {}),                    # 11 taps do not fit
                           ("UQI", {"win_size": rng.choice([2, 4, 6, 8])}),
                           ("UQI", {"win_size": rng.choice([9, 15])})):
            if "sigma" in kw or "K1" in kw or "K2" in kw:
                kw = {**kw, "gaussian_weights": rng.choice([True, False])}
                a2, b2 = image((14, 14)), image((14, 14))
            else:
                a2, b2 = a, b
            res, _ = outcome(getattr(viqa, metric)(data_range=255).score, a2.astype(np.uint8),
                             b2.astype(np.uint8), **kw)
            rec = ctx.ev("reject", res=res, _in={"metric": metric, "shape": list(a2.shape),
                                                 "settings": kw, "outcome": res})
            ctx.neg("reject", rec, res="ok")
