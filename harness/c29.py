"""C29: documented settings reach the reference formula."""

import warnings

import numpy as np
import piq
import torch
from scipy.ndimage import convolve

from harness import metrics as M
from harness.lib import num, outcome

# every documented setting: default, then two alternatives
VALUES = {
    "MSSSIM": {"kernel_size": [11, 3, 5], "kernel_sigma": [1.5, 0.7, 2.5],
               "scale_weights": [[0.0448, 0.2856, 0.3001, 0.2363, 0.1333], [0.4, 0.6], [0.7, 0.2, 0.1]],
               "k1": [0.01, 0.2, 0.1], "k2": [0.03, 0.4, 0.15]},
    "FSIM": {"scales": [4, 3, 2], "orientations": [4, 3, 2], "min_length": [6, 4, 8],
             "mult": [2, 3, 1.7], "sigma_f": [0.55, 0.4, 0.7], "delta_theta": [1.2, 0.8, 1.6],
             "k": [2.0, 1.0, 4.0]},
    "VIFp": {"sigma_n_sq": [2.0, 0.4, 20.0]},
    "VSI": {"c1": [1.27, 0.1, 0.4], "c2": [386.0, 40.0, 100.0], "c3": [130.0, 10.0, 30.0],
            "alpha": [0.4, 0.9, 0.1], "beta": [0.02, 0.3, 0.6], "omega_0": [0.021, 0.08, 0.05],
            "sigma_f": [1.34, 0.5, 0.8], "sigma_d": [145.0, 8.0, 20.0],
            "sigma_c": [0.001, 0.2, 0.05]},
    "MAD": {"block_size": [16, 8, 6], "block_overlap": [0.75, 0.5, 0], "beta_1": [0.467, 2.0, 0.1],
            "beta_2": [0.130, 0.5, 0.3], "thresh_1": [None, 1.0, 4.5], "thresh_2": [None, 2.0, 0.7],
            "account_monitor": [False, True, True],
            "display_function": [None, {"disp_res": 40.0, "view_dis": 20.0},
                                 {"disp_res": 25.0, "view_dis": 60.0}],
            "luminance_function": [{"b": 0.0, "k": 0.02874, "gamma": 2.2},
                                   {"b": 0.1, "k": 0.05, "gamma": 1.8}, {"k": 0.03, "gamma": 2.6}],
            "ms_scale": [1, 2, 0.5], "orientations_num": [4, 3, 2],
            "scales": [(5, [0.5, 0.75, 1, 5, 6]), (3, [3, 1, 2]), (4, [1, 0.5, 2, 4])],
            "csf_function": [{"lambda_csf": 0.114, "f_peak": 7.8909}, {"lambda_csf": 0.2, "f_peak": 4.0},
                             {"lambda_csf": 0.06, "f_peak": 12.0}]},
    "gabor": {"scales_num": [4, 3, 2], "orientations_num": [4, 3, 5], "min_wavelength": [3, 4, 6.5],
              "wavelength_scaling": [3, 2, 1.6], "bandwidth_param": [0.55, 0.74, 0.41],
              "d_theta_on_sigma": [1.5, 1.0, 2.2]},
}
RED = ["mean", "sum", "none"]
PIQ = {"MSSSIM": piq.multi_scale_ssim, "FSIM": piq.fsim, "VIFp": piq.vif_p, "VSI": piq.vsi}


def kwargs(m, given):
    """The settings as a user writes them."""
    kw = {}
    for g in given:
        n, v = g["n"], g["v"]
        if n == "reduction":
            kw[n] = RED[v]
        elif m == "MAD" and n == "scales":
            kw["scales_num"], kw["weights"] = VALUES[m][n][v]
        else:
            kw[n] = VALUES[m][n][v]
    if kw.get("display_function", 0) is None:      # there is no default monitor
        kw["display_function"] = VALUES[m]["display_function"][1]
    return kw


def gabor(img, scales_num, orientations_num, min_wavelength, wavelength_scaling, bandwidth_param,
          d_theta_on_sigma):
    """Log-Gabor filters in the frequency domain (Field; Kovesi)."""
    rows, cols = img.shape

    def axis(n):
        top = n / 2 - 1 if n % 2 == 0 else n / 2
        return np.linspace(-n / 2, top, n) / (n / 2)
    x, y = np.meshgrid(axis(cols), axis(rows))
    r = np.hypot(x, y)
    th = np.arctan2(-y, x)
    f = np.fft.fft2(np.asarray(img, float))
    out = []
    for s in range(scales_num):
        f0 = 2.0 / (min_wavelength * wavelength_scaling**s)
        with np.errstate(all="ignore"):
            rad = np.exp(-(np.log(r / f0) ** 2) / (2 * np.log(bandwidth_param) ** 2))
        rad[rows // 2, cols // 2] = 0
        for o in range(orientations_num):
            d = np.abs(np.angle(np.exp(1j * (th - o * np.pi / orientations_num))))
            sp = np.exp(-(d**2) / (2 * (np.pi / orientations_num / d_theta_on_sigma) ** 2))
            h = np.fft.fftshift(rad * sp)
            h[0, 0] = 0
            out.append(np.fft.ifft2(f * h))
    return np.array(out).reshape(scales_num, orientations_num, rows, cols)


def lightness(img, b=0, k=0.02874, gamma=2.2):
    return b + k * np.asarray(img, float) ** (gamma / 3)


def mad(r, m, p):
    """MAD as published (Larson and Chandler)."""
    bs = p["block_size"]
    st = bs - int(p["block_overlap"] * bs)
    n, k = r.shape
    ii, jj = np.arange(bs, n - bs), np.arange(bs, k - bs)     # edges do not count
    ii, jj = ii - ii % st, jj - jj % st                       # the block that owns a pixel

    def blocks(a):
        w = np.lib.stride_tricks.sliding_window_view(a, (bs, bs))
        return w[np.unique(ii)][:, np.unique(jj)]

    def spread(q):
        return q[np.searchsorted(np.unique(ii), ii)][:, np.searchsorted(np.unique(jj), jj)]

    def std(w):
        return w.std(axis=(2, 3), ddof=1)
    with np.errstate(all="ignore"):
        nf = 32.0
        if p["account_monitor"]:
            d = p["display_function"]
            nf = d["disp_res"] * d["view_dis"] * np.tan(np.pi / 180) / 2
        x, y = np.meshgrid(np.arange(k) - k / 2 + 0.5, np.arange(n) - n / 2 + 0.5)
        z = (x + 1j * y) * 2 * nf / k
        f = np.abs(z) / (0.15 * np.cos(4 * np.angle(z)) + 0.85)
        la = p["csf_function"]["lambda_csf"]
        c = 2.6 * (0.0192 + la * f) * np.exp(-((la * f) ** 1.1))
        c[f < p["csf_function"]["f_peak"]] = 0.9809

        def filt(v):
            return np.real(np.fft.ifftn(np.fft.ifftshift(c * np.fft.fftshift(np.fft.fftn(v)))))
        o = filt(lightness(r, **p["luminance_function"]))
        e = filt(lightness(m, **p["luminance_function"])) - o
        bo = blocks(o)
        mu, so, se = bo.mean(axis=(2, 3)), std(bo), std(blocks(e))
        lo = np.log(so / mu)
        le = np.log(np.where(mu > 0.5, se / mu, 0))
        msk = np.where((lo > -5) & (le > lo), le - lo, np.where((lo <= -5) & (le > -5), le + 5, 0))
        msk = spread(msk) / p["ms_scale"]
        d2 = (np.asarray(r, float) - np.asarray(m, float)) ** 2
        mse = convolve(d2, np.full((bs, bs), 1 / bs**2), mode="reflect")[bs:-bs, bs:-bs]
        detect = 200 * np.sqrt(np.mean((msk * mse) ** 2))
        sn, wt = p["scales"]
        wt = np.array(wt) / np.sum(wt)
        gr, gm = (gabor(a, sn, p["orientations_num"], 3, 3, 0.55, 1.5) for a in (r, m))

        def moments(a):
            w = blocks(np.abs(a))
            d = w - w.mean(axis=(2, 3), keepdims=True)
            v = np.mean(d**2, axis=(2, 3))
            return np.array([std(w), 2 * np.mean(d**3, axis=(2, 3)) / v**1.5,
                             np.mean(d**4, axis=(2, 3)) / v**2])
        s = sum(wt[i] * np.abs(moments(gr[i, j]) - moments(gm[i, j])).sum(0)
                for i in range(sn) for j in range(p["orientations_num"]))
        appear = np.sqrt(np.mean(spread(s) ** 2))
        b1, b2 = p["beta_1"], p["beta_2"]
        if p["thresh_1"] is not None:
            b1, b2 = np.exp(-p["thresh_1"] / p["thresh_2"]), 1 / (np.log(10) * p["thresh_2"])
        al = 1 / (1 + b1 * detect**b2)
        return detect**al * appear ** (1 - al)


def reference(m, eff, r, d, dr, chrom):
    prm = {n: v[eff[n]] for n, v in VALUES[m].items()}
    if m == "MAD":
        if prm["account_monitor"] and prm["display_function"] is None:
            prm["display_function"] = VALUES[m]["display_function"][1]
        return float(mad(r, d, prm))
    t = [torch.tensor(np.ascontiguousarray(np.asarray(a, np.float32))) for a in (r, d)]
    t = [a.permute(2, 0, 1)[None] if chrom else a[None, None] for a in t]
    if m == "MSSSIM":
        prm["scale_weights"] = torch.tensor(prm["scale_weights"])
    if m == "FSIM":
        prm["chromatic"] = chrom
    return float(PIQ[m](t[0], t[1], data_range=dr, reduction="mean", **prm))


def vary(rng):
    """Other values for the alternatives; the defaults stay."""
    def u(lo, hi):
        return round(rng.uniform(lo, hi), 3)
    new = {
        "MSSSIM": {"kernel_size": lambda: rng.choice([3, 5, 7]), "kernel_sigma": lambda: u(0.5, 3),
                   "scale_weights": lambda: [u(0.1, 0.9) for _ in range(rng.choice([2, 3]))],
                   "k1": lambda: u(0.05, 0.3), "k2": lambda: u(0.1, 0.5)},
        "FSIM": {"scales": lambda: rng.choice([2, 3, 5]), "orientations": lambda: rng.choice([2, 3, 5, 6]),
                 "min_length": lambda: u(3, 9), "mult": lambda: u(1.4, 3), "sigma_f": lambda: u(0.35, 0.8),
                 "delta_theta": lambda: u(0.8, 2), "k": lambda: u(0.5, 5)},
        "VIFp": {"sigma_n_sq": lambda: u(0.2, 25)},
        "VSI": {"c1": lambda: u(0.05, 3), "c2": lambda: u(30, 300), "c3": lambda: u(8, 90),
                "alpha": lambda: u(0.1, 0.9), "beta": lambda: u(0.1, 0.9), "omega_0": lambda: u(0.03, 0.1),
                "sigma_f": lambda: u(0.4, 1.1), "sigma_d": lambda: u(6, 30), "sigma_c": lambda: u(0.03, 0.3)},
        "MAD": {"block_size": lambda: rng.choice([4, 5, 6, 7, 8, 10, 12]),
                "block_overlap": lambda: rng.choice([0, 0.25, 0.5, 0.6, 0.8]),
                "beta_1": lambda: u(0.05, 3), "beta_2": lambda: u(0.05, 0.9),
                "thresh_1": lambda: u(0.3, 6), "thresh_2": lambda: u(0.4, 4),
                "display_function": lambda: {"disp_res": u(20, 120), "view_dis": u(20, 70)},
                "luminance_function": lambda: {**rng.choice([{}, {"b": u(0.01, 0.2)}]), "k": u(0.02, 0.06),
                                               "gamma": u(1.6, 3)},
                "ms_scale": lambda: u(0.3, 4), "orientations_num": lambda: rng.choice([1, 2, 3, 5, 6]),
                "scales": lambda: (lambda n: (n, [u(0.3, 5) for _ in range(n)]))(rng.randint(1, 6)),
                "csf_function": lambda: {"lambda_csf": u(0.05, 0.3), "f_peak": u(3, 14)}},
        "gabor": {"scales_num": lambda: rng.randint(1, 6), "orientations_num": lambda: rng.randint(1, 8),
                  "min_wavelength": lambda: u(2.2, 8), "wavelength_scaling": lambda: u(1.3, 3.5),
                  "bandwidth_param": lambda: u(0.3, 0.85), "d_theta_on_sigma": lambda: u(0.8, 3)},
    }
    for m, fs in new.items():
        for n, f in fs.items():
            if rng.random() < 0.6:
                VALUES[m][n][1] = f()
            VALUES[m][n][2] = f()


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    vary(rng)
    torch.set_num_threads(1)
    from viqa.utils import gabor_convolve

    by = {}
    for c in ctx.cases["settings"]:
        by.setdefault(c["m"], []).append(c)

    def pair(shape, dr, t, low=False):
        hi = 255 if dr == 1 else dr
        if low:
            r, d = M.visible(npr, M.smooth(npr, shape, 0, hi, np.int64), 0, hi)
            return (r / (256 if dr == 1 else 1)).astype(t), (d / (256 if dr == 1 else 1)).astype(t)
        r = M.smooth(npr, shape, hi // 20, hi - hi // 20, np.int64)
        x = r * rng.choice([1, 0.6]) + npr.normal(0, hi * rng.choice([0.03, 0.1, 0.2]), shape)
        d = np.clip(np.rint(x), 0, hi)
        if rng.random() < 0.5:
            d = np.roll(d, 1, 0)
        if dr == 1:
            return (r / 256).astype(t), (d / 256).astype(t)
        return r.astype(t), d.astype(t)

    def call(c, obj, r, d, dr, chrom, how):
        m, kw = c["m"], kwargs(c["m"], c["given"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = None if c["refuse"] else reference(m, c["eff"], r, d, dr, chrom)
        if w is not None and not np.isfinite(w):
            return None
        a, b, extra = r, d, {}
        if how == "slice":
            ax, i = rng.randrange(3), rng.randrange(3)
            a, b = (np.moveaxis(np.stack([np.roll(x, s, 0) if s != i else x for s in range(4)], 0), 0, ax)
                    for x in (r, d))
            extra = {"dim": ax, "im_slice": i}
        res, v = outcome(obj.score, a, b, **kw, **extra)
        rec = ctx.ev("call", m=m, given=c["given"], eff=c["eff"], res=res, v=num(v),
                     mem=num(obj.score_val) if res == "ok" else num(None), w=num(w),
                     _in={"metric": m, "kw": {k: str(x) for k, x in {**kw, **extra}.items()},
                          "shape": list(a.shape), "dtype": str(a.dtype), "data_range": dr,
                          "chromatic": chrom, "outcome": res, "value": repr(v), "expected": repr(w)})
        if res == "ok":
            x = num(float(v) * 1.001 + 0.001)
            ctx.neg("value_" + m, rec, v=x, mem=x)
            ctx.neg("remembered", rec, mem=x)
            ctx.neg("rejected", rec, res="TypeError")
        elif c["refuse"]:
            ctx.neg("monitor", rec, res="ok")
        return w

    def some(m):
        """A case; several settings at once now and then (joined by the spec's own rule)."""
        return rng.choice(by[m])

    todo = []
    for m in ("MSSSIM", "FSIM", "VIFp", "VSI", "MAD"):
        ones = [c for c in by[m] if len(c["given"]) == 1]
        two = [c for c in by[m] if len(c["given"]) == 2]
        todo += ones + [c for c in by[m] if not c["given"]] * 4
        k = {"MSSSIM": 20, "FSIM": 16, "VIFp": 8, "VSI": 30, "MAD": 60}[m] * ctx.scale(1, 8)
        todo += rng.sample(two, min(k, len(two))) if not ctx.thorough else two
        if m == "MAD":                  # settings that depend on one another
            for x in [{"thresh_1", "thresh_2"}, {"account_monitor", "display_function"},
                      {"thresh_1", "beta_1"}]:
                cs = [c for c in two if {g["n"] for g in c["given"]} == x]
                both = [c for c in cs if all(g["v"] for g in c["given"])]
                todo += [rng.choice(both) for _ in range(8)]
                todo += rng.sample(cs, min(len(cs), ctx.scale(4, 40)))
    todo.sort(key=lambda c: (c["m"], str(c["given"])))
    objs = {}
    for c in ctx.mine(todo):
        m = c["m"]
        chrom = m != "MAD" and rng.random() < 0.25
        dr = rng.choice([255, 255, 1, 65535] if m != "MAD" else [255, 255, 255, 65535])
        t = rng.choice({1: ["float64", "float32"], 255: ["uint8", "int16", "float64", "uint16"],
                        65535: ["uint16", "int32", "float64"]}[dr])
        if m == "MSSSIM":
            lv = len(VALUES[m]["scale_weights"][c["eff"]["scale_weights"]])
            ks = VALUES[m]["kernel_size"][c["eff"]["kernel_size"]]
            lo = (ks - 1) * 2 ** (lv - 1) + 1
            shape = (lo + rng.randrange(2, 9), lo + rng.randrange(2, 9))
        elif m == "MAD":
            bs = VALUES[m]["block_size"][c["eff"]["block_size"]]
            shape = (2 * bs + rng.randrange(5, 20), 2 * bs + rng.randrange(5, 20))
        else:
            shape = (46 + rng.randrange(9), 44 + rng.randrange(9))
        r, d = pair(shape + ((3,) if chrom else ()), dr, t, m == "MAD" and rng.random() < 0.8)
        for _ in range(4):              # below the visibility threshold MAD is zero anyway
            if m == "MAD" and not c["refuse"] and reference(m, c["eff"], r, d, dr, chrom) < 1e-3:
                r, d = pair(shape, dr, t, True)
        key = (m, dr, chrom)
        if key not in objs or rng.random() < 0.3:
            objs[key] = M.make(viqa, m, data_range=dr, **({"chromatic": True} if chrom else {}))
        call(c, objs[key], r, d, dr, chrom,
             "slice" if not chrom and max(shape) < 80 and rng.random() < 0.25 else "plane")

    # weights of another length
    for _ in range(ctx.share(8, 40)):
        r, d = pair((40, 41), 255, "uint8")
        n = rng.randint(2, 6)
        w = [1.0 + i for i in range(rng.choice([x for x in range(1, 8) if x != n]))]
        kw = {"scales_num": n, "weights": w} if rng.random() < 0.7 else {"weights": [1, 2, 3, 4]} \
            if rng.random() < 0.5 else {"scales_num": 4}
        res, v = outcome(viqa.MAD().score, r, d, block_size=8, **kw)
        rec = ctx.ev("bad", res=res, _in={"kw": {k: str(x) for k, x in kw.items()}, "outcome": res})
        ctx.neg("accepted", rec, res="ok")

    # filter responses
    gs = by["gabor"]
    for c in ctx.mine(rng.sample(gs, min(len(gs), 24)) if not ctx.thorough else gs):
        shape = (rng.randint(4, 33), rng.randint(4, 33))
        a = npr.integers(0, 256, shape).astype(rng.choice(["uint8", "float64", "int32"]))
        kw = kwargs("gabor", c["given"])
        full = {n: v[c["eff"][n]] for n, v in VALUES["gabor"].items()}
        kw.update(scales_num=full["scales_num"], orientations_num=full["orientations_num"])
        want = gabor(a, **full)
        res, g = outcome(gabor_convolve, a, **kw)
        v, w, mean, sh = [], [], [], []
        if res == "ok":
            sh = [len(g), len(g[0])]
            if sh == list(want.shape[:2]):
                for s in range(sh[0]):
                    for o in range(sh[1]):
                        q = np.asarray(g[s][o])
                        mean += [num(q.mean().real), num(q.mean().imag)]
                        for _ in range(3):
                            i, j = rng.randrange(shape[0]), rng.randrange(shape[1])
                            for f in (np.real, np.imag):
                                v.append(num(float(f(q[i, j]))))
                                w.append(num(float(f(want[s, o, i, j]))))
        rec = ctx.ev("gabor", given=c["given"], eff=c["eff"], res=res, v=v, w=w, mean=mean, shape=sh,
                     want=list(want.shape[:2]),
                     _in={"kw": {k: str(x) for k, x in kw.items()}, "shape": list(shape),
                          "dtype": str(a.dtype), "pixels": a.tolist()})
        if v:
            ctx.neg("response", rec, v=[*v[:-1], num(1e6)])
            ctx.neg("scales", rec, shape=[sh[0] + 1, sh[1]])
            ctx.neg("mean", rec, mean=[num(0.01)])
