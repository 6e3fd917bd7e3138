"""C19: MAD's block statistics."""

import ctypes
import gc
import json
import os
import subprocess
import sys
import sysconfig
import warnings

import numpy as np
from scipy.ndimage import convolve

from harness import metrics as M
from harness.lib import flat, num, outcome


def layout(rng, a):
    """The same numbers in another memory layout or type."""
    k = rng.randrange(7)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a[::-1].copy()[::-1]
    if k == 2:
        return np.ascontiguousarray(a.T).T
    if k == 3:
        w = np.full((2 * a.shape[0] + 1, 3 * a.shape[1] + 2), 99, a.dtype)
        w[1::2, 2::3] = a
        return w[1::2, 2::3]
    if k == 4:
        w = np.full((a.shape[0] + 4, a.shape[1] + 5), 77, a.dtype)
        w[2:-2, 3:-2] = a
        return w[2:-2, 3:-2]
    if k == 5:
        # rows of a larger buffer: reading past the end changes the result
        w = np.full((a.shape[0] + 6, a.shape[1]), np.nan if a.dtype.kind == "f" else 111).astype(a.dtype)
        w[3:-3] = a
        return w[3:-3]
    return a


def csf(m, n, nfreq=32):
    x, y = np.meshgrid(np.arange(n) - n / 2 + 0.5, np.arange(m) - m / 2 + 0.5)
    z = (x + 1j * y) * 2 * nfreq / n
    f = np.abs(z) / (0.15 * np.cos(4 * np.angle(z)) + 0.85)
    c = 2.6 * (0.0192 + 0.114 * f) * np.exp(-((0.114 * f) ** 1.1))
    c[f < 7.8909] = 0.9809
    return c


def mad(viqa, r, m, bs, owner, data_range):
    """MAD as published, with the statistics of the block that owns each pixel."""
    from viqa.utils import gabor_convolve
    n, k = r.shape
    owner = np.array(owner).reshape(n, k)

    def per_block(img, f):
        out = np.zeros((n, k))
        for b in np.unique(owner[owner >= 0]):
            i, j = divmod(int(b), k)
            out[owner == b] = f(img[i:i + bs, j:j + bs])
        return out
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        rf, mf = r.astype(float), m.astype(float)
        lr, lm = (0.02874 * x ** (2.2 / 3) for x in (rf, mf))
        c = csf(n, k)

        def filt(x):
            return np.real(np.fft.ifftn(np.fft.ifftshift(c * np.fft.fftshift(np.fft.fftn(x)))))
        o = filt(lr)
        e = filt(lm) - o
        mu = per_block(o, np.mean)
        so = per_block(o, lambda b: np.std(b, ddof=1))
        se = per_block(e, lambda b: np.std(b, ddof=1))
        co = so / mu
        ce = np.where(mu > 0.5, se / mu, 0)
        lo, le = np.log(co), np.log(ce)
        msk = np.zeros((n, k))
        a = (le > lo) & (lo > -5)
        msk[a] = (le - lo)[a]
        a = (le > -5) & (lo <= -5)
        msk[a] = (le + 5)[a]
        mse = convolve((rf - mf) ** 2, np.ones((bs, bs)) / bs**2, mode="reflect")
        p = (msk * mse)[bs:-bs, bs:-bs]
        detect = np.sqrt(np.mean(p**2)) * 200

        def gab(x):
            return gabor_convolve(x, scales_num=5, orientations_num=4, min_wavelength=3,
                                  wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5)
        gr, gm = gab(r), gab(m)
        w = np.array([0.5, 0.75, 1, 5, 6])
        w = w / w.sum()

        def skw(b):
            d = b - b.mean()
            s = np.sqrt(np.mean(d**2))
            return np.mean(d**3) / s**3 if s else 0

        def krt(b):
            d = b - b.mean()
            s = np.sqrt(np.mean(d**2))
            return np.mean(d**4) / s**4 if s else 0
        st = np.zeros((n, k))
        for s in range(5):
            for q in range(4):
                a, b = np.abs(gr[s, q]), np.abs(gm[s, q])
                for f, g in ((lambda z: np.std(z, ddof=1), 1), (skw, 2), (krt, 1)):
                    st += w[s] * g * np.abs(per_block(a, f) - per_block(b, f))
        p = st[bs:-bs, bs:-bs]
        appear = np.sqrt(np.mean(p**2))
        al = 1 / (1 + 0.467 * detect**0.130)
        return detect**al * appear ** (1 - al)


def asan(ctx, jobs):
    """Run the extension with the address sanitizer; None if it cannot be used."""
    src = os.path.join(ctx.repo, "src/viqa/fr_metrics/stat_utils/statisticsmodule.c")
    so = os.path.join(ctx.scratch, "asan_statisticscalc.so")
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True)
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-std=c11", "-O1", "-g", "-fsanitize=address",
                        "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(), src,
                        "-o", so, "-lm"], capture_output=True)
    if p.returncode or lib.returncode:
        return None
    f = os.path.join(ctx.scratch, "asan.json")
    with open(f, "w") as h:
        json.dump(jobs, h)
    env = {**os.environ, "LD_PRELOAD": lib.stdout.strip(), "ASAN_OPTIONS": "detect_leaks=0",
           "PYTHONMALLOC": "malloc"}
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "asanrun.py"),
                        so, f], capture_output=True, text=True, env=env)
    lines = p.stdout.strip().splitlines()
    if p.returncode == 0 and lines and lines[-1] == "done":
        return True, None
    if "ERROR: AddressSanitizer" in p.stderr:
        return False, (lines[-1] if lines else "") + " " + p.stderr[:600]
    return None


def run(ctx):
    viqa, rng, npr, ext = ctx.viqa, ctx.rng, ctx.nprng, ctx.ext
    import viqa.utils.misc as misc
    extract = getattr(misc, "_extract_blocks", None)

    def image(n, m):
        k = rng.randrange(6)
        if k == 0:
            p = np.full((n, m), rng.choice([0, 7, 255]))
            p[rng.randrange(n), rng.randrange(m)] = rng.choice([0, 7, 255, 200])
        elif k == 1:
            p = np.arange(n * m).reshape(n, m)
        elif k == 2:
            p = npr.integers(-100, 100, (n, m))
        else:
            p = npr.integers(0, 256, (n, m))
        return p.astype(np.int64)

    def stats(n, m, bs, st):
        p = image(n, m)
        t = rng.choice(["float64", "float64", "float32", "int16", "int64"])
        a = layout(rng, p.astype(t))
        info = {"px": p.tolist(), "dtype": t, "block": bs, "stride": st, "strides": list(a.strides)}
        s, k, c = ext.getstatistics(a, bs, st)
        cell = dict(n=n, m=m, bs=bs, st=st, px=flat(p))
        rec = ctx.ev("stats", **cell, std=[num(x) for x in s.ravel()],
                     skw=[num(x) for x in k.ravel()], krt=[num(x) for x in c.ravel()], _in=info)
        for f, q in (("std", s), ("skw", k), ("krt", c)):
            w = list(rec[f])
            w[0] = num(float(q[0, 0]) * 1.0001 + 0.001)
            ctx.neg("value_" + f, rec, **{f: w})
        q = ext.minstd(a, bs, st)
        rec = ctx.ev("minstd", **cell, std=[num(x) for x in q.ravel()], _in=info)
        i = ((n - bs) // st) * st * m + ((m - bs) // st) * st
        if n >= 2 * bs and m >= 2 * bs:
            w = list(rec["std"])
            w[i] = num(float(q.ravel()[i]) * 1.0001 + 0.001)
            ctx.neg("value_min", rec, std=w)
        if extract:
            res, b = outcome(extract, a, bs, st)
            if res == "ok":
                b = [flat(x) for x in b]
                rec = ctx.ev("blocks", **cell, blocks=b, _in=info)
                ctx.neg("block", rec, blocks=[*b[:-1], [x + 1 for x in b[-1]]])
                ctx.neg("fewer", rec, blocks=b[:-1])

    cs = ctx.mine(ctx.cases["blocks"])
    small = [c for c in cs if c["n"] <= 9 and c["m"] <= 9]
    if not ctx.thorough:
        small = rng.sample(small, min(9, len(small)))
    for c in small:
        stats(c["n"], c["m"], c["bs"], c["st"])
    for n, m, bs, st in ctx.mine([(65, 67, 9, 9), (19, 20, 17, 2), (20, 19, 18, 1),
                                  (5, 40, 4, 4), (40, 5, 4, 4), (22, 23, 20, 3)]):
        stats(n, m, bs, st)
    # MAD over its blocks
    big = [c for c in cs if min(c["n"], c["m"]) > 2 * c["bs"] and c["n"] * c["m"] >= 56]
    k = ctx.scale(10, 80)
    sq = [c for c in big if c["n"] != c["m"]]
    for c in rng.sample(sq, min(k, len(sq))) + rng.sample(big, min(2, len(big))):
        n, m, bs, st = (c[x] for x in ("n", "m", "bs", "st"))
        ov = (bs - st) / bs
        if bs - int(ov * bs) != st:
            ov += 1e-6
        r = M.smooth(npr, (n, m), 10, 245)
        d = M.distorted(npr, r, rng.choice([20, 60]))
        if rng.random() < 0.7:
            r, d = M.visible(npr, r)
        f = rng.random() < 0.5
        w = mad(viqa, r.astype(float) if f else r, d.astype(float) if f else d, bs, c["owner"], 255)
        if not np.isfinite(w):
            continue
        res, v = outcome(viqa.MAD(data_range=255).score, layout(rng, r.astype(float) if f else r),
                         layout(rng, d.astype(float) if f else d), block_size=bs, block_overlap=ov)
        rec = ctx.ev("mad", res=res, v=num(v), w=num(w),
                     _in={"shape": [n, m], "block_size": bs, "block_overlap": ov, "float": f,
                          "value": repr(v), "expected": repr(w), "r": r.tolist(), "m": d.tolist()})
        if res == "ok":
            ctx.neg("value", rec, v=num(float(v) * 1.0001 + 0.001))
            ctx.neg("rejected", rec, res="ValueError")
    # valid and invalid blocks
    for _ in range(ctx.share(30, 300)):
        n, m = rng.randint(9, 20), rng.randint(9, 20)
        lo = min(n, m)
        bs = rng.choice([0, -1, -3, lo + 1, lo + 4, max(n, m), max(n, m) + 1, 2, 3, (lo - 1) // 2,
                         (lo - 1) // 2])
        ov = rng.choice([-1, -10, 100, 120, 101, 0, 1, 50, 75, 90, 99, 33])
        if rng.random() < 0.5 and not 0 <= ov < 100:
            bs = max(2, min(bs, (lo - 1) // 2))
        if bs > 0 and not lo > 2 * bs and bs <= lo:
            continue
        r = M.smooth(npr, (n, m), 10, 245)
        d = M.distorted(npr, r)
        if rng.random() < 0.7:
            res, v = outcome(viqa.MAD().score, r, d, block_size=bs, block_overlap=ov / 100)
        else:
            res, v = outcome(viqa.MAD().score, np.stack([r, r], 2), np.stack([d, d], 2),
                             dim=2, im_slice=1, block_size=bs, block_overlap=ov / 100)
        rec = ctx.ev("take", n=n, m=m, bs=bs, ov=ov, res=res,
                     _in={"shape": [n, m], "block_size": bs, "block_overlap": ov / 100,
                          "outcome": res})
        ctx.neg("flipped", rec, res="ValueError" if res == "ok" else "ok")
    # memory
    libc = ctypes.CDLL(None)
    if hasattr(libc, "mallinfo2"):
        class Info(ctypes.Structure):
            _fields_ = [(f, ctypes.c_size_t) for f in (
                "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                "fordblks", "keepcost")]
        libc.mallinfo2.restype = Info

        def used():
            gc.collect()
            i = libc.mallinfo2()
            return i.uordblks + i.hblkhd
        for t in ("C", "F", "int", "wide"):
            a = npr.random((40, 30) if t != "F" else (30, 40))
            a = np.asfortranarray(a) if t == "F" else (a * 200).astype(np.int16) if t == "int" else a
            if t == "wide":
                a = a.T.copy()
            b = a.copy()
            for f in (ext.getstatistics, ext.minstd):
                for _ in range(50):
                    f(a, 5, 3)
                refs = sys.getrefcount(a)
                u = used()
                for _ in range(1500):
                    f(a, 5, 3)
                grown = max(0, used() - u)
                out = f(a, 5, 3)
                kept = sys.getrefcount(a) - refs
                o = out[0] if isinstance(out, tuple) else out
                del out
                kept += sys.getrefcount(o) - 2
                rec = ctx.ev("memory", grown=min(grown, 10**9), kept=abs(kept),
                             same=bool(np.array_equal(a, b)),
                             _in={"function": f.__name__, "layout": t, "calls": 1500,
                                  "grown_bytes": grown, "references_kept": kept})
                ctx.neg("leak", rec, grown=96000)
                ctx.neg("reference", rec, kept=1)
    # bounds
    if ctx.shard == 0 or ctx.thorough:
        jobs = [[c["n"], c["m"], c["bs"], c["st"], rng.randrange(4)] for c in ctx.cases["blocks"]
                if ctx.thorough or c["n"] * c["m"] < 400]
        jobs += [[n, m, bs, st, 0] for n, m in ((16, 16), (33, 20), (17, 40), (64, 16))
                 for bs in (5, 8, 16) for st in (1, 3, bs // 2, bs - 1, bs) if bs <= min(n, m)]
        if not ctx.thorough:
            jobs = rng.sample(jobs, min(400, len(jobs)))
        x = asan(ctx, jobs)
        if x is not None:
            rec = ctx.ev("bounds", clean=x[0], _in={"cases": len(jobs), "report": x[1]})
            ctx.neg("overflow", rec, clean=False)
