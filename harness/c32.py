"""C32: calls that are interrupted or fail leave no trace; finished calls neither."""

import contextlib
import copy
import csv
import gc
import hashlib
import io
import itertools
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import skimage.io
import torch

from harness import metrics as M
from harness import reprs as R
from harness.lib import exc_class, num

CHROM = ["RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"]
NONE = [num(None)]


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    if isinstance(v, np.ndarray) and v.ndim:
        return [num(float(x)) for x in (v.mean(dtype=np.float64), v.min(), v.max(), v.flat[-1])]
    if isinstance(v, str):
        return [num(int(hashlib.sha1(v.encode()).hexdigest()[:12], 16))]
    return [num(v)]


def text(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {text(x[k])}" for k in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ", ".join(text(y) for y in x) + ")"
    if isinstance(x, torch.Tensor):
        return "tensor " + R.digest(x.numpy())
    if isinstance(x, np.ndarray):
        return f"{x.dtype}{x.shape}{R.digest(np.asarray(x))}"
    return f"{type(x).__name__} {x!r}"


def sha(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:10]


def fds():
    return len(os.listdir("/proc/self/fd"))


class Process:
    """What the whole process shares."""

    def __init__(self):
        """Before the library has done anything."""
        matplotlib.rcParams["figure.dpi"] = 97.0
        matplotlib.rcParams["savefig.pad_inches"] = 0.11
        self.at = os.getcwd()
        self.env = dict(os.environ)
        self.rc = dict(matplotlib.rcParams)
        self.torch = torch.get_default_dtype(), torch.is_grad_enabled()
        self.locale = locale.setlocale(locale.LC_ALL)
        self.logging = logging.getLogger().level
        self.csv = csv.field_size_limit()
        self.sigint = signal.getsignal(signal.SIGINT)
        self.fd = fds()

    def unusual(self, rng):
        """Settings nobody would choose, so that setting any of them is seen."""
        os.chdir(self.at)
        os.environ.clear()
        os.environ.update(self.env)
        dict.update(matplotlib.rcParams, self.rc)
        torch.set_default_dtype(self.torch[0])
        torch.set_grad_enabled(self.torch[1])
        torch.use_deterministic_algorithms(False)
        locale.setlocale(locale.LC_ALL, self.locale)
        logging.getLogger().setLevel(self.logging)
        csv.field_size_limit(self.csv)
        signal.signal(signal.SIGINT, self.sigint)
        np.seterrcall(None)
        gc.enable()
        sys.setswitchinterval(0.005)
        k = rng.randrange(10**9)
        random.seed(k)
        np.random.seed(k)
        torch.manual_seed(k)
        np.seterr(**{x: rng.choice(["ignore", "warn"])
                     for x in ("divide", "over", "under", "invalid")})
        np.set_printoptions(precision=rng.randint(4, 12))
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        warnings.filterwarnings("ignore", message=f"nothing {k}")
        os.environ["VERIF_SEEN"] = str(k)
        sys.setrecursionlimit(rng.randint(3000, 4000))
        matplotlib.rcParams["lines.linewidth"] = rng.uniform(1, 2)
        matplotlib.rcParams["figure.max_open_warning"] = rng.randint(30, 60)
        self.first = self.look()

    @staticmethod
    def look():
        mask = os.umask(0o22)
        os.umask(mask)
        return {
            "numpy error handling": str(np.geterr()) + str(np.geterrcall()),
            "numpy print options": str(np.get_printoptions()),
            "numpy random numbers": sha([str(x) for x in np.random.get_state()]
                                        + [np.random.get_state()[1].tobytes()]),
            "random numbers": sha(random.getstate()),
            "torch random numbers": sha(torch.random.get_rng_state().numpy().tobytes()),
            "torch settings": str((torch.get_default_dtype(), torch.is_grad_enabled(),
                                   torch.get_num_threads(),
                                   torch.are_deterministic_algorithms_enabled())),
            "warning filters": str([(f[0], str(f[1]), f[2], str(f[3]), f[4])
                                    for f in warnings.filters]),
            "working directory": os.getcwd(),
            "environment": sha(sorted(os.environ.items())),
            "standard output": str((id(sys.stdout), id(sys.stderr))),
            "interpreter": str((sys.getrecursionlimit(), sys.getswitchinterval(),
                                gc.isenabled(), mask, locale.setlocale(locale.LC_ALL),
                                logging.getLogger().level, csv.field_size_limit(),
                                str(signal.getsignal(signal.SIGINT)))),
            "matplotlib settings": sha(sorted((k, str(v)) for k, v in matplotlib.rcParams.items()))
            + matplotlib.get_backend(),
        }

    def changed(self):
        now = self.look()
        bad = [k for k in now if now[k] != self.first[k]]
        if bad:
            self.first = now                       # reported once
        if fds() != self.fd:
            gc.collect()
            n = fds()
            if n > self.fd:
                bad.append("open files")
            self.fd = n
        return bad


class Cut:
    """Raises an exception before the n-th line of the library that is run."""

    def __init__(self, src, n, exc):
        self.src, self.n, self.exc, self.hit = src, n, exc, None

    def line(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n == 0:
                self.hit = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                sys.settrace(None)
                raise self.exc("cut off")
        return self.line

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.src) else None

    def run(self, f):
        sys.settrace(self.call)
        try:
            return f()
        finally:
            sys.settrace(None)


def lines_of(f, src):
    seq = []

    def line(frame, event, arg):
        if event == "line":
            seq.append((frame.f_code.co_filename, frame.f_lineno))
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(src) else None
    sys.settrace(call)
    try:
        f()
    except Exception:  # noqa: BLE001
        pass
    finally:
        sys.settrace(None)
    at = {}
    for k, x in enumerate(seq, 1):
        at.setdefault(x, []).append(k)
    return list(at.items())


def timeless(f):
    return [x for x in f.read().splitlines() if not x.startswith(b"Time: ")]


class Kind:
    """A kind of object: how to make one, its calls, what it remembers."""

    def __init__(self, name, make, mem, calls, hold):
        self.name, self.make, self.mem, self.calls, self.hold = name, make, mem, calls, hold
        self.facts, self.routes = {}, {}


def attempt(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return {"res": "ok", "v": flat(f())}
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            return {"res": type(e).__name__, "v": []}
        return {"res": exc_class(e), "v": []}


def kinds_of(ctx, d, outd):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    store = R.Store(d, rng)
    kinds = []
    pairs = [M.visible(npr, M.smooth(npr, s)) for s in ((46, 44), (52, 48))]
    vols = [M.visible(npr, M.smooth(npr, s)) for s in ((46, 48, 2), (45, 44, 4))]
    thick = [M.visible(npr, M.smooth(npr, s)) for s in ((12, 13, 14), (15, 12, 11))]
    cols = [tuple(np.stack([x, y, x // 2 + y // 2], -1) for x, y in (p, p[::-1])) for p in pairs]
    flat16 = [p.astype(np.uint16) * 200 for p in pairs[0]]
    floats = [p.astype(np.float64) / 255 for p in pairs[1]]
    hold = {"pairs": pairs, "vols": vols, "thick": thick, "cols": cols, "f": floats, "u": flat16}

    def metric(n, ctor, calls):
        def one(imgs, prm):
            return lambda o: [o.score(*imgs, **prm), text(o.parameters) if n in M.FR else ""]
        kinds.append(Kind(
            f"{n} {ctor}", lambda: M.make(viqa, n, **ctor), lambda o: [[num(o.score_val)]],
            [(f"{w} {p}", one(i, p)) for w, i, p in calls],
            [*hold.values(), ctor, [p for _, _, p in calls]]))

    for n in M.FR:
        more = M.MORE[n]
        calls = [("plane", pairs[0], more[0]), ("plane", pairs[1], rng.choice(more)),
                 ("files", [store.file(x, "png") for x in pairs[0]], more[0]),
                 ("16 bit", flat16, more[0]), ("colour to grey", cols[0], more[0]),
                 ("mismatch", (pairs[0][0], pairs[1][1]), more[0])]
        if n in M.SLICED:
            calls += [("slice", vols[0], {**more[0], "dim": 2, "im_slice": 1}),
                      ("volume", vols[1], {**more[0], "dim": 2})]
        elif n in ("SSIM", "UQI"):
            calls.append(("volume", thick[0], {"win_size": 5, **(
                {"gaussian_weights": False} if n == "SSIM" else {})}))
        if n == "MSSSIM":
            calls.append(("tensor weights", pairs[0], {
                "kernel_size": 3, "scale_weights": torch.tensor([0.4, 0.9])}))
        if n == "MAD":
            calls.append(("array weights", pairs[0], {
                "block_size": 8, "weights": np.array([0.5, 0.75, 1.0, 5.0, 6.0])}))
        metric(n, {}, calls)
        metric(n, {"data_range": 255, "normalize": True}, [("plane", floats, more[0]),
                                                             ("plane", flat16, more[0])])
        metric(n, {"roi": [(1, 46), (0, 44)]}, [("plane", pairs[1], more[0])])
        if n in CHROM:
            p = {**more[0], **({"color_weights": [0.2, 0.3, 0.5]} if n == "SSIM" else {})}
            metric(n, {"chromatic": True}, [("colour", cols[1], p), ("plane", pairs[0], p)])
    for n in ("SNR", "CNR"):
        calls = [("plane", (rng.choice(pairs)[0],), p) for p in M.MORE[n]]
        prm = {"signal_center": (6, 6, 6), "radius": 3, "region_type": "spherical"}
        if n == "CNR":
            prm["background_center"] = (4, 6, 5)
        calls += [("volume", (v[1],), prm) for v in thick]
        for w, i, p in calls:
            # what is not given is remembered: one kind of call per object
            metric(n, {}, [(w, i, p)])

    def plain(name, f):
        kinds.append(Kind(name, lambda: None, lambda o: [], [(name, lambda o: f())],
                          list(hold.values())))

    for a in (vols[0][0], thick[1][1], vols[1][1].astype(np.uint16), thick[1][0].astype(np.float32),
              thick[0][1].astype(np.float64), pairs[1][0], cols[0][0]):
        for kind in R.file_kinds(a):
            p, kw = store.file(a, kind), rng.choice([{}, {"normalize": True, "data_range": 1}])

            def load(p=p, kw=kw):
                x = np.asarray(viqa.load_data(p, **kw))
                return [x, R.digest(x)]
            plain(f"load {kind} {kw}", load)
    for a, kw in ((floats[0], {"normalize": True, "data_range": 65535}),
                  (flat16[0], {"normalize": True, "data_range": 1}),
                  (thick[0][0], {"roi": [(1, 5), (2, 9), (0, 7)]})):
        def load(a=a, kw=kw):
            x = np.asarray(viqa.load_data(a, **kw))
            return [x, R.digest(x)]
        plain(f"load array {kw}", load)

    ATTR = ("mean_value", "median", "variance", "standarddev", "skewness", "kurtosis",
            "minimum", "maximum")
    for a in (pairs[0][0], thick[0][1], floats[0]):
        kinds.append(Kind(
            f"statistics {a.shape} {a.dtype}", lambda a=a: viqa.ImageArray(a.copy()),
            lambda o: [flat(getattr(o, x, None)) if not isinstance(getattr(o, x, None), str)
                       else NONE for x in ATTR],
            [("statistics", lambda o: [o.calculate_statistics(), *[getattr(o, x) for x in ATTR]])],
            list(hold.values())))
        kinds.append(Kind(f"arithmetic {a.shape} {a.dtype}", lambda a=a: viqa.ImageArray(a.copy()),
                          lambda o: [[num(float(np.asarray(o, np.float64).sum()))]],
                          [("add", lambda o: np.asarray(o + 1)),
                           ("compare", lambda o: np.asarray(o > 7).astype(int)),
                           ("mean", lambda o: [o.mean(), o.max()])], list(hold.values())))

    nfile = itertools.count()

    def content(*names):
        res = []
        for n in names:
            with open(n) as f:
                res.extend(x for x in f if not x.startswith("Time: "))
            os.remove(n)
        return "".join(res)

    names = []
    for i, a in enumerate((pairs[0][0], pairs[0][1], pairs[1][0], pairs[1][1])):
        p = os.path.join(d, f"b{i}.png")
        skimage.io.imsave(p, a, check_contrast=False)
        names.append(os.path.basename(p))
    rois = [[(0, 44), (0, 44)]] * 3
    for j, rows in enumerate(([(0, 1), (0, 1), (2, 3)], [(2, 3), (0, 3), (2, 0)])):
        lst = os.path.join(d, f"pairs{j}.csv")
        with open(lst, "w") as f:
            f.write("reference_image,modified_image\n" +
                    "".join(f"{names[r]},{names[m]}\n" for r, m in rows))

        def mets():
            ms = [viqa.RMSE(), viqa.SNR(), viqa.SSIM(data_range=255)]
            return ms, [{}, {"signal_center": (12, 12), "radius": 4, "region_type": "cubic"}, {}]

        def batch(lst=lst, j=j):
            return viqa.BatchMetrics(d, lst, *mets(), rois=rois if j else None)

        def bmem(o, n=len(rows)):
            return [flat(list(o.results[str(i)].values())) if str(i) in o.results else NONE
                    for i in range(n)]

        def report(o):
            o.calculate()
            o.report(csv=True, metadata=True, file_path=outd, project_name="r")
            return content(*(os.path.join(outd, x) for x in ("r_results.csv", "r_metadata.txt")))
        kinds.append(Kind(f"batch {j}", batch, bmem, [
            ("batch", lambda o: [o.calculate(), [m.score_val for m in o.metrics]]),
            ("batch with region", lambda o: o.calculate(roi=[(0, 44), (2, 44)])),
            ("batch and report", report)], [*hold.values(), rois]))
    multi = [([pairs[0][0], pairs[0][1]], {}), ([pairs[1][0], pairs[0][1]], {}),
             ([floats[0], floats[1]], {"normalize": True, "data_range": 255}),
             ([pairs[1][0], pairs[1][1]], {"roi": [(0, 44), (2, 44)]})]

    def msev(imgs, kw):
        return lambda o: [o.calculate(*imgs, **kw), [m.score_val for m in o.metrics]]

    def mreport(o):
        o.calculate(*pairs[0])
        o.report(csv=True, metadata=True, file_path=outd, project_name="m")
        return content(*(os.path.join(outd, x) for x in ("m_results.csv", "m_metadata.txt")))
    kinds.append(Kind(
        "several metrics", lambda: viqa.MultipleMetrics(*mets()),
        lambda o: [flat(list(o.results.values())) or NONE],
        [*[(f"several {kw}", msev(i, kw)) for i, kw in multi], ("several and report", mreport)],
        [*hold.values(), multi]))

    def export():
        ms = [viqa.RMSE(), viqa.PSNR(), viqa.SNR()]
        ms[0].score(*pairs[0])
        ms[1].score(*pairs[1])
        n = f"e{next(nfile)}.csv"
        viqa.export_results(ms, outd, n)
        return content(os.path.join(outd, n))
    plain("export results", export)

    def picture():
        p = os.path.join(outd, "c.png")
        viqa.export_image({"RMSE": 2.5}, *pairs[0], file_path=outd, file_name="c.png", dpi=20,
                          show_image=False)
        plt.close("all")
        x = skimage.io.imread(p)
        os.remove(p)
        return x
    plain("comparison image", picture)

    def view(m, p):
        def f():
            o = M.make(viqa, m)
            o.score(pairs[0][0], **p)
            o.visualize_centers(pairs[0][0], dpi=20)
            n = len(plt.get_fignums())
            plt.close("all")
            return n
        return f
    for m in ("SNR", "CNR"):
        plain(f"view {m}", view(m, M.MORE[m][0]))

    from viqa.utils import correlate_convolve_abs, find_largest_region, gabor_convolve

    def gabor():
        g = gabor_convolve(pairs[0][0], scales_num=2, orientations_num=2, min_wavelength=3,
                           wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5)
        return [[np.abs(x) for x in row] for row in g]
    plain("gabor", gabor)
    plain("kernel", lambda: correlate_convolve_abs(thick[0][0], np.ones((3, 3, 3))))

    def region():
        c, r, x = find_largest_region(np.asarray(pairs[0][0] > pairs[0][0].mean()), iterations=1)
        return [c, r, float(np.ma.sum(x))]
    plain("largest region", region)

    def fuse():
        ms = [viqa.RMSE(), viqa.PSNR()]
        for m in ms:
            m.score(*pairs[0])
        return viqa.fuse_metrics_linear_combination(ms, [0.5, 2.0])
    plain("fusion", fuse)
    return kinds


def run(ctx):
    viqa = ctx.viqa
    torch.set_num_threads(1)
    src = os.path.dirname(viqa.__file__)
    old = os.getcwd(), tempfile.tempdir, sys.stderr
    cwd, tmp = ctx.tmp("cwd"), ctx.tmp("tmp")
    os.chdir(cwd)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    sys.stderr = open(os.devnull, "w")
    hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
    try:
        _run(ctx, src, cwd, tmp)
    finally:
        os.chdir(old[0])
        tempfile.tempdir = old[1]
        sys.stderr = old[2]
        sys.unraisablehook = hook


def _run(ctx, src, cwd, tmp):
    rng = ctx.rng
    d, outd = ctx.tmp("f"), ctx.tmp("o")
    kinds = kinds_of(ctx, d, outd)
    proc = Process()
    for kd in kinds:                       # everything imported and opened once
        for c in range(len(kd.calls)):
            attempt(lambda kd=kd, c=c: kd.calls[c][1](kd.make()))
    proc.fd = fds()
    proc.unusual(rng)
    inputs = {id(kd): text(kd.hold) for kd in kinds}

    def left():
        return sorted(os.path.relpath(os.path.join(b, x), os.path.dirname(cwd))
                      for top in (cwd, tmp) for b, ds, fs in os.walk(top) for x in fs)

    def fact(kd, c):
        if c not in kd.facts:
            o = kd.make()
            res = attempt(lambda: kd.calls[c][1](o))
            kd.facts[c] = (ctx.fact(what=kd.calls[c][0], **res, mem=kd.mem(o)), res)
        return kd.facts[c][0]

    def route(kd, c):
        if c not in kd.routes:
            o = kd.make()
            kd.routes[c] = lines_of(lambda: kd.calls[c][1](o), src)
        return kd.routes[c]

    class History:
        def __init__(self, kds, why):
            self.kds, self.why, self.log = kds, why, []
            proc.unusual(rng)
            self.objs = [kd.make() for kd in kds]
            ctx.ev("new", mems=self.mems(), cut=True)

        def mems(self):
            return [kd.mem(o) for kd, o in zip(self.kds, self.objs)]

        def call(self, o, c, n=0, exc=KeyboardInterrupt):
            kd = self.kds[o]
            f = fact(kd, c)
            cut = Cut(src, n, exc)

            def body():
                return kd.calls[c][1](self.objs[o])
            out = attempt(lambda: cut.run(body)) if n else attempt(body)
            hit = exc.__name__ if cut.hit else ""
            if hit:
                plt.close("all")
            self.log.append(f"{kd.name}: {kd.calls[c][0]}" + (f" {hit} at {cut.hit}" if hit else ""))
            now = text(kd.hold)
            same = [] if now == inputs[id(kd)] else ["changed"]
            inputs[id(kd)] = now
            # every kind holds the same images
            lost = left()
            for x in lost:
                os.remove(os.path.join(os.path.dirname(cwd), x))
            bad = proc.changed()
            rec = ctx.ev("call", o=o + 1, fact=f, cut_by=hit, out=out, mems=self.mems(),
                         settings=bad, inputs=same, files=lost, cut=False,
                         _in={"objects": [k.name for k in self.kds], "history": list(self.log),
                              "source": self.why})
            self.negs(rec, o, out, hit)
            return bool(hit)

        def negs(self, rec, o, out, hit):
            k = "cut " if hit else "done "
            ctx.neg(k + "settings", rec, settings=["numpy error handling"])
            ctx.neg(k + "inputs", rec, inputs=["changed"])
            bad = [num(-98765.4)]
            for i in range(len(self.kds)):
                if rec["mems"][i]:
                    m = [list(x) for x in rec["mems"]]
                    m[i] = [bad, *m[i][1:]]
                    ctx.neg(k + ("own" if i == o else "other") + " memory", rec, mems=m)
            if not hit:
                if out["res"] == "ok" and out["v"]:
                    ctx.neg("value", rec, out={"res": "ok", "v": bad + out["v"][1:]})
                ctx.neg("outcome", rec, out={"res": "KeyboardInterrupt", "v": []})
                ctx.neg("files", rec, files=["cwd/x"])
            elif hit == "KeyboardInterrupt" and out["res"] == hit:
                ctx.neg("swallowed", rec, out={"res": "ok", "v": []})

    def other(kd):
        return kd if rng.random() < 0.6 else rng.choice(kinds)

    def cut_at(kd, c):
        at = route(kd, c)
        return rng.choice(rng.choice(at)[1]) if at else 0

    # every line of the library as the place where a call ends
    every = [(kd, c, x) for kd in kinds for c in range(len(kd.calls)) for x in route(kd, c)]
    rng.shuffle(every)
    seen, rare, rest = set(), [], []
    for kd, c, x in every:
        (rest if x[0] in seen else rare).append((kd, c, x))
        seen.add(x[0])
    rare = ctx.mine(rare)
    for kd, c, x in (rare + rest)[:max(len(rare), ctx.share(2000, 30000))]:
        h = History([kd, other(kd)], "line")
        exc = rng.choice([KeyboardInterrupt, KeyboardInterrupt, MemoryError])
        if rng.random() < 0.5:
            h.call(0, rng.randrange(len(kd.calls)))
        if rng.random() < 0.5:
            h.call(1, rng.randrange(len(h.kds[1].calls)))
        h.call(0, c, rng.choice([x[1][0], x[1][-1], rng.choice(x[1])]), exc)
        if rng.random() < 0.5:
            h.call(1, rng.randrange(len(h.kds[1].calls)))
        h.call(0, c if rng.random() < 0.7 else rng.randrange(len(kd.calls)))

    # the histories of the model
    cases = [x for x in ctx.cases["short"] + ctx.cases["long"] if x["revealing"]]
    for case in ctx.mine(rng.sample(cases, min(len(cases), ctx.scale(240, len(cases))))):
        a = rng.choice(kinds)
        h = History([a, other(a)], "model")
        for o, at in case["hist"]:
            kd = h.kds[o - 1]
            c = rng.randrange(len(kd.calls))
            n = 0
            if at:
                r = sorted(k for x in route(kd, c) for k in x[1])
                n = r[min(len(r) - 1, int(len(r) * (at - 1 + rng.random()) / (case["phases"] - 1)))] \
                    if r else 0
            h.call(o - 1, c, n, rng.choice([KeyboardInterrupt, MemoryError]))
        for o in (0, 1):
            h.call(o, rng.randrange(len(h.kds[o].calls)))

    # exports that cannot be written
    viqa = ctx.viqa
    ctx.ev("new", mems=[], cut=True)
    a = M.visible(ctx.nprng, M.smooth(ctx.nprng, (46, 44)))
    ms = [viqa.RMSE(), viqa.PSNR()]
    for m in ms:
        m.score(*a)
    mm = viqa.MultipleMetrics(ms, [{}, {}])
    mm.calculate(*a)
    lst = os.path.join(d, "pairs0.csv")
    bm = viqa.BatchMetrics(d, lst, ms, [{}, {}])
    bm.calculate()
    img = viqa.ImageArray(a[0])
    img.calculate_statistics()
    exports = {
        "export_results": (lambda p: viqa.export_results(ms, p, "x.csv"), "x.csv"),
        "export_metadata": (lambda p: viqa.export_metadata(ms, [{}, {}], p, "x.txt"), "x.txt"),
        "metric": (lambda p: ms[0].export_results(p, "x.csv"), "x.csv"),
        "several": (lambda p: mm.export_results(p, "x.csv"), "x.csv"),
        "several report": (lambda p: mm.report(csv=True, metadata=False, text=False, file_path=p,
                                               project_name="x"), "x_results.csv"),
        "batch": (lambda p: bm.export_results(p, "x.csv"), "x.csv"),
        "batch metadata": (lambda p: bm.export_metadata(p, "x.txt"), "x.txt"),
        "batch report": (lambda p: bm.report(csv=True, metadata=False, file_path=p,
                                             project_name="x"), "x_results.csv"),
        "describe": (lambda p: img.describe(p, "x.csv"), "x.csv"),
        "export_image": (lambda p: viqa.export_image({"RMSE": 1.0}, *a, file_path=p,
                                                     file_name="x.png", dpi=20, show_image=False),
                         "x.png"),
    }
    for n, (f, name) in exports.items():
        good = os.path.join(outd, "good")
        os.makedirs(good, exist_ok=True)
        res = attempt(lambda: f(good))
        plt.close("all")
        with open(os.path.join(good, name), "rb") as x:
            want = timeless(x)
        assert res["res"] == "ok" and want, n
        for how in ("full", "missing"):
            p = os.path.join(outd, how + str(next(COUNT)))
            if how == "full":
                os.makedirs(p)
                os.symlink("/dev/full", os.path.join(p, name))
            res = attempt(lambda: f(p))
            plt.close("all")
            file = os.path.join(p, name)
            ok = False
            if os.path.isfile(file):           # not the device
                with open(file, "rb") as x:
                    ok = timeless(x) == want
            rec = ctx.ev("unwritable", res=res["res"], written=ok, settings=proc.changed(),
                         cut=False, _in={"export": n, "target": how})
            ctx.neg("unwritable", rec, res="ok", written=False)


COUNT = itertools.count()
