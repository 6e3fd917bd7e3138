"""C31: computations at the same time give what each gives alone."""

import copy
import itertools
import os
import sys
import threading

import numpy as np
import skimage.io
import torch

from harness import metrics as M
from harness import reprs as R
from harness.lib import exc_class, num

CHROM = ["RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"]


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    if isinstance(v, np.ndarray) and v.ndim:
        return [num(float(x)) for x in (v.mean(dtype=np.float64), v.min(), v.max(), v.flat[-1])]
    return [num(v)]


def text(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {text(x[k])}" for k in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple, np.ndarray)):
        return str(np.asarray(x).tolist())
    return str(x)


class Conductor:
    """Lets threads go on one after another as a schedule says."""

    PATIENCE = 1.5

    def __init__(self, sched, cuts, src):
        self.sched, self.cuts, self.src = list(sched), cuts, src
        self.cond = threading.Condition()
        self.free = False           # somebody waits for something else than his turn

    def wait(self, p):
        with self.cond:
            while not self.free and self.sched and self.sched[0] != p:
                if not self.cond.wait(self.PATIENCE):
                    self.free = True
                    self.cond.notify_all()

    def next(self, p, done=False):
        with self.cond:
            if self.sched and self.sched[0] == p:
                self.sched.pop(0)
            if done:
                self.sched = [q for q in self.sched if q != p]
            self.cond.notify_all()

    def body(self, p, job, out):
        cuts, n = set(self.cuts[p]), 0

        def line(frame, event, arg):
            nonlocal n
            if event == "line":
                n += 1
                if n in cuts:
                    self.next(p)
                    self.wait(p)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(self.src) else None

        self.wait(p)
        sys.settrace(call)
        try:
            out[p] = job()
        finally:
            sys.settrace(None)
            self.next(p, True)

    def run(self, jobs):
        out = {}
        ts = [threading.Thread(target=self.body, args=(p, j, out), daemon=True)
              for p, j in enumerate(jobs, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
        return [out.get(p) for p in range(1, len(jobs) + 1)]


def lines_of(job, src):
    """The lines of the library a job goes through, in order."""
    seq = []

    def line(frame, event, arg):
        if event == "line":
            seq.append((frame.f_code.co_filename, frame.f_lineno))
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(src) else None
    t = threading.Thread(target=lambda: (sys.settrace(call), job(), sys.settrace(None)))
    t.start()
    t.join()
    return seq


def jobs_of(ctx):
    """[(family, description, job)]: a job gives outcome, values, what is remembered."""
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    d = ctx.tmp("f")
    store = R.Store(d, rng)
    jobs = []

    def add(family, what, f):
        def job():
            try:
                v, mem, state = f()
                return {"res": "ok", "v": flat(v), "mem": flat(mem), "state": state}
            except Exception as e:  # noqa: BLE001
                return {"res": exc_class(e), "v": [], "mem": [], "state": ""}
        jobs.append((family, what, job))

    def metric(n, imgs, ctor, prm, what):
        def f():
            mt = M.make(viqa, n, **ctor)
            v = mt.score(*imgs, **copy.deepcopy(prm))
            return v, mt.score_val, text(mt.parameters)
        add(n, f"{n} {what} {ctor} {prm}", f)

    sizes = [(46, 44), (60, 52)]
    pairs = [M.visible(npr, M.smooth(npr, s)) for s in sizes]
    vols = [M.visible(npr, M.smooth(npr, s)) for s in ((46, 48, 2), (45, 44, 4))]
    thick = [M.visible(npr, M.smooth(npr, s)) for s in ((12, 13, 14), (15, 12, 11))]
    cols = [tuple(np.stack([x, y, x // 2 + y // 2], -1) for x, y in (p, p[::-1])) for p in pairs]
    for n in M.FR:
        more = M.MORE[n]
        for prm in [more[0], *rng.sample(more[1:], min(len(more) - 1, ctx.scale(2, 9)))]:
            metric(n, rng.choice(pairs), {}, prm, "plane")
        metric(n, pairs[0], {"data_range": 255, "normalize": True}, more[0], "normalized")
        metric(n, pairs[1], {}, rng.choice(more), "plane")
        metric(n, pairs[1], {"roi": [(1, 50), (2, 48)]}, more[0], "region")
        if n in M.SLICED:
            v = rng.choice(vols)
            metric(n, v, {}, {**more[0], "dim": 2, "im_slice": 1}, "slice")
            metric(n, vols[0], {}, {**more[0], "dim": 2}, "volume")
        elif n in ("SSIM", "UQI"):
            for v in thick:
                metric(n, v, {}, {"win_size": 5, **({"gaussian_weights": False} if n == "SSIM" else {})},
                       "volume")
        metric(n, cols[0], {}, more[0], "colour to grey")
        if n in CHROM:
            for c in cols:
                metric(n, c, {"chromatic": True},
                       {**more[0], **({"color_weights": [0.2, 0.3, 0.5]} if n == "SSIM" else {})},
                       "colour")
        metric(n, (pairs[0][0], pairs[1][1]), {}, more[0], "mismatch")
        f = [store.file(x, "png") for x in pairs[0]]
        metric(n, f, {}, more[0], "files")
    for n in ("SNR", "CNR"):
        for prm in M.MORE[n]:
            metric(n, (rng.choice(pairs)[0],), {}, prm, "plane")
        prm = {"signal_center": (6, 6, 6), "radius": 3, "region_type": "spherical"}
        if n == "CNR":
            prm["background_center"] = (4, 6, 5)
        for v in thick:
            metric(n, (v[1],), {}, prm, "volume")

    def loading(a, kind, kw):
        p = store.file(a, kind) if kind else None

        def f():
            x = np.asarray(viqa.load_data(p or a, **kw))
            return x, list(x.shape), R.digest(x) + str(x.dtype)
        add("load", f"load {kind} {a.shape} {a.dtype} {kw}", f)
    for a in (vols[0][0], thick[0][0], thick[1][1], vols[1][1].astype(np.uint16),
              thick[1][0].astype(np.float32), thick[0][1].astype(np.float64)):
        for kind in [k for k in R.file_kinds(a) if k != "tiff"]:
            loading(a, kind, rng.choice([{}, {"normalize": True, "data_range": 1}]))
    for a in (pairs[0][0], pairs[1][1], cols[0][0]):
        loading(a, "png", {})
        loading(a, None, {"normalize": True, "data_range": rng.choice([1, 65535])})
    loading(thick[0][0], None, {"roi": [(1, 5), (2, 9), (0, 7)]})

    def stats(a):
        def f():
            x = viqa.ImageArray(a)
            return x.describe(), [x.mean(), x.std()], ""
        add("stats", f"stats {a.shape}", f)
    for a in (pairs[0][0], pairs[1][0], thick[0][1], pairs[1][1].astype(np.float64)):
        stats(a)

    files = itertools.count()

    def written(b):
        name = f"out{next(files)}.csv"          # every computation has its own file
        b.export_results(file_path=d, file_name=name)
        with open(os.path.join(d, name)) as f:
            s = f.read()
        os.remove(os.path.join(d, name))
        return s

    def several(j, rows):
        names = []
        for i, a in enumerate((pairs[0][0], pairs[0][1], pairs[1][0], pairs[1][1])):
            p = os.path.join(d, f"b{j}_{i}.png")
            skimage.io.imsave(p, a, check_contrast=False)
            names.append(os.path.basename(p))
        lst = os.path.join(d, f"pairs{j}.csv")
        with open(lst, "w") as f:
            f.write("reference_image,modified_image\n" +
                    "".join(f"{names[r]},{names[m]}\n" for r, m in rows))
        c = (10 + 3 * j, 12)

        def made():
            return ([viqa.RMSE(), viqa.SNR(), viqa.PSNR(data_range=255)],
                    [{}, {"signal_center": c, "radius": 3 + j, "region_type": "cubic"}, {}])

        def batch():
            b = viqa.BatchMetrics(d, lst, *made())
            v = b.calculate()
            return v, [m.score_val for m in b.metrics], written(b)
        add("batch", f"batch {rows}", batch)

        def multi():
            b = viqa.MultipleMetrics(*made())
            v = b.calculate(pairs[j % 2][0], pairs[j % 2][1])
            return v, [m.score_val for m in b.metrics], written(b)
        add("batch", f"multi {j}", multi)
    several(0, [(0, 1), (0, 1), (2, 3)])
    several(1, [(2, 3), (0, 3), (2, 0)])
    several(2, [(1, 1), (0, 1)])

    from viqa.utils import gabor_convolve
    for kw in ({"scales_num": 3, "orientations_num": 2}, {"scales_num": 2, "orientations_num": 4}):
        for p in pairs:
            def f(p=p, kw=kw):
                g = gabor_convolve(p[0], min_wavelength=3, wavelength_scaling=3, bandwidth_param=0.55,
                                   d_theta_on_sigma=1.5, **kw)
                return [[np.abs(x) for x in row] for row in g], [], str(len(g))
            add("filters", f"gabor {kw} {p[0].shape}", f)
    return jobs


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng
    torch.set_num_threads(1)
    src = os.path.realpath(os.path.dirname(viqa.__file__))
    src2 = os.path.dirname(viqa.__file__)
    assert src == os.path.realpath(src2)
    stderr, stdout = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = open(os.devnull, "w")
    try:
        _run(ctx, viqa, rng, src2)
    finally:
        sys.stderr, sys.stdout = stderr, stdout


def _run(ctx, viqa, rng, src):
    jobs = jobs_of(ctx)
    facts, route = [], []
    for fam, what, job in jobs:
        alone = job()
        facts.append(ctx.fact(what=what, **alone))
        route.append(None)
    of = {}
    for i, (fam, _, _) in enumerate(jobs):
        of.setdefault(fam, []).append(i)

    def path(i):
        if route[i] is None:
            seq = lines_of(jobs[i][2], src)
            at = {}
            for k, x in enumerate(seq, 1):
                at.setdefault(x, []).append(k)
            route[i] = list(at.items())
        return route[i]

    def event(idx, out, sched, phases, where, src_):
        lost = {"res": "lost", "v": [], "mem": [], "state": ""}
        rec = ctx.ev("run", alone=[facts[i] for i in idx], out=[o or lost for o in out],
                     sched=sched, phases=phases,
                     _in={"jobs": [jobs[i][1] for i in idx], "schedule": sched, "stops": where,
                          "source": src_})
        ok = [p for p, o in enumerate(out) if o and o["res"] == "ok" and o["v"] and o["v"][0]["k"] == "n"]
        if ok:
            p = rng.choice(ok)
            bad = [dict(o or lost) for o in out]
            bad[p] = {**bad[p], "v": [num(-98765.4), *bad[p]["v"][1:]]}
            ctx.neg("result", rec, out=bad)
            bad = [dict(o or lost) for o in out]
            bad[p] = {**bad[p], "mem": [num(-98765.4)]}
            ctx.neg("remembered", rec, out=bad)
            bad = [dict(o or lost) for o in out]
            bad[p] = {**bad[p], "state": "?"}
            ctx.neg("state", rec, out=bad)
            bad = [dict(o or lost) for o in out]
            bad[p] = {**lost, "res": "ValueError"}
            ctx.neg("outcome", rec, out=bad)
            ctx.neg("lost", rec, out=out[:-1])

    def conduct(idx, case, first=None, src_="model"):
        """Run jobs idx by a schedule; first: where job 0 stops first."""
        cuts, where = {}, {}
        for p, i in enumerate(idx, 1):
            at = path(i)
            k = case["phases"] - 1
            picks = rng.sample(at, min(k, len(at)))
            if p == 1 and first is not None and picks:
                picks[0] = first
            c = sorted({rng.choice(x[1]) for x in picks})
            cuts[p] = c
            where[p] = [f"{os.path.basename(x[0][0])}:{x[0][1]}" for x in picks]
        out = Conductor(case["sched"], cuts, src).run([jobs[i][2] for i in idx])
        event(idx, out, case["sched"], case["phases"], where, src_)

    two = [c for c in ctx.cases["two"] if c["revealing"]]
    others = [c for c in ctx.cases["two3"] + ctx.cases["three"] if c["revealing"]]
    serial = [c for c in ctx.cases["two3"] + ctx.cases["three"] if not c["revealing"]]

    def partner(i, x=None):
        """Another computation; with x often one that comes through that line, too."""
        if x is not None and rng.random() < 0.6:
            for j in rng.sample(of[jobs[i][0]], len(of[jobs[i][0]])):
                if j != i and any(y[0] == x[0] for y in path(j)):
                    return j
        fam = [j for j in of[jobs[i][0]] if j != i]
        return rng.choice(fam) if fam and rng.random() < 0.75 else rng.randrange(len(jobs))

    # every line of the library as the place where a computation is interrupted
    simple = [c for c in two if c["sched"][0] == 1 and c["sched"][-1] == 1]
    budget = ctx.share(2200, 30000)
    todo = [(i, x) for i in range(len(jobs)) for x in path(i)]
    rng.shuffle(todo)
    # lines few jobs go through come first
    seen, rare, rest = set(), [], []
    for i, x in todo:
        key = (jobs[i][0], x[0])
        (rest if key in seen else rare).append((i, x))
        seen.add(key)
    rare = ctx.mine(rare)
    for i, x in (rare + rest)[:max(budget, len(rare))]:
        conduct([i, partner(i, x)], rng.choice(simple), x, "line")
    # the schedules of the model
    for c in ctx.mine(others) + rng.sample(serial, min(2, len(serial))):
        for _ in range(ctx.scale(1, 10)):
            i = rng.randrange(len(jobs))
            idx = [i] + [partner(i) for _ in range(c["n"] - 1)]
            conduct(idx, c)
    # threads left to themselves
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for _ in range(ctx.share(24, 300)):
            i = rng.randrange(len(jobs))
            idx = [i] + [partner(i) for _ in range(rng.randint(1, 5))]
            outs = [[] for _ in idx]

            def work(p, i):
                for _ in range(4):
                    outs[p].append(jobs[i][2]())
            ts = [threading.Thread(target=work, args=(p, i)) for p, i in enumerate(idx)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for r in range(4):
                event(idx, [o[r] if r < len(o) else None for o in outs], [], 0, {}, "free")
    finally:
        sys.setswitchinterval(old)
