"""C21: exports of scores and of image statistics; printing."""

import contextlib
import csv
import hashlib
import io
import os
import re
import shutil

import numpy as np
import scipy.stats

from harness import metrics as M
from harness.lib import num, outcome

KEYS = ["mean", "median", "variance", "standarddev", "skewness", "kurtosis",
        "minimum", "maximum"]


def cellnum(s):
    try:
        return num(float(s))
    except ValueError:
        return num(None)


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    d = ctx.tmp("out")

    def clear():
        shutil.rmtree(d)
        os.makedirs(d)

    def listing():
        return {"/": "", **{f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16]
                for f in sorted(os.listdir(d))}}

    def rows(name):
        p = os.path.join(d, name)
        if not os.path.exists(p):
            return []
        return [{"c": r, "v": cellnum(r[-1]) if r else num(None)}
                for r in csv.reader(io.StringIO(open(p, newline="").read(), newline=""))]

    NAMES = ["res", "res.csv", "RES.CSV", "a.b", "x.txt", "out.Csv", "r1", "res.csv.bak",
             "with space", "csv"]

    def final(name):
        return name if name.lower().endswith(".csv") else name + ".csv"

    pairs = [(M.smooth(npr, (46, 45)), M.smooth(npr, (46, 45))) for _ in range(3)]

    def score(m, i):
        r, mo = pairs[i % 3]
        if i % 4 == 3:
            mo = r
        if m.type == "no-reference":
            kw = {"signal_center": (10 + i, 12), "radius": 4, "region_type": "cubic"}
            if m._name == "CNR":
                kw["background_center"] = (20, 20)
            return m.score(mo, **kw)
        n = type(m).__name__
        return m.score(r, mo, **M.FR[n])

    def vals(ms):
        return [num(m.score_val) for m in ms]

    def export(ms, idx, name, single, want):
        if single:
            res, v = outcome(ms[idx[0]].export_results, d, name)
            idx = idx[:1]
            want = False
        elif want:
            res, v = outcome(viqa.export_results, [ms[i] for i in idx], d, name,
                             return_dict=True)
        else:
            res, v = outcome(viqa.export_results, [ms[i] for i in idx], d, name)
        dic = [{"name": k, "text": x if isinstance(x, str) else "", "v": num(
            None if isinstance(x, str) else x)} for k, x in v.items()] if v else []
        rec = ctx.ev("export", idx=[i + 1 for i in idx], file=final(name), res=res,
                     rows=rows(final(name)), hasdict=isinstance(v, dict), wantdict=want,
                     dict=dic, dir=listing(), vals=vals(ms), cut=False,
                     _in={"metrics": [repr(ms[i]) for i in idx], "file": name,
                          "outcome": res})
        rs = rec["rows"]
        if len(rs) > 1:
            ctx.neg("row_missing", rec, rows=rs[:-1])
            ctx.neg("row_value", rec, rows=[*rs[:-1], {**rs[-1], "v": num(1234.5)}])
        ctx.neg("row_extra", rec, rows=[*rs, {"c": ["RMSE", ""], "v": num(None)}])
        ctx.neg("extra_file", rec, dir={**rec["dir"], "other.csv": "0"})
        ctx.neg("scores", rec, vals=[num(42)] * len(ms))
        if dic:
            ctx.neg("dict", rec, dict=dic[:-1])

    def printit(ms, o, dec):
        buf = io.StringIO()
        import warnings
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if dec is None:
                ms[o].print_score()
                dec = 2
            else:
                ms[o].print_score(decimals=dec)
        out = buf.getvalue()
        m = re.match(r"^([\w\- ]+): (\S+)$", out.strip())
        cls = {"MSSSIM": "MS-SSIM"}.get(type(ms[o]).__name__, type(ms[o]).__name__)
        rec = ctx.ev("print", o=o + 1, out="number" if m else ("none" if not out.strip()
                                                               else "other"),
                     name=m.group(1) if m else "", cls=cls,
                     v=cellnum(m.group(2)) if m else num(None), vals=vals(ms), cut=False,
                     abs9=int(0.5 * 10 ** (9 - dec)) + 100,
                     _in={"metric": repr(ms[o]), "decimals": dec, "printed": out.strip(),
                          "warned": bool(ws)})
        if m and rec["v"]["k"] == "n":
            ctx.neg("print", rec, v=num(float(m.group(2)) + 1.1 * 10.0 ** -dec
                                        + abs(float(m.group(2))) * 1e-5))

    def image(kind):
        dt, shape = kind
        a = M.smooth(npr, shape)
        if dt.startswith("float"):
            a = (a / 7 - 10).astype(dt)
        else:
            a = a.astype(dt)
        return a

    def describe(a, path, name):
        img = viqa.ImageArray(a.copy())
        res0, _ = outcome(img.calculate_statistics)
        before = np.asarray(img).copy()
        if path is None:
            res, v = outcome(img.describe) if rng.random() < 0.5 else \
                outcome(img.describe, filename=name)
        elif name is None:
            res, v = outcome(img.describe, path)
        else:
            res, v = outcome(img.describe, path, name)
        x = a.astype(np.float64)
        want = [x.mean(), np.median(x), x.var(), x.std(), scipy.stats.skew(x, axis=None),
                scipy.stats.kurtosis(x, axis=None), x.min(), x.max()]
        f = final(name) if path is not None and name is not None else ""
        rs = rows(f) if f else []
        rec = ctx.ev("describe", res=res if res0 == "ok" else res0, file=f, rows=rs,
                     keys=KEYS, cells=[cellnum(c) for c in rs[1]["c"]] if len(rs) > 1 else [],
                     want=[num(w) for w in want],
                     ret=[num(v.get(k)) if v else num(None) for k in KEYS],
                     same=bool(np.array_equal(before, np.asarray(img))
                               and np.asarray(img).dtype == a.dtype),
                     dir=listing(), cut=False,
                     _in={"dtype": str(a.dtype), "shape": list(a.shape), "file": f})
        if f:
            ctx.neg("stat_cell", rec, cells=[*rec["cells"][:-1], num(-5)])
            ctx.neg("stat_rows", rec, rows=rs[:1])
        else:
            ctx.neg("stat_file", rec, dir={**rec["dir"], "n.csv": "0"})

    def new(ms):
        clear()
        if rng.random() < 0.6:
            with open(os.path.join(d, "res.csv"), "w") as f:
                f.write("old,content\n" * rng.randrange(1, 40))
        ctx.ev("new", vals=vals(ms), names=[m._name for m in ms], dir=listing(), cut=True)

    MK = [lambda k=k: M.make(viqa, k) for k in M.FR if k not in ("MAD", "FSIM")] + [
        lambda: viqa.SNR(), lambda: viqa.CNR()]

    hs = ctx.mine(ctx.cases["hist"])
    rng.shuffle(hs)
    for h in hs[:ctx.share(240, 100000)]:
        ms = [rng.choice(MK)(), rng.choice(MK)()]
        new(ms)
        for op in h:
            o = op["o"] - 1
            if op["op"] == "score":
                score(ms[o], "AB".index(op["i"]) + 2 * rng.randrange(2))
                ctx.ev("score", vals=vals(ms), cut=False)
            elif op["op"] == "fail":
                outcome(ms[o].score, np.zeros((3, 3)), np.zeros((4, 4)))
            elif op["op"] == "print":
                printit(ms, o, rng.choice([None, 0, 1, 3, 5]))
            elif op["op"] == "export":
                idx = rng.choice([[0, 1], [1, 0], [0], [1], [0, 1, 0], []])
                single = bool(idx) and rng.random() < 0.3
                export(ms, idx, rng.choice(NAMES), single, rng.random() < 0.5)

    # all metrics, random subsets
    for _ in range(ctx.share(16, 300)):
        ms = [M.make(viqa, k) for k in M.FR] + [viqa.SNR(), viqa.CNR(), viqa.RMSE()]
        for i, m in enumerate(ms):
            if rng.random() < 0.6:
                score(m, rng.randrange(4))
        new(ms)
        for _ in range(4):
            idx = rng.sample(range(len(ms)), rng.randrange(0, len(ms) + 1))
            export(ms, idx, rng.choice(NAMES), bool(idx) and rng.random() < 0.3,
                   rng.random() < 0.7)
            printit(ms, rng.randrange(len(ms)), rng.choice([None, 0, 4]))

    # image statistics
    kinds = [(dt, sh) for dt in ("uint8", "float32", "float64", "uint16", "int16", "int8")
             for sh in ((9, 7), (6, 5, 4))]
    for _ in range(ctx.share(12, 120)):
        new([])
        for _ in range(4):
            kd = rng.choice(kinds)
            a = image(kd if kd[0] != "int8" else ("uint8", kd[1]))
            describe(a, rng.choice([d, d, None]), rng.choice(["stats", "stats.csv", "S.CSV", "stat.v1", "s.csv.1", "scan 2.5um",
                                                              "res", None]))
