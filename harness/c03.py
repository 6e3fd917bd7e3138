"""C03: pairs files are read faithfully, malformed set-ups are rejected."""

import csv
import itertools
import os

from harness.lib import outcome

DELIM = {",": ",", ";": ";", "tab": "\t"}
NAMEPOOL = ["a.png", "b.png", "sub/c.mhd", "../d.raw", "vol 1.nii", "x-y_z.tiff",
            "reference_image", "ü.png", "A.PNG", "001.png", "1", "a.b.c.png", " lead.png", "trail.png ", "",
            "#1.png", "a|b.png", "1,5.png", "1;5.png", "it's.png", "x:y.png", "a=b.png",
            "-", "None", "nan", "modified_image", "C:\\dir\\e.png", "~f.png", "%20.png",
            "very" * 60 + ".png"]


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng
    d = ctx.tmp("pairs")
    path = os.path.join(d, "pairs.csv")

    def read(cols, delim, rows, eol="\n", quoting=csv.QUOTE_MINIMAL, final=True):
        with open(path, "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f, delimiter=DELIM[delim], lineterminator=eol, quoting=quoting)
            w.writerow(cols)
            w.writerows(rows)
        if not final and rows:
            data = open(path, "rb").read()
            open(path, "wb").write(data[: -len(eol)])
        res, b = outcome(viqa.BatchMetrics, d, path, [viqa.RMSE()], [{}])
        got = []
        if res == "ok":
            got = [[str(r.get("reference_image")), str(r.get("modified_image"))]
                   for r in b.pairs]
        rec = ctx.ev("read", cols=cols, rows=rows, res=res, got=got,
                     _in={"cols": cols, "delim": delim, "rows": rows, "eol": eol})
        if res == "ok" and got:
            ctx.neg("drop", rec, got=got[:-1])
            ctx.neg("swap", rec, got=[[b, a + "#"] for a, b in got])
            ctx.neg("reject", rec, res="ValueError", got=[])
        if res == "ValueError":
            ctx.neg("accept", rec, res="ok")

    def cells(n, k, extra=()):
        pool = NAMEPOOL + list(extra)
        return [[rng.choice(pool) for _ in range(k)] for _ in range(n)]

    cases = ctx.mine(ctx.cases["tables"])
    for c in cases if ctx.thorough else rng.sample(cases, min(len(cases), 700)):
        read(c["cols"], c["delim"], cells(c["n"], len(c["cols"])))
    for _ in range(ctx.share(500, 8000)):
        cols = ["reference_image", "modified_image"]
        cols += rng.sample(["id", "note", "scanner", "date", "x1", "reference_image2",
                            "my modified_image", "comment (free)"], rng.randint(0, 4))
        rng.shuffle(cols)
        if rng.random() < 0.15:
            cols.remove(rng.choice(["reference_image", "modified_image"]))
        dl = rng.choice(list(DELIM))
        others = [v for k, v in DELIM.items() if k != dl]
        extra = [f"odd{rng.choice(others)}name.png", 'q"uote.png',
                 f"own{DELIM[dl]}delim.png"]
        read(cols, dl, cells(rng.choice([0, 1, 2, 5, 12, 40]), len(cols), extra),
             rng.choice(["\n", "\r\n"]),
             rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), rng.random() < 0.8)

    # other separators are no separators: both columns are missing
    for other in ("|", ":", " ", "#", "/", "~"):
        for quoted in (False, True):
            names = ["reference_image", "modified_image"]
            head = other.join(f'"{n}"' if quoted else n for n in names)
            with open(path, "w", newline="") as f:
                f.write(head + "\n" + other.join(["a.png", "b.png"]) + "\n")
            res, b = outcome(viqa.BatchMetrics, d, path, [viqa.RMSE()], [{}])
            rec = ctx.ev("read", cols=[head], rows=[], res=res, got=[],
                         _in={"separator": other})
            ctx.neg("accept_other", rec, res="ok")

    # set-up errors
    def write(n, missing):
        with open(path, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["reference_image", "other" if missing else "modified_image"])
            w.writerows([["a.png", "b.png"]] * n)

    mets = [lambda: viqa.RMSE(), lambda: viqa.PSNR(), lambda: viqa.SNR(),
            lambda: viqa.CNR(), lambda: viqa.SSIM()]
    notmetric = ["RMSE", None, 3, viqa.RMSE, {}, object()]
    notdict = [None, [], "x", 3, ("a", 1), {1}]
    combos = list(itertools.product(["batch", "multi"], [0, 1, 2, 3], [-1, 0, 1, 2, 3],
                                    [0, 1, 2, 3], [0, 1, 2, 3], [False, True],
                                    [False, True], [False, True]))
    combos = ctx.mine(combos)
    for kind, npairs, nrois, nm, np_, bm, bp, missing in rng.sample(
        combos, min(len(combos), ctx.share(1600, 10**6))
    ):
        ms = [rng.choice(mets)() for _ in range(nm)]
        ps = [{} for _ in range(np_)]
        if bm and ms:
            ms[rng.randrange(len(ms))] = rng.choice(notmetric)
        if bp and ps:
            ps[rng.randrange(len(ps))] = rng.choice(notdict)
        if kind == "batch":
            write(npairs, missing)
            rois = None if nrois < 0 else [[(0, 2), (0, 2)]] * nrois
            res, _ = outcome(viqa.BatchMetrics, d, path, ms, ps, rois)
        else:
            res, _ = outcome(viqa.MultipleMetrics, ms, ps)
        rec = ctx.ev("setup", kind=kind, npairs=npairs, nrois=nrois, nmetrics=nm,
                     nparams=np_, badmetric=bool(bm and ms), badparam=bool(bp and ps),
                     missing=missing, res=res)
        ctx.neg("setup_" + res, rec, res="ok" if res != "ok" else "ValueError")
