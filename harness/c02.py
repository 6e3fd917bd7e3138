"""C02: reports contain exactly the computed results."""

import contextlib
import csv
import hashlib
import importlib.metadata
import io
import os
import re
import shutil

import numpy as np

from harness.lib import num, outcome


def make_metrics(viqa, rng, nd):
    """A metric list (distinct names), parameters, and the description."""
    c1, c2 = ((3,) * nd, (4,) * nd)
    pool = [
        lambda: (viqa.RMSE(), {}, "RMSE", "RMSE", "fr", "None"),
        lambda: (viqa.RMSE(data_range=255), {}, "RMSE", "RMSE", "fr", "255"),
        lambda: (viqa.PSNR(data_range=255), {}, "PSNR", "PSNR", "fr", "255"),
        lambda: (viqa.PSNR(data_range=65535), {}, "PSNR", "PSNR", "fr", "65535"),
        lambda: (viqa.UQI(data_range=255), {"win_size": 5}, "UQI", "UQI", "fr", "255"),
        lambda: (viqa.SSIM(data_range=255),
                 {"gaussian_weights": False, "win_size": 5, "alpha": 2},
                 "SSIM", "SSIM", "fr", "255"),
        lambda: (viqa.SNR(data_range=255),
                 {"signal_center": c1, "radius": 2, "region_type": "cubic"},
                 "SNR", "SNR", "nr", "255"),
        lambda: (viqa.CNR(data_range=1), {"signal_center": c1, "background_center": c2,
                                          "radius": 3, "region_type": "spherical"},
                 "CNR", "CNR", "nr", "1"),
    ]
    order = list(pool)
    rng.shuffle(order)
    ms, ps, desc, names = [], [], [], set()
    for f in order:
        m, p, name, cls, typ, dr = f()
        if name in names:
            continue
        names.add(name)
        ms.append(m)
        ps.append(p)
        desc.append({"name": name, "cls": cls, "type": typ, "range": dr,
                     "params": [f"{k}: {v}" for k, v in p.items()]})
        if len(ms) >= rng.choice([1, 2, 3, 4, 5, 6]):
            break
    return ms, ps, desc


def cell(s):
    try:
        v = num(float(s))
    except ValueError:
        v = num(None)
    return {"s": s, "v": v}


def parse(path):
    data = open(path, "rb").read()
    h = hashlib.sha256(data).hexdigest()[:16] + str(os.stat(path).st_size)
    rec = {"h": h, "rows": [], "version": "", "blocks": []}
    if path.endswith(".csv"):
        rec["rows"] = [[cell(c) for c in row]
                       for row in csv.reader(io.StringIO(data.decode(), newline=""))]
    elif path.endswith(".txt"):
        lines = data.decode().split("\n")
        m = re.match(r"vIQA_version:\s*(\S+)", lines[0]) if lines else None
        rec["version"] = m.group(1) if m else ""
        blocks, cur = [], []
        seen = False
        for ln in lines:
            ln = ln.rstrip()
            if not seen:
                seen = bool(re.match(r"=+$", ln))
                continue
            if re.match(r"-+$", ln) and ln:
                continue
            if ln == "":
                if cur:
                    blocks.append(cur)
                cur = []
            else:
                cur.append(ln)
        if cur:
            blocks.append(cur)
        rec["blocks"] = blocks
    return rec


def listing(d):
    return {f: parse(os.path.join(d, f)) for f in sorted(os.listdir(d))}


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng
    version = importlib.metadata.version("viqa")
    imgd = ctx.tmp("img")
    vols = {}
    for n in "abc":
        a = ctx.nprng.integers(1, 255, (9, 9, 8)).astype(np.uint8)
        f = f"{n}_9x9x8_8bit.raw"
        a.ravel(order="F").tofile(os.path.join(imgd, f))
        vols[n] = (f, a)
    outd = os.path.join(ctx.scratch, "rep")
    rois = [[(0, 8), (0, 8), (0, 8)], [(1, 9), (1, 9), (0, 8)], None]

    def results(kind, obj):
        rs = obj.results
        if kind == "batch":
            rs = [rs[str(j)] for j in range(len(rs))]
        else:
            rs = [rs]
        return [[{"name": k, "v": num(v)} for k, v in r.items()] for r in rs]

    def session(hist, images=False):
        shutil.rmtree(outd, ignore_errors=True)
        os.makedirs(outd)
        objs, recs = [], []
        for q in range(2):
            kind = rng.choice(["batch", "multi"])
            ms, ps, desc = make_metrics(viqa, rng, 3)
            if kind == "batch":
                pairs = [[vols[rng.choice("abc")][0], vols[rng.choice("abc")][0]]
                         for _ in range(rng.choice([1, 2, 3, 11]) if not images else 2)]
                pf = os.path.join(imgd, f"p{q}.csv")
                dl = rng.choice(",;\t")
                with open(pf, "w", newline="") as f:
                    w = csv.writer(f, delimiter=dl)
                    w.writerow(["reference_image", "note", "modified_image"])
                    w.writerows([[a, "n", b] for a, b in pairs])
                o = viqa.BatchMetrics(imgd, pf, ms, ps)
                res, _ = outcome(o.calculate)
            else:
                pairs = []
                o = viqa.MultipleMetrics(ms, ps)
                res, _ = outcome(o.calculate, vols["a"][1], vols["b"][1])
            objs.append((kind, o))
            recs.append({"kind": kind, "pairs": pairs, "metrics": desc,
                         "version": version, "res": results(kind, o)})
        rec = ctx.ev("session", objs=recs, cut=True)
        if len(recs[0]["res"][0]) > 1:
            bad = [dict(r) for r in recs]
            bad[0] = {**recs[0], "res": [list(reversed(r)) for r in recs[0]["res"]]}
            ctx.neg("keys", rec, objs=bad)
        for h in hist:
            kind, o = objs[h["o"] - 1]
            desc = {"op": h, "kind": kind, "metrics": recs[h["o"] - 1]["metrics"]}
            if h["op"] == "calc":
                if kind == "batch":
                    r = rng.choice(rois)
                    res, _ = outcome(o.calculate, **({} if r is None else {"roi": r}))
                else:
                    a, b = rng.choice("abc"), rng.choice("abc")
                    res, _ = outcome(o.calculate, vols[a][1], vols[b][1])
                recs[h["o"] - 1]["res"] = results(kind, o)
                ctx.ev("calc", o=h["o"], res=res, vals=results(kind, o),
                       files=listing(outd), _in=desc)
            elif h["op"] == "report":
                kw = dict(csv=h["csv"], metadata=h["meta"], file_path=outd)
                if h["proj"]:
                    kw["project_name"] = h["proj"]
                text, dec, image, expimg = False, 2, h.get("image", False), False
                if image:
                    kw.update(image=True, z=3)
                    if kind == "multi":
                        expimg = rng.random() < 0.7
                        kw.update(img_r=vols["a"][1], img_m=vols["b"][1],
                                  export_image=expimg, dpi=40)
                if kind == "multi":
                    text = rng.random() < 0.5
                    kw["text"] = text
                    if rng.random() < 0.5:
                        dec = rng.randint(0, 6)
                        kw["decimals"] = dec
                buf = io.StringIO()

                def go():
                    with contextlib.redirect_stdout(buf):
                        o.report(**kw)

                res, _ = outcome(go)
                lines = []
                if text:
                    for ln in buf.getvalue().splitlines():
                        m = re.match(r"(.*): (-?[\d.]+|nan|-?inf)$", ln)
                        if m:
                            s = m.group(2)
                            lines.append({"name": m.group(1), "v": num(float(s)),
                                          "decimals": len(s.split(".")[1])
                                          if "." in s else 0})
                    # only finite values are compared
                    if any(x["v"]["k"] != "n" for x in lines) or any(
                        x["v"]["k"] != "n" for x in recs[h["o"] - 1]["res"][0]
                    ):
                        text = False
                rec = ctx.ev("report", o=h["o"], csv=h["csv"], meta=h["meta"],
                             image=image, expimg=expimg, proj=h["proj"], res=res,
                             text=text, decimals=dec, lines=lines, files=listing(outd),
                             _in=desc)
                fs = rec["files"]
                if h["csv"]:
                    name = (h["proj"] + "_" if h["proj"] else "") + "results.csv"
                    if name in fs and len(fs[name]["rows"]) > 1:
                        bad = {**fs, name: {**fs[name], "rows": fs[name]["rows"][:-1]}}
                        ctx.neg("csv_row", rec, files=bad)
                        rr = [list(x) for x in fs[name]["rows"]]
                        rr[-1][-1] = cell("4242.5")
                        ctx.neg("csv_value", rec,
                                files={**fs, name: {**fs[name], "rows": rr}})
                if h["meta"]:
                    bad = {f: ({**v, "blocks": v["blocks"][1:]}
                               if f.endswith("metadata.txt") else v)
                           for f, v in fs.items()}
                    ctx.neg("meta", rec, files=bad)
                ctx.neg("extra", rec, files={**fs, "other.csv": {"h": "0", "rows": [],
                                                                 "version": "",
                                                                 "blocks": []}})
            else:
                if h["csv"]:
                    res, _ = outcome(o.export_results, outd,
                                     rng.choice(["res.txt", "results", "results.csv.bak",
                                                 "results.tsv"]))
                else:
                    res, _ = outcome(o.export_metadata, outd,
                                     rng.choice(["metadata.csv", "metadata",
                                                 "metadata.txt.x"]))
                rec = ctx.ev("bad", o=h["o"], res=res, files=listing(outd), _in=desc)
                ctx.neg("bad", rec, res="ok")

    cases = ctx.mine(ctx.cases["ops"])
    for hist in rng.sample(cases, min(len(cases), ctx.share(240, 100000))):
        session(hist)
    for _ in range(ctx.share(30, 2000)):
        ops = []
        for _ in range(rng.randint(4, 10)):
            op = rng.choice(["calc", "report", "report", "report", "bad"])
            c = rng.random() < 0.6
            ops.append({"op": op, "o": rng.choice([1, 2]), "csv": c,
                        "meta": (not c) if op == "bad" else rng.random() < 0.6,
                        "proj": rng.choice(["", "P", "proj-2", "results"])})
        session(ops)
    for _ in range(ctx.share(4, 40)):
        session([{"op": "report", "o": q, "csv": q == 1, "meta": q == 2, "image": True,
                  "proj": rng.choice(["", "Pic"])} for q in (1, 2)], images=True)
