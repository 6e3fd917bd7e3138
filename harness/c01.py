"""C01: a batch gives every pair the result it would get on its own."""

import csv
import os

import numpy as np
import skimage.io
import skimage.transform

from harness.lib import num, outcome

# images of the two sets: name -> (file, shape, dtype)
ROI = {
    "2d": {"none": None, "R1": [(2, 13), (1, 11)], "R2": [(3, 14), (1, 11)]},
    "3d": {"none": None, "R1": [(0, 6), (1, 7), (0, 6)], "R2": [(1, 7), (0, 6), (1, 6)]},
    "col": {"none": None, "R1": [(2, 13), (1, 11), (0, 3)], "R2": [(3, 14), (1, 11), (0, 3)]},
}


def make_images(ctx):
    d = ctx.tmp("img")
    os.makedirs(os.path.join(d, "s"), exist_ok=True)
    os.makedirs(os.path.join(d, "t"), exist_ok=True)
    rng = ctx.nprng
    sets = {"2d": {}, "3d": {}, "col": {}}

    def img2(name, file, shape, dtype, kind="2d"):
        # different spans, so that a normalisation matters
        lo, hi = sorted(rng.choice(120, 2, replace=False))
        a = rng.integers(lo, 255 - hi, shape).astype(dtype)
        skimage.io.imsave(os.path.join(d, file), a, check_contrast=False)
        sets[kind][name] = (file, a)

    # the same base name in two directories, another size, another type
    img2("a", "s/img.png", (20, 16), np.uint8)
    img2("b", "t/img.png", (20, 16), np.uint8)
    img2("c", "s/c.png", (15, 12), np.uint8)
    img2("d", "d.tiff", (20, 16), np.uint16)
    img2("e", "e.png", (16, 20), np.uint8)
    img2("a", "s/col.png", (20, 16, 3), np.uint8, "col")
    img2("b", "t/col.png", (20, 16, 3), np.uint8, "col")
    img2("c", "c2.bmp", (15, 12, 3), np.uint8, "col")

    def img3(name, file, shape, dtype):
        a = rng.integers(0, 200, shape).astype(dtype)
        f = f"{file}_{shape[0]}x{shape[1]}x{shape[2]}_8bit.raw"
        a.ravel(order="F").tofile(os.path.join(d, f))
        sets["3d"][name] = (f, a)

    img3("a", "va", (8, 9, 7), np.uint8)
    img3("b", "vb", (8, 9, 7), np.uint8)
    img3("c", "vc", (7, 8, 7), np.uint8)
    return d, sets


def metrics(viqa, kind, which):
    """Metric objects with their parameters."""
    nd = 3 if kind == "3d" else 2
    c1, c2 = ((4,) * nd, (5,) * nd) if nd == 2 else ((3,) * 3, (2,) * 3)
    pool = {
        "RMSE": lambda: (viqa.RMSE(), {}),
        "PSNR": lambda: (viqa.PSNR(data_range=255), {}),
        "SNR": lambda: (viqa.SNR(), {"signal_center": c1, "radius": 2,
                                     "region_type": "cubic"}),
        "CNR": lambda: (viqa.CNR(), {"signal_center": c1, "background_center": c2,
                                     "radius": 2, "region_type": "cubic"}),
        "UQI": lambda: (viqa.UQI(data_range=255), {"win_size": 5}),
        "SSIM": lambda: (viqa.SSIM(data_range=255),
                         {"win_size": 5, "gaussian_weights": False, "alpha": 2}),
        "GSM": lambda: (viqa.GSM(data_range=255), {"dim": 2} if nd == 3 else {}),
        "FSIM": lambda: (viqa.FSIM(data_range=255), {"dim": 2, "im_slice": 3} if nd == 3 else {}),
    }
    ms = [pool[w]() for w in which]
    return [m for m, _ in ms], [p for _, p in ms]


SETS = [["RMSE", "SNR"], ["SNR", "PSNR", "CNR"], ["CNR", "RMSE", "SNR"], ["SNR", "CNR"],
        ["UQI", "SNR"]]


COLOUR = [["RMSE"], ["PSNR", "RMSE"], ["UQI", "PSNR"], ["SSIM", "GSM"]]
MORE = [["SSIM", "SNR"], ["GSM", "CNR", "RMSE"], ["FSIM", "SNR"], ["RMSE", "PSNR", "SSIM", "GSM"]]


def alone(ctx, imgs, kind, which, r, m, roi, order, norm):
    """Scores of a pair computed from the arrays, with fresh metric objects."""
    viqa = ctx.viqa
    a, b = imgs[r][1], imgs[m][1]
    if norm:
        a, b = (np.asarray(viqa.load_data(x.copy(), data_range=norm, normalize=True))
                for x in (a, b))
    if a.shape != b.shape:
        b = skimage.transform.resize(b, a.shape, preserve_range=True, order=order)
        b = b.astype(a.dtype)
    if roi is not None:
        sl = tuple(slice(*x) for x in roi)
        a, b = a[sl], b[sl]
    vals = {}
    if a.dtype != b.dtype:
        return "ValueError", {}
    ms, ps = metrics(viqa, kind, which)
    for name, mt, p in zip(which, ms, ps):
        if mt.type == "full-reference":
            mt, p = (lambda z: (z[0][0], z[1][0]))(metrics(viqa, kind, [name]))
            res, v = outcome(mt.score, a.copy(), b.copy(), **p)
            vals[name] = num(v)
        else:
            for suf, im in (("_r", a), ("_m", b)):
                mt, p = (lambda z: (z[0][0], z[1][0]))(metrics(viqa, kind, [name]))
                res, v = outcome(mt.score, im.copy(), **p)
                vals[name + suf] = num(v)
                if res != "ok":
                    return res, {}
        if res != "ok":
            return res, {}
    return "ok", vals


class _Rows:
    """A MultipleMetrics seen as a batch of one row."""

    def __init__(self, mm):
        self.results = {"0": mm.results}


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng
    d, sets = make_images(ctx)
    seen = {}

    def fresh(kind, which, rows, groi, order, norm):
        opt = f"{kind}/{'+'.join(which)}/{order}/{norm}"
        idx = []
        for row in rows:
            rr = groi if groi != "none" else row["roi"]
            key = f"{opt}|{row['r']}|{row['m']}|{rr}"
            if key not in seen:
                res, vals = alone(ctx, sets[kind], kind, which, row["r"], row["m"],
                                  ROI[kind][rr], order, norm)
                seen[key] = ctx.fact(key=key, res=res, vals=vals)
            idx.append(seen[key])
        return opt, idx

    count = [0]

    def write_pairs(kind, rows, files):
        count[0] += 1
        p = os.path.join(d, "pairs.csv")

        def path(n):
            f = files[n] if files else sets[kind][n][0]
            if rng.random() < 0.1:      # the same file under another name
                f = rng.choice(["./" + f, "s/../" + f, os.path.join(d, f)])
            return f
        with open(p, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["reference_image", "modified_image"])
            for row in rows:
                w.writerow([path(row["r"]), path(row["m"])])
        return p

    def batch(kind, which, rows, groi="none", order=None, obj=None, src="", norm=None, ms=None,
              files=None):
        opt, idx = fresh(kind, which, rows, groi, 1 if order is None else order, norm)
        if obj is None:
            p = write_pairs(kind, rows, files)
            ms, ps = (ms, metrics(viqa, kind, which)[1]) if ms else metrics(viqa, kind, which)
            rois = None
            if any(r["roi"] != "none" for r in rows):
                full = {n: None if files else [(0, s) for s in sets[kind][n][1].shape]
                        for n in sets[kind]}
                rois = [ROI[kind][r["roi"]] if r["roi"] != "none" else
                        (full[r["r"]] if (count[0] + j) % 3 else None)
                        for j, r in enumerate(rows)]
            obj = viqa.BatchMetrics(d, p, ms, ps, rois=rois)
        kw = {}
        if groi != "none":
            kw["roi"] = ROI[kind][groi]
        if order is not None:
            kw["scaling_order"] = order
        if norm:
            kw.update(data_range=norm, normalize=True)
        if src == "multi":
            row = rows[0]
            got = [np.array(sets[kind][row[k]][1]) if rng.random() < 0.5 else
                   os.path.join(d, sets[kind][row[k]][0]) for k in "rm"]
            res, out = outcome(obj.calculate, *got, **kw)
            if res == "ok":
                obj, out = _Rows(obj), {"0": out}
        else:
            res, out = outcome(obj.calculate, **kw)
        vals, same = [], True
        if res == "ok":
            try:
                vals = [{q: num(v) for q, v in out[str(j)].items()}
                        for j in range(len(out))]
                same = all(obj.results[str(j)] == out[str(j)] for j in range(len(out)))
            except (KeyError, AttributeError, TypeError):
                vals = []
        rec = ctx.ev("batch", opt=opt, alone=idx, rows=rows, groi=groi, res=res, vals=vals,
                     same_attr=same,
                     _in={"kind": kind, "metrics": which, "rows": rows, "roi": groi,
                          "order": order, "source": src, "normalize": norm})
        if res == "ok" and vals and len(vals) == len(rows):
            worse = [dict(v) for v in vals]
            q = next(iter(worse[-1]))
            worse[-1][q] = num(123456.5)
            ctx.neg("value", rec, vals=worse)
            ctx.neg("row", rec, vals=vals[:-1])
            ctx.neg("attr", rec, same_attr=False)
        return obj

    # every behaviour of the design model with two rows, and with three rows
    for case in ctx.mine(ctx.cases["len2"]):
        batch("2d", SETS[rng.randrange(4)], case["rows"], case["groi"], src="model")
    three = ctx.mine(ctx.cases["len3"])
    if not ctx.thorough:
        three = rng.sample(three, min(len(three), 500 // ctx.nshards))
    for case in three:
        batch("2d" if rng.random() < 0.7 else "3d", SETS[rng.randrange(4)],
              case["rows"], case["groi"], src="model")
    # longer, seeded, with more images, interpolation orders and repeated runs
    for _ in range(ctx.share(120, 3000)):
        kind = rng.choice(["2d", "2d", "3d"])
        names = [n for n in sets[kind] if n != "d"]
        pool = rng.sample(names, min(len(names), rng.choice([2, 3, 4])))
        rois = rng.choice([["none"], ["none", "R1"], ["R1", "R2"], ["none", "R1", "R2"]])
        n = rng.randint(3, 9)
        rows = []
        for _ in range(n):
            if rows and rng.random() < 0.3:
                row = dict(rng.choice(rows))
                row["roi"] = rng.choice(rois)
            else:
                row = {"r": rng.choice(pool), "m": rng.choice(pool),
                       "roi": rng.choice(rois)}
            rows.append(row)
        which = rng.choice(SETS[:4])
        groi = rng.choice(["none", "none", "none", "R2"])
        order = rng.choice([None, None, 0, 3])
        obj = batch(kind, which, rows, groi, order, src="random")
        if rng.random() < 0.4:
            # the same batch object again, with another region or order
            batch(kind, which, rows, rng.choice(["none", "R1", "R2"]),
                  rng.choice([None, 0]), obj=obj, src="again")
    def rows_of(kind, n):
        names = [x for x in sets[kind] if x != "d"]
        pool = rng.sample(names, min(len(names), rng.choice([2, 3])))
        rois = rng.choice([["none"], ["none", "R1"], ["none", "R1", "R2"]])
        return [{"r": rng.choice(pool), "m": rng.choice(pool), "roi": rng.choice(rois)}
                for _ in range(n)]

    # colour images, more metrics, normalised loading
    for _ in range(ctx.share(60, 1500)):
        kind = rng.choice(["2d", "3d", "col"])
        which = rng.choice(COLOUR if kind == "col" else MORE + SETS[:4])
        # means of 32-bit floats depend on the memory order of the array
        exact = not {"SNR", "CNR"} & set(which)
        batch(kind, which, rows_of(kind, rng.randint(2, 5)),
              rng.choice(["none", "none", "R1"]), rng.choice([None, None, 0, 3]),
              norm=rng.choice([None, 1 if exact else 255, 255, 65535]), src="loaded")
    # the same metric objects in two batches, run in turn
    for _ in range(ctx.share(24, 400)):
        kind = rng.choice(["2d", "3d"])
        which = rng.choice(SETS[:4])
        ms, _ = metrics(viqa, kind, which)
        two = [rows_of(kind, rng.randint(1, 4)) for _ in range(2)]
        objs = [batch(kind, which, r, ms=ms, src="shared") for r in two]
        for _ in range(2):
            j = rng.randrange(2)
            batch(kind, which, two[j], rng.choice(["none", "none", "R2"]), obj=objs[j],
                  src="shared")
    # the image files change between two runs of a batch, or appear after a failed one
    for t in range(ctx.share(24, 400)):
        kind = "2d"
        which = rng.choice(SETS[:4])
        names = rng.sample("abce", 3)
        files = {n: f"w{ctx.shard}_{t}_{j}.png" for j, n in enumerate(names)}
        rows = [{"r": rng.choice(names), "m": rng.choice(names), "roi": rng.choice(["none", "R1"])}
                for _ in range(rng.randint(1, 4))]

        def put(cont, skip=None):
            for n, f in files.items():
                if n != skip:
                    skimage.io.imsave(os.path.join(d, f), sets[kind][cont[n]][1],
                                      check_contrast=False)
        first = {n: n for n in names}
        late = rng.choice([None, rows[-1]["r"]])
        put(first, late)
        if late is None:
            obj = batch(kind, which, rows, files=files, src="rewritten")
        else:
            p = write_pairs(kind, rows, files)
            ms, ps = metrics(viqa, kind, which)
            rois = [ROI[kind][r["roi"]] for r in rows]
            obj = viqa.BatchMetrics(d, p, ms, ps, rois=rois)
            outcome(obj.calculate)
        new = dict(zip(names, rng.sample("abce", 3))) if late is None else first
        put(new)
        moved = [{**r, "r": new[r["r"]], "m": new[r["m"]]} for r in rows]
        batch(kind, which, moved, obj=obj, src="rewritten")
        for f in files.values():
            os.remove(os.path.join(d, f))
    # several metrics on one pair: one object, pair after pair
    for _ in range(ctx.share(30, 600)):
        kind = rng.choice(["2d", "3d", "col"])
        which = rng.choice(COLOUR if kind == "col" else MORE + SETS[:4])
        obj = viqa.MultipleMetrics(*metrics(viqa, kind, which))
        for _ in range(rng.randint(1, 3)):
            batch(kind, which, [{**rows_of(kind, 1)[0], "roi": "none"}],
                  rng.choice(["none", "R1", "R2"]), rng.choice([None, 0, 3]), obj=obj,
                  norm=rng.choice([None, None, 65535, 255]), src="multi")
    # pairs that cannot be scored alone, at any position
    for _ in range(ctx.share(20, 200)):
        rows = [{"r": rng.choice("abc"), "m": rng.choice("abc"), "roi": "none"}
                for _ in range(rng.randint(1, 3))]
        rows.insert(rng.randint(0, len(rows)),
                    {"r": rng.choice("ab"), "m": "d", "roi": "none"}
                    if rng.random() < 0.5 else {"r": "d", "m": rng.choice("ab"), "roi": "none"})
        batch("2d", rng.choice(SETS), rows, src="unscorable")
    # windows larger than a region: the pair cannot be scored
    for _ in range(ctx.share(10, 60)):
        rows = [{"r": rng.choice("abc"), "m": rng.choice("abc"),
                 "roi": rng.choice(["none", "R1"])} for _ in range(3)]
        batch("2d", SETS[4], rows, src="windowed")
