"""C28: the scripts."""

import contextlib
import csv
import io
import os
import re
import runpy
import sys

import numpy as np
import scipy.io

from harness.lib import flat, num

BITS = {"8bit": "uint8", "8ubit": "uint8", "16ubit": "uint16", "16bit": "uint16", "32ubit": "uint32",
        "16fbit": "float16", "32fbit": "float32", "64fbit": "float64"}


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    where = os.path.join(ctx.repo, "src", "scripts")
    count = [0]

    def folder():
        count[0] += 1
        d = ctx.tmp(f"s{count[0]}")
        os.makedirs(d, exist_ok=True)
        return d

    def script(name, args, cwd=None):
        """Run a script as a user does; "ok" or how it failed."""
        old, was = sys.argv, os.getcwd()
        sys.argv = [name] + [str(a) for a in args]
        try:
            if cwd:
                os.chdir(cwd)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(where, name), run_name="__main__")
            return "ok"
        except SystemExit as e:
            return "ok" if not e.code else "exit"
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
        finally:
            sys.argv = old
            os.chdir(was)

    def files(d):
        return sorted(os.listdir(d)) if os.path.isdir(d) else []

    def ints(a):
        return [int(v) for v in a]

    def volume(dim, bits):
        t = BITS[bits]
        top = 250 if t in ("uint8", "float16") else 30000
        return npr.integers(0, top, int(np.prod(dim))).astype(t)

    def load(path):
        with contextlib.redirect_stdout(io.StringIO()):
            a = np.asarray(viqa.load_data(path))
        return list(a.shape), ints(a.ravel())

    cases = ctx.mine(ctx.cases["sizes"])
    rng.shuffle(cases)
    for c in cases[:ctx.scale(24, 200)]:
        dim, f = c["dim"], c["f"]
        bits = rng.choice(sorted(BITS))
        v = volume(dim, bits)
        d = folder()
        pre, post = rng.choice(["vol_", "a1_", "12_x_", ""]), f"_{bits}.raw"
        src = os.path.join(d, pre + "x".join(map(str, dim)) + post)
        v.tofile(src)
        out = os.path.join(d, rng.choice(["out", os.path.join("a", "b")]))
        if rng.random() < 0.3:
            os.makedirs(out)
        res = script("crop_image.py", [src, out, *dim, bits, f])
        names = files(out)
        got, dims, lshape, loaded = [], [], [], []
        if res == "ok" and len(names) == 1:
            p = os.path.join(out, names[0])
            raw = open(p, "rb").read()
            if len(raw) % v.itemsize == 0:
                got = ints(np.frombuffer(raw, v.dtype))
            mm = re.findall(r"(\d+)x(\d+)x(\d+)", names[0])
            dims = [int(x) for x in mm[0]] if len(mm) == 1 else []
            try:
                lshape, loaded = load(p)
            except Exception:  # noqa: BLE001
                lshape, loaded = [], []
        if not np.array_equal(np.fromfile(src, v.dtype), v):
            res = "changed"
        rec = ctx.ev("crop", res=res, dim=dim, f=f, file=ints(v), names=names, pre=pre,
                     sizes="x".join(map(str, dims)), post=post, dims=dims, out=got, lshape=lshape,
                     loaded=loaded, _in={"dim": dim, "factor": f, "bits": bits, "files": names, "outcome": res})
        if res == "ok" and got:
            ctx.neg("voxel", rec, out=got[:-1] + [got[-1] + 1])
            ctx.neg("name", rec, names=["x" + names[0]])
            ctx.neg("loaded", rec, loaded=loaded[:-1] + [loaded[-1] + 1])
            ctx.neg("declared", rec, dims=[dims[0] + 1, dims[1], dims[2]])
            if len(set(got)) > 1:
                ctx.neg("order", rec, out=got[1:] + got[:1])
        # thin the projections
        d = folder()
        src = os.path.join(d, "p.raw")
        v.tofile(src)
        rel = rng.random() < 0.4
        out = "thin.raw" if rel else os.path.join(d, rng.choice(["o", "o/p", "."]), "thin.raw")
        res = script("reduce_projections.py", [src, out, *dim, bits, f], cwd=d)
        p = os.path.join(d, out) if rel else out
        got = []
        if res == "ok":
            raw = open(p, "rb").read() if os.path.isfile(p) else b""
            got = ints(np.frombuffer(raw, v.dtype)) if len(raw) % v.itemsize == 0 else []
        rec = ctx.ev("thin", res=res, dim=dim, f=f, file=ints(v), out=got,
                     _in={"dim": dim, "factor": f, "bits": bits, "relative": rel, "outcome": res})
        if res == "ok" and got:
            ctx.neg("voxel", rec, out=got[:-1] + [got[-1] + 1])
            ctx.neg("short", rec, out=got[:-1])
        # invalid requests
        for name in ("crop_image.py", "reduce_projections.py"):
            d = folder()
            src = os.path.join(d, "v_" + "x".join(map(str, dim)) + f"_{bits}.raw")
            v.tofile(src)
            out = os.path.join(d, "out") if name.startswith("crop") else os.path.join(d, "out", "t.raw")
            bad = rng.randrange(4)
            args = [src, out, *dim, bits, f]
            if bad == 0:
                args[6] = rng.choice([1, 0, -1, -2])
            elif bad == 1:
                args[2 + rng.randrange(3)] += rng.randint(1, 3)
            elif bad == 2:
                args[5] = rng.choice(["7bit", "64ubit", "x"])
            else:
                args = args[:rng.randint(0, 6)]
            res = script(name, args)
            rec = ctx.ev("refuse", res=res, wrote=bool(files(os.path.join(d, "out"))),
                         _in={"script": name, "args": [str(a) for a in args[2:]], "dim": dim, "outcome": res})
            ctx.neg("accepted", rec, res="ok")
            ctx.neg("written", rec, wrote=True)

    # stacks of slices
    for _ in range(ctx.share(32, 240)):
        dim = [rng.randint(1, 5), rng.randint(1, 5), rng.choice([1, 1, 1, 2])]
        n = rng.randint(1, 12)
        bits = rng.choice(sorted(BITS))
        ext = rng.choice(["raw", "img"])
        d = folder()
        src = os.path.join(d, "in")
        os.makedirs(src)
        parts = []
        order = list(range(n))
        rng.shuffle(order)
        vols = [volume(dim, bits) for _ in range(n)]
        for i in order:
            vols[i].tofile(os.path.join(src, f"s_{i:03d}.{ext}"))
        parts = [ints(v) for v in vols]
        if rng.random() < 0.4:
            open(os.path.join(src, "notes.txt"), "w").write("x")
        out = os.path.join(d, "out")
        res = script("combine_stack.py", [src, out, *dim, bits, ext, "raw"])
        names = files(out)
        got, dims, lshape, loaded = [], [], [], []
        if res == "ok" and len(names) == 1:
            p = os.path.join(out, names[0])
            raw = open(p, "rb").read()
            got = ints(np.frombuffer(raw, vols[0].dtype)) if len(raw) % vols[0].itemsize == 0 else []
            mm = re.findall(r"(\d+)x(\d+)x(\d+)", names[0])
            dims = [int(x) for x in mm[0]] if len(mm) == 1 else []
            try:
                lshape, loaded = load(p)
            except Exception:  # noqa: BLE001
                lshape, loaded = [0], []
        rec = ctx.ev("stack", res=res, dim=dim, files=parts, dims=dims, out=got, lshape=lshape, loaded=loaded,
                     _in={"dim": dim, "slices": n, "bits": bits, "files": names, "outcome": res})
        if res == "ok" and got:
            ctx.neg("voxel", rec, out=got[:-1] + [got[-1] + 1])
            if n > 1 and parts[0] != parts[-1]:
                ctx.neg("order", rec, files=parts[::-1])
            if dim[0] != dim[1]:
                ctx.neg("declared", rec, dims=[dims[1], dims[0], dims[2]])

    # lists of pairs
    for _ in range(ctx.share(32, 240)):
        d = folder()
        stems = rng.sample(["001", "002", "003", "abc", "abd", "A_1", "12", "1234", "x y"], rng.randint(1, 4))
        refs = [s + rng.choice([".png", ".mhd", "_8ubit.raw", ".a.raw"]) for s in stems]
        mods = sorted({rng.choice(stems + ["004", "zzz"]) + rng.choice(["", "_", "a", "_01", ", b", "-2"])
                       + f"{rng.randint(0, 3)}" + rng.choice([".png", ".raw", ".mhd"])
                       for _ in range(rng.randint(0, 7))})
        content = {}
        for sub, ns in (("ref", refs), ("mod", mods)):
            os.makedirs(os.path.join(d, sub))
            for i, nme in enumerate(ns):
                content[sub, nme] = f"{sub}{i}{rng.random()}"
                open(os.path.join(d, sub, nme), "w").write(content[sub, nme])
        out = os.path.join(d, "out")
        state = rng.randrange(3)
        if state:
            os.makedirs(out)
            if state == 2:
                open(os.path.join(out, "pairs.csv"), "w").write("old,old\n1,2\n3,4\n" * 30)
        copy = rng.random() < 0.5
        args = [os.path.join(d, "mod"), os.path.join(d, "ref"), out]
        if copy:
            args.append("copy")
        elif rng.random() < 0.3:
            args.append("no")
        clash = bool(set(refs) & set(mods))
        if clash and copy:
            continue
        res = script("write_to_csv.py", args)
        rows, accepted = [], False
        if res == "ok" and os.path.isfile(os.path.join(out, "pairs.csv")):
            with open(os.path.join(out, "pairs.csv"), newline="") as fh:
                q = list(csv.reader(fh))
            rows = [x for x in q[1:]] if q and q[0] == ["reference_image", "modified_image"] else [["", ""]]
            if rows:
                try:
                    b = viqa.BatchMetrics(out, os.path.join(out, "pairs.csv"), [], [])
                except Exception:  # noqa: BLE001
                    b = None
                if b is not None:
                    accepted = [[x["reference_image"], x["modified_image"]] for x in b.pairs] == rows
            else:
                accepted = True
        img = []
        for nme in files(os.path.join(out, "images")):
            img.append({"n": nme, "c": open(os.path.join(out, "images", nme)).read()})
        kept = all(open(os.path.join(d, sub, nme)).read() == t for (sub, nme), t in content.items()) and \
            files(os.path.join(d, "ref")) == sorted(refs) and files(os.path.join(d, "mod")) == sorted(mods)
        rec = ctx.ev("pairs", res=res, rows=rows, copy=copy, images=img, kept=kept, accepted=accepted,
                     refs=[{"name": x, "stem": x.split(".")[0], "c": content["ref", x]} for x in refs],
                     mods=[{"name": x, "three": x[:3], "c": content["mod", x]} for x in mods],
                     _in={"refs": refs, "mods": mods, "args": args[3:], "state": state, "rows": rows,
                          "outcome": res})
        if res == "ok":
            if rows:
                ctx.neg("missing", rec, rows=rows[1:])
                ctx.neg("swapped", rec, rows=[rows[0][::-1]] + rows[1:])
                ctx.neg("repeated", rec, rows=rows + rows[:1])
                if copy:
                    ctx.neg("lost", rec, images=img[1:])
            ctx.neg("changed", rec, kept=False)

    # mat files
    types = {"MET_UCHAR": "uint8", "MET_USHORT": "uint16", "MET_FLOAT": "float32"}
    for _ in range(ctx.share(12, 60)):
        d = folder()
        rec = []
        fname = rng.choice(["volume.mhd", "other.mhd"])
        for i in range(rng.randint(1, 3)):
            et = rng.choice(sorted(types))
            dim = [rng.randint(1, 4) for _ in range(3)]
            if int(np.prod(dim)) < 2:
                dim[0] = 2
            v = npr.integers(0, 250, int(np.prod(dim))).astype(types[et])
            v[0], v[-1] = 3, 251
            s = os.path.join(d, f"s{i}")
            os.makedirs(s)
            v.tofile(os.path.join(s, "d.raw"))
            open(os.path.join(s, fname), "w").write(
                f"ObjectType = Image\nNDims = 3\nDimSize = {dim[0]} {dim[1]} {dim[2]}\n"
                f"ElementType = {et}\nElementDataFile = d.raw\n")
            rec.append((s, dim, v))
        res = script("write_to_mat.py", [d] + ([fname] if fname != "volume.mhd" or rng.random() < 0.5 else []))
        for s, dim, v in rec:
            out, lshape, r2 = [], [], res
            if res == "ok":
                try:
                    a = scipy.io.loadmat(os.path.join(s, "image.mat"))["image"]
                    lshape = list(a.shape) + [1] * (3 - a.ndim)
                    out = [num(x) for x in a.ravel()]
                except Exception as e:  # noqa: BLE001
                    r2 = type(e).__name__
            e = ctx.ev("mat", res=r2, dim=dim, file=ints(v), lshape=lshape, out=out, lo=int(v.min()),
                       hi=int(v.max()), _in={"dim": dim, "outcome": r2, "dtype": str(v.dtype)})
            if r2 == "ok":
                ctx.neg("value", e, out=[num(2.0)] + out[1:])
