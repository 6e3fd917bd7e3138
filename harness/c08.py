"""C08: files are read voxel by voxel as declared."""

import os
import pathlib

import nibabel as nib
import numpy as np
import PIL.Image
import skimage.io
import torch

from harness.lib import flat, outcome

RAW = {"8bit": "u1", "8ubit": "u1", "16bit": "u2", "16ubit": "u2", "32bit": "u4",
       "32ubit": "u4", "16fbit": "f2", "32fbit": "f4", "64fbit": "f8"}
BADRAW = ["64bit", "64ubit", "8fbit", "24bit", "12bit", "1bit", "32ibit", "16", "", "8bits", "16ubits", "32fbits", "8Bit", "16UBIT", "8u", "16f",
          "128fbit", "16dbit", "8sbit", "uint8", "float32"]
MHD = {"MET_UCHAR": "u1", "MET_USHORT": "u2", "MET_UINT": "u4", "MET_FLOAT": "f4",
       "MET_DOUBLE": "f8"}
BADMHD = ["MET_CHAR", "MET_SHORT", "MET_LONG", "met_uchar", "UCHAR", "MET_UCHAR_ARRAY",
          "MET_INT", "MET_ULONG", "MET_LONG_LONG", "MET_ULONG_LONG", "MET_HALF", "MET_NONE",
          "MET_STRING", "MET_USHORT_ARRAY", "MET_FLOAT_ARRAY", "MET_FLOAT32", "MET_OTHER", "uint8",
          "MET_uchar", "Met_Float", "MET_UINT16", "MET_BOOL"]


def run(ctx):
    viqa, rng, npr = ctx.viqa, ctx.rng, ctx.nprng
    base = ctx.tmp("f")
    from viqa.utils import load_mhd, load_raw

    def content(n, code):
        """n elements whose values the specification can read exactly."""
        if code[0] == "u":
            hi = {"u1": 255, "u2": 65535, "u4": 2**31 - 1}[code]
            v = npr.integers(0, hi + 1, n)
            for e in (0, hi):
                if n > 2:
                    v[rng.randrange(n)] = e
            return v.astype(code)
        lim = 2000 if code == "f2" else 2**20
        return npr.integers(-lim, lim, n).astype(code)

    def values(a):
        a = np.asarray(a)
        if a.size and a.dtype.kind == "f" and not np.all(np.isfinite(a)):
            return [repr(float(x)) for x in a.ravel()]
        if a.dtype.kind == "f" and not np.all(a == np.floor(a)):
            return [repr(float(x)) for x in a.ravel()]
        if a.size and (a.max() > 2**31 - 1 or a.min() < -2**31):
            return [repr(float(x)) for x in a.ravel()]
        return flat(a)

    def record(form, tok, dim, hassize, data, loader, desc, value_error=True):
        res, v = outcome(loader)
        v = None if v is None else np.asarray(v)
        code = (RAW if form == "raw" else MHD).get(tok, "u1")
        n = int(np.prod(dim))
        file = values(np.frombuffer(data[:len(data) // np.dtype(code).itemsize
                                         * np.dtype(code).itemsize], dtype=code))
        rec = ctx.ev("binary", form=form, tok=tok, dim=dim, hassize=hassize,
                     bytes=len(data), res=res, shape=list(v.shape) if res == "ok" else [],
                     dtype=str(v.dtype) if res == "ok" else "",
                     out=values(v) if res == "ok" else [], file=file,
                     value_error=value_error, _in={**desc, "outcome": res})
        if res == "ok":
            out = rec["out"]
            if len(set(out)) > 1:
                ctx.neg("voxels", rec, out=out[1:] + out[:1] if out[1:] + out[:1] != out
                        else [*out[:-1], 1])
            ctx.neg("type", rec, dtype="int8")
            ctx.neg("shape", rec, shape=[1] + rec["shape"])
            ctx.neg("rejected", rec, res="ValueError")
        else:
            ctx.neg("accepted", rec, res="ok")

    def entry(path, form):
        """One of the ways to load a file."""
        d, n = os.path.split(path)
        k = rng.randrange(4)
        if k == 0:
            return lambda: viqa.load_data(path)
        if k == 1:
            return lambda: viqa.load_data(pathlib.Path(path))
        if k == 2:
            return lambda: (load_raw if form == "raw" else load_mhd)(d, n)
        os.chdir(d)
        return lambda: viqa.load_data(n)

    cnt = [0]

    def raw_name(dim, tok, nosize=False):
        cnt[0] += 1
        size = "x".join(map(str, dim)) if not nosize else rng.choice(
            [f"{dim[0]}x{dim[1]}", "size", f"{dim[0]}_{dim[1]}_{dim[2]}"])
        parts = [size, tok]
        if rng.random() < 0.5:
            parts.reverse()
        pre = rng.choice(["", "scan_", "vol-a_", "Probe ", "img.v_"])
        post = rng.choice(["", "_copy", "-b", ".final"])
        sep = rng.choice(["_", "-", " ", "_mu_"])
        return f"{pre}{sep.join(parts)}{post}"

    def raw(dim, tok, size_delta=0, nosize=False, bitsless=False):
        d = os.path.join(base, f"r{cnt[0]}")
        os.makedirs(d, exist_ok=True)
        code = RAW.get(tok) or rng.choice(["u1", "u2", "u4", "f8"])
        n = int(np.prod(dim))
        data = content(n, code).tobytes()
        if size_delta > 0:
            data += b"\x07" * size_delta
        elif size_delta < 0:
            data = data[:size_delta]
        p = os.path.join(d, raw_name(dim, tok, nosize) + ".raw")
        with open(p, "wb") as f:
            f.write(data)
        record("raw", tok, dim, not nosize, data, entry(p, "raw"),
               {"file": os.path.basename(p), "bytes": len(data)})
        os.remove(p)

    def mhd(dim, tok, size_delta=0, missing=None, sub=False, width=None):
        cnt[0] += 1
        d = os.path.join(base, f"m{cnt[0]}")
        os.makedirs(os.path.join(d, "data"), exist_ok=True)
        # an unknown type is rejected whatever it could be taken for
        code = MHD.get(tok) or width or rng.choice(["u1", "u2", "u4", "f8"])
        data = content(int(np.prod(dim)), code).tobytes()
        if size_delta > 0:
            data += b"\x07" * size_delta
        elif size_delta < 0:
            data = data[:size_delta]
        # a size and type in the data file's name must not matter
        dn = rng.choice(["v.raw", "2x2x2_8bit.raw", "v_16fbit.bin", "a b.raw"])
        if sub:
            dn = "data/" + dn
        with open(os.path.join(d, dn), "wb") as f:
            f.write(data)
        lines = {"ObjectType": "Image", "NDims": "3", "BinaryData": "True",
                 "DimSize": rng.choice([" ", " ", "  ", "\t"]).join(map(str, dim))
                 + rng.choice(["", "", " "]), "ElementType": tok,
                 "ElementSpacing": "0.1 0.1 0.1", "Offset": "0 0 0",
                 "ElementDataFile": dn}
        if missing:
            del lines[missing]
        items = list(lines.items())
        if rng.random() < 0.5:
            rng.shuffle(items)
        nl = rng.choice(["\n", "\r\n"])
        txt = nl.join(f"{k} = {v}" for k, v in items) + rng.choice(["", nl, nl + nl])
        p = os.path.join(d, rng.choice(["h", "vol_9x9x9_16bit"]) + ".mhd")
        with open(p, "wb") as f:
            f.write(txt.encode())
        record("mhd", tok if missing != "ElementType" else "none", dim,
               missing != "DimSize", data, entry(p, "mhd"),
               {"header": txt, "bytes": len(data)}, value_error=missing is None)

    # long axes
    for dim in ctx.mine([[10007, 1, 1], [1, 10007, 1], [1, 1, 10007], [12345, 1, 1],
                         [100, 1, 101], [1, 1000, 1], [1001, 2, 1], [256, 1, 2]]):
        raw(dim, rng.choice(["8bit", "16bit", "32fbit"]))
        mhd(dim, rng.choice(["MET_UCHAR", "MET_FLOAT"]))
    shapes = [list(x) for x in ctx.mine(ctx.cases["dims"])]
    for dim in shapes:
        raw(dim, rng.choice(list(RAW)))
        mhd(dim, rng.choice(list(MHD)))
    for tok in ctx.mine(list(RAW) * 3):
        raw([rng.randrange(1, 7) for _ in range(3)], tok)
    for tok in ctx.mine(list(MHD) * 3):
        mhd([rng.randrange(1, 7) for _ in range(3)], tok, sub=rng.random() < 0.5)
    for tok in ctx.mine(BADRAW * 2):
        raw([3, 2, 4], tok)
    for tok in ctx.mine(BADMHD * 2):
        mhd([3, 2, 4], tok)
        w = {"C": "u1", "S": "u2", "H": "u2", "I": "u4", "U": "u4", "F": "f4"}.get(tok[4:5], "f8")
        mhd([3, 2, 4], tok, width=w)
    for _ in range(ctx.share(24, 400)):
        dim = [rng.randrange(1, 6) for _ in range(3)]
        raw(dim, rng.choice(list(RAW)), nosize=True)
        tok = rng.choice(list(RAW))
        k = np.dtype(RAW[tok]).itemsize
        raw(dim, tok, size_delta=rng.choice([-k, k, 1, -1, dim[0] * k, 5 * k]))
        tok = rng.choice(list(MHD))
        k = np.dtype(MHD[tok]).itemsize
        mhd(dim, tok, size_delta=rng.choice([-k, k, 1, -1, dim[0] * k]))
        mhd(dim, tok, missing=rng.choice(["DimSize", "ElementType"]))
        # random larger volumes
        dim = [rng.randrange(1, ctx.scale(12, 25)) for _ in range(3)]
        raw(dim, rng.choice(list(RAW)))
        mhd(dim, rng.choice(list(MHD)), sub=rng.random() < 0.3)

    # pictures and nifti
    def picture(path, want, loader=None):
        res, v = outcome(loader or (lambda: viqa.load_data(path)))
        rec = ctx.ev("picture", res=res, shape=list(v.shape) if res == "ok" else [],
                     wshape=list(want.shape), dtype=str(v.dtype) if res == "ok" else "",
                     wdtype=str(want.dtype), out=values(v) if res == "ok" else [],
                     file=values(want), _in={"file": os.path.basename(path), "outcome": res})
        ctx.neg("pixels", rec, out=[*rec["out"][1:], 77])

    for _ in range(ctx.share(20, 200)):
        cnt[0] += 1
        sh = (rng.randrange(5, 11), rng.randrange(5, 11))
        for ext in ("png", "tiff", "bmp", "jpg", "jpeg"):
            p = os.path.join(base, f"p{cnt[0]}.{ext}")
            for kind in ("u1", "u2", "rgb"):
                if kind == "u2" and ext not in ("png", "tiff"):
                    continue
                a = npr.integers(0, 256 if kind != "u2" else 65536,
                                 sh + ((3,) if kind == "rgb" else ()))
                a = a.astype("u2" if kind == "u2" else "u1")
                skimage.io.imsave(p, a, check_contrast=False)
                want = a if ext not in ("jpg", "jpeg") else np.asarray(PIL.Image.open(p))
                picture(p, want, (lambda p=p: viqa.load_data(pathlib.Path(p)))
                        if rng.random() < 0.5 else None)
                os.remove(p)
        a = npr.integers(-500, 500, (*sh, rng.randrange(2, 6))).astype(
            rng.choice(["i2", "f4", "f8", "u1"]))
        p = os.path.join(base, f"n{cnt[0]}.nii" + rng.choice(["", ".gz"]))
        nib.save(nib.Nifti1Image(a, np.eye(4)), p)
        picture(p, a.astype(np.float64))

    # unsupported inputs
    for name in ctx.mine(["x.txt", "x.dcm", "x", "x.gz", "x.raw.zip", "x.npy", "x.vgi",
                          "x.nrrd", "x.mhd.bak", "x.tar.gz"]):
        p = os.path.join(base, name)
        with open(p, "wb") as f:
            f.write(b"0" * 24)
        res, _ = outcome(viqa.load_data, p)
        rec = ctx.ev("unsupported", res=res, _in={"file": name, "outcome": res})
        ctx.neg("unsupported", rec, res="ok")
    for o in ctx.mine([None, 5, 2.5, {"a": 1}, (1, 2), [], [1, 2], [[1, 2], [3, 4]],
                       [np.zeros((2, 2)), np.zeros((2, 2))], b"x.png", {1, 2}, object()]):
        res, _ = outcome(viqa.load_data, o)
        rec = ctx.ev("unsupported", res=res, _in={"input": repr(o)[:80], "outcome": res})
        ctx.neg("unsupported_kind", rec, res="ok")
    for nd in ctx.mine([0, 1, 2, 3, 4, 5] * 3):
        sh = tuple(rng.randrange(1, 4) for _ in range(nd))
        a = npr.integers(0, 9, sh)
        a = np.asarray(a)
        o = rng.choice([a, viqa.ImageArray(a), torch.from_numpy(a)])
        res, _ = outcome(viqa.load_data, o)
        rec = ctx.ev("plain", ndim=nd, res=res, _in={"ndim": nd, "outcome": res})
        ctx.neg("ndim", rec, res="ok" if res != "ok" else "ValueError")
