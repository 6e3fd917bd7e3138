"""One image in all the forms the library accepts."""

import hashlib
import os
import pathlib

import nibabel as nib
import numpy as np
import skimage.io

import tifffile
import torch

BITS = {"uint8": ["8bit", "8ubit"], "uint16": ["16bit", "16ubit"],
        "uint32": ["32bit", "32ubit"], "float16": ["16fbit"], "float32": ["32fbit"],
        "float64": ["64fbit"]}
MET = {"uint8": "MET_UCHAR", "uint16": "MET_USHORT", "uint32": "MET_UINT",
       "float32": "MET_FLOAT", "float64": "MET_DOUBLE"}


def digest(a):
    a = np.ascontiguousarray(np.asarray(a))
    return hashlib.sha256(a.tobytes() + repr(a.shape).encode()).hexdigest()[:16]


def layout(a, lay):
    """Store a with the axis order, steps and signs of a Layout.tla case."""
    d = a.ndim
    perm = [p - 1 for p in lay["perm"]]
    shape = [a.shape[p] * lay["step"][p] for p in perm]
    buf = np.full(shape, 3, dtype=a.dtype)
    v = buf.transpose([perm.index(k) for k in range(d)])
    v = v[tuple(slice(None, None, lay["step"][k]) if lay["sign"][k] > 0 else
                slice(a.shape[k] * lay["step"][k] - lay["step"][k], None, -lay["step"][k])
                for k in range(d))]
    assert v.shape == a.shape
    v[...] = a
    return v


class Store:
    """Writes images to files, keeps them apart by a running number."""

    def __init__(self, d, rng):
        self.d, self.rng, self.n = d, rng, 0

    def stem(self, base):
        """File names with capitals, blanks and dots, all different."""
        self.n += 1
        return self.rng.choice([f"{base}{self.n}", f"{base.upper()}{self.n}_Scan",
                                f"My {base} {self.n}", f"{base}.{self.n}.Rec",
                                f"{base}-{self.n}(2)", f"\u00fc{base}{self.n}"])

    def raw(self, a):
        x, y, z = a.shape
        b = self.rng.choice(BITS[str(a.dtype)])
        p = os.path.join(self.d, f"{self.stem('vol')}_{x}x{y}x{z}_{b}.raw")
        a.ravel(order="F").tofile(p)
        return p

    def mhd(self, a):
        x, y, z = a.shape
        v = self.stem("v")
        a.ravel(order="F").tofile(os.path.join(self.d, f"{v}.raw"))
        p = os.path.join(self.d, f"{v}.mhd")
        lines = ["ObjectType = Image", "NDims = 3",
                 "DimSize = " + self.rng.choice([" ", " ", "  ", "\t"]).join(map(str, a.shape))
                 + self.rng.choice(["", "", " "]),
                 f"ElementType = {MET[str(a.dtype)]}", "ElementSpacing = 1 1 1",
                 f"ElementDataFile = {v}.raw"]
        self.rng.shuffle(lines)
        with open(p, "w") as f:
            f.write("\n".join(lines) + self.rng.choice(["", "\n"]))
        return p

    def nii(self, a, gz=False):
        p = os.path.join(self.d, f"{self.stem('n')}.nii" + (".gz" if gz else ""))
        nib.save(nib.Nifti1Image(a, np.eye(4), dtype=a.dtype), p)
        return p

    def picture(self, a, ext):
        p = os.path.join(self.d, f"{self.stem('p')}.{ext}")
        if ext == "tiff":
            rgb = a.ndim == 3 and a.shape[-1] == 3
            tifffile.imwrite(p, np.ascontiguousarray(a),
                             photometric="rgb" if rgb else "minisblack")
            return p
        skimage.io.imsave(p, np.ascontiguousarray(a), check_contrast=False)
        return p

    def file(self, a, kind):
        if kind in ("raw", "mhd"):
            return getattr(self, kind)(a)
        if kind == "nii":
            return self.nii(a, self.rng.random() < 0.3)
        return self.picture(a, kind)


def file_kinds(a):
    dt, nd = str(a.dtype), a.ndim
    rgb = nd == 3 and a.shape[-1] == 3
    ks = []
    if nd == 3 and not rgb:
        if dt in BITS:
            ks.append("raw")
        if dt in MET:
            ks.append("mhd")
        if dt == "float64":
            ks.append("nii")
        # a leading or trailing extent of 3 or 4 reads as colour channels
        if dt in ("uint8", "uint16") and not {a.shape[0], a.shape[-1]} & {3, 4} \
                and 1 not in a.shape:
            ks.append("tiff")
    if nd == 2:
        if dt in ("uint8", "uint16"):
            ks += ["png", "tiff"]
        if dt == "uint8":
            ks.append("bmp")
        if dt == "float32":
            ks.append("tiff")
    if rgb and dt == "uint8":
        ks += ["png", "tiff", "bmp"]
    return ks


def memory_kinds(a):
    ks = ["array", "readonly", "image", "image_layout", "layout", "memmap"]
    if str(a.dtype) in ("uint8", "int16", "int32", "int64", "float32", "float64"):
        ks += ["tensor", "tensor_strided"]
    return ks


def represent(viqa, a, kind, lay, store):
    """(description, object) holding the same image as a."""
    if kind == "array":
        return a.copy()
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "layout":
        return layout(a, lay)
    if kind == "image":
        return viqa.ImageArray(a.copy())
    if kind == "image_layout":
        return viqa.ImageArray(layout(a, lay))
    if kind == "memmap":
        store.n += 1
        m = np.memmap(os.path.join(store.d, f"mm{store.n}"), dtype=a.dtype, mode="w+",
                      shape=a.shape)
        m[...] = a
        return m
    if kind == "tensor":
        return torch.from_numpy(a.copy())
    if kind == "tensor_strided":
        t = torch.from_numpy(np.ascontiguousarray(a.T)).permute(*range(a.ndim)[::-1])
        return t
    p = store.file(a, kind)
    form = store.rng.choice(["str", "path", "rel"])
    if form == "path":
        return pathlib.Path(p)
    if form == "rel":
        return os.path.relpath(p)
    return p
