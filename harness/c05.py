"""C05: a score does not depend on what was scored before."""

import itertools

import numpy as np
import torch

from harness import metrics as M
from harness.lib import call, num
from harness.zygote import Zygote


def vec(v):
    if isinstance(v, (list, tuple)):
        return [num(x) for x in v]
    if isinstance(v, np.ndarray) and v.ndim:
        return [num(x) for x in v.ravel()]
    return [num(v)]


def circuit(xs):
    """A walk in which every element directly follows every element once."""
    left = {a: list(xs) for a in xs}
    stack, out = [xs[0]], []
    while stack:
        a = stack[-1]
        if left[a]:
            stack.append(left[a].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def world(viqa):
    """Metric settings, images and calls: the same in every process."""
    g = np.random.default_rng(5)
    pairs = {}
    for n, shape in {"p": (46, 44), "q": (52, 60), "v": (46, 48, 3 + 2)}.items():
        r, m = M.visible(g, M.smooth(g, shape))
        pairs[n] = (r, m)
    rgb = np.stack([M.smooth(g, (46, 47)) for _ in range(3)], -1)
    pairs["c"] = (rgb, np.ascontiguousarray(rgb[::-1]))
    pairs["d"] = (rgb, np.ascontiguousarray(rgb[..., [1, 2, 0]]))
    rgb2 = rgb.copy()
    rgb2[3:9, 5:11, 1] //= 2
    pairs["e"] = (rgb, rgb2)
    pairs["i"] = (pairs["p"][0], pairs["p"][0].copy())
    # close relatives of a pair: what a shortcut might take for the same images
    near = pairs["p"][0].copy()
    near[np.unravel_index(near.argmax(), near.shape)] -= 1
    pairs["n"] = (pairs["p"][0], near)
    pairs["s"] = pairs["p"][::-1]
    pairs["f"] = tuple(x.astype(np.float64) for x in pairs["p"])
    mir = np.ascontiguousarray(pairs["p"][1][:, ::-1])
    pairs["t"] = (pairs["p"][0], mir)
    # "SSIM+norm" is an SSIM object with other constructor settings
    kinds = dict(M.MORE)
    for k in M.MORE:
        for c in CTOR:
            if c == "chromatic" and k not in ("RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM",
                                              "VIFp", "VSI"):
                continue
            kinds[f"{k}+{c}"] = M.MORE[k][:1]
    calls = {}
    for k_, vs in kinds.items():
        cs = []
        k, _, ctor = k_.partition("+")
        for vi, prm in enumerate(vs):
            for p in pairs:
                if vi > 2 and p not in "pq":
                    continue
                prm2 = dict(prm)
                if ctor == "chromatic" and k == "SSIM":
                    prm2["color_weights"] = [0.2, 0.3, 0.5]
                if p == "v":
                    if k in M.SLICED:
                        prm2["dim"] = 2
                        if k not in ("RMSE", "PSNR", "SSIM", "UQI") and vi == 0:
                            prm2["im_slice"] = 1
                    elif k in ("SNR", "CNR"):
                        for c in ("signal_center", "background_center"):
                            if c in prm2:
                                prm2[c] = (*prm2[c], 2)
                        prm2["radius"] = 2
                    elif k == "SSIM" or k == "UQI":
                        prm2.update(win_size=3)
                        if k == "SSIM":
                            prm2["gaussian_weights"] = False
                cs.append((p, prm2))
        # failing calls
        if k in ("SNR", "CNR"):
            cs.append(("p", {**vs[0], "radius": 300}))
            cs.append(("p", {**vs[0], "region_type": "nonsense"}))
        else:
            cs.append(("shape", dict(vs[0])))
            cs.append(("dtype", dict(vs[0])))
            cs.append(("p", {"win_size": 4} if k in ("SSIM", "UQI") else {"nonsense": 3}))
        if k == "MAD":
            cs += [("p", {"block_size": 400}), ("p", {"block_size": 8, "block_overlap": 2}),
                   ("v", {"block_size": 16}), ("q", {"block_size": 24, "weights": [1]}),
                   ("q", {"block_size": 10, "block_overlap": 0.5, "thresholds": [1]})]
        if k in M.SLICED:
            cs += [("v", {**vs[0]}), ("v", {**vs[0], "dim": 7}),
                   ("v", {**vs[0], "dim": 1, "im_slice": 1.5})]
        calls[k_] = cs
    pairs["shape"] = (pairs["p"][0], pairs["q"][1])
    pairs["dtype"] = (pairs["p"][0], pairs["p"][1].astype(np.float32))
    return pairs, calls


CTOR = {"norm": {"normalize": True}, "norm1": {"normalize": True, "data_range": 1},
        "roi": {"roi": [(1, 46), (0, 44)]}, "chromatic": {"chromatic": True}}
FAMILY = "pinsft"
BUF = {}


def family(k):
    return "cde" if k.endswith("chromatic") else FAMILY


def new(viqa, k):
    k, _, c = k.partition("+")
    return M.make(viqa, k, **(CTOR[c] if c else {}))


def do(mt, k, pairs, c, reuse=False):
    k = k.partition("+")[0]
    p, prm = c
    prm = {a: (list(b) if isinstance(b, list) else b) for a, b in prm.items()}
    r, m = pairs[p]
    if reuse:
        # the caller fills the same arrays with other pixels
        for w, x in (("r", r), ("m", m)):
            b = BUF.setdefault((w, x.shape, x.dtype), np.empty_like(x))
            b[...] = x
            if w == "r":
                r = b
            else:
                m = b
    if k in ("SNR", "CNR"):
        return call(mt.score, m, **prm)
    return call(mt.score, r, m, **prm)


def run(ctx):
    viqa, rng = ctx.viqa, ctx.rng
    torch.set_num_threads(1)
    pairs, calls = world(viqa)

    def fresh(k, ci):
        res, v = do(new(viqa, k), k, pairs, calls[k][ci])
        return {"ok": res == "ok", "v": vec(v), "res": res}

    zyg = Zygote(fresh)
    facts = {}

    def fact(k, ci):
        if (k, ci) not in facts:
            f = zyg(k, ci)
            facts[k, ci] = (ctx.fact(kind=k, call=ci, res=f["res"], ok=f["ok"], v=f["v"]), f)
        return facts[k, ci]

    def vals(objs):
        return [vec(o.score_val) for o in objs]

    def score(objs, kinds, o, ci):
        k = kinds[o]
        n, f = fact(k, ci)
        reuse = rng.random() < 0.4
        res, v = do(objs[o], k, pairs, calls[k][ci], reuse)
        rec = ctx.ev("score", o=o + 1, fact=n, ok=res == "ok", ret=vec(v), vals=vals(objs),
                     cut=False, _in={"objects": kinds, "on": o, "call": [calls[k][ci][0],
                                     repr(calls[k][ci][1])], "outcome": res,
                                     "same_arrays_refilled": reuse, "fresh": f["res"]})
        if res == "ok" and rec["ret"][0]["k"] == "n":
            r2 = [num(float(v if np.ndim(v) == 0 else np.ravel(v)[0]) * 1.01 + 0.01),
                  *rec["ret"][1:]]
            ctx.neg("score", rec, ret=r2)
            ctx.neg("remembered", rec, vals=[
                r2 if i == o else x for i, x in enumerate(rec["vals"])])
            ctx.neg("outcome", rec, ok=False)
        elif res != "ok":
            ctx.neg("failure", rec, vals=[[num(77.7)] if i == o else x
                                          for i, x in enumerate(rec["vals"])])

    def read(objs, kinds, o, what):
        if what == "print":
            call(objs[o].print_score)
            call(objs[o].print_score, decimals=0)
            call(repr, objs[o])
        elif what == "cmp":
            call(lambda: [objs[0] < objs[1], objs[0] == objs[1], objs[o] > 3])
            call(sorted, objs)
        else:
            call(viqa.export_results, objs, ctx.tmp("out"), "x.csv", return_dict=True)
            call(viqa.fuse_metrics_linear_combination, objs, [1.0] * len(objs))
        rec = ctx.ev("read", vals=vals(objs), cut=False, _in={"objects": kinds, "read": what})
        ctx.neg("read", rec, vals=[[num(5.5)]] * len(objs))

    def session(kinds):
        objs = [new(viqa, k) for k in kinds]
        rec = ctx.ev("new", vals=vals(objs), cut=True, _in={"objects": kinds})
        ctx.neg("new", rec, vals=[[num(0)]] * len(objs))
        return objs

    K = list(calls)
    PLAIN = [k for k in K if "+" not in k]
    okc = {k: [i for i, c in enumerate(calls[k])] for k in K}

    # histories of the model, with concrete metrics and calls
    hs = ctx.mine(ctx.cases["hist"])
    rng.shuffle(hs)
    combos = [(a, b) for a in PLAIN for b in PLAIN]
    rng.shuffle(combos)
    more = [(a, b) for a in K for b in K if a.partition("+")[0] == b.partition("+")[0]]
    rng.shuffle(more)
    n = ctx.share(360, 20000)
    for j in range(n):
        h = hs[j % len(hs)]
        kinds = list(combos[j % len(combos)])
        if j % 3 == 0:
            kinds = [kinds[0]] * 2
        if j % 9 == 0:
            kinds = ["MAD", "MAD"]
        if j % 4 == 3:
            kinds = list(more[j % len(more)])
        objs = session(kinds)
        inp = {}
        bad = {}
        for o in (0, 1):
            k = kinds[o]
            good = [i for i in okc[k] if fact(k, i)[1]["ok"]]
            wrong = [i for i in okc[k] if not fact(k, i)[1]["ok"]]
            fam = [i for i in good if calls[k][i][0] in family(k)]
            img = rng.choice("pqv")
            here = [i for i in good if calls[k][i][0] == img]
            if j % 4 == 0 and len(here) > 2:
                good = here             # the same images with different settings
            elif j % 2 and len(fam) > 2:
                # the same setting, so that only the images differ
                one = calls[k][rng.choice(fam)][1]
                same = [i for i in fam if calls[k][i][1] == one]
                good = same if len(same) > 2 else good
            inp[o] = dict(zip("ABC", rng.sample(good, min(3, len(good))) * 3))
            bad[o] = wrong
        for op in h:
            o = op["o"] - 1
            if op["op"] == "score":
                score(objs, kinds, o, inp[o][op["i"]])
            elif op["op"] == "fail":
                score(objs, kinds, o, rng.choice(bad[o]))
            else:
                read(objs, kinds, o, op["op"])

    # one object of every kind: every related input directly after every other one
    for k in ctx.mine(K):
        fam = [i for i in okc[k] if calls[k][i][0] in family(k) and fact(k, i)[1]["ok"]]
        first = calls[k][fam[0]][1]
        fam = [i for i in fam if calls[k][i][1] == first]
        fam += [i for i in okc[k] if not fact(k, i)[1]["ok"]][:1]
        objs = session([k])
        for ci in circuit(fam):
            score(objs, [k], 0, ci)
        # every setting directly after every other one on the same images
        sets = [i for i in okc[k] if calls[k][i][0] == "p" and fact(k, i)[1]["ok"]]
        if len(sets) > 2:
            objs = session([k])
            for ci in circuit(sets):
                score(objs, [k], 0, ci)

    # long random histories over many objects
    for _ in range(ctx.share(8, 150)):
        kinds = [rng.choice(K) for _ in range(5)]
        objs = session(kinds)
        for _ in range(ctx.scale(14, 60)):
            o = rng.randrange(5)
            if rng.random() < 0.15:
                read(objs, kinds, o, rng.choice(["print", "cmp", "export"]))
            else:
                score(objs, kinds, o, rng.choice(okc[kinds[o]]))
        # several metrics at once: each object remembers its own value
        fr = [i for i, k in enumerate(kinds) if k in M.FR]
        if not fr:
            continue
        cis = {i: rng.choice([c for c in okc[kinds[i]] if calls[kinds[i]][c][0] == "p"
                              and fact(kinds[i], c)[1]["ok"]]) for i in fr}
        sub = [objs[i] for i in fr]
        if len({o._name for o in sub}) == len(sub):
            mm = viqa.MultipleMetrics(sub, [dict(calls[kinds[i]][cis[i]][1]) for i in fr])
            res, v = call(mm.calculate, *pairs["p"])
            for i in fr:
                ctx.ev("new", vals=[vec(None)], cut=True)
                ctx.ev("score", o=1, fact=fact(kinds[i], cis[i])[0], ok=res == "ok",
                       ret=vec(v[objs[i]._name] if v else None),
                       vals=[vec(objs[i].score_val)], cut=False,
                       _in={"objects": kinds, "several metrics": True})
