"""Child side of a check: drives the real code and records a trace.

Exit codes: 0 done, 3 the driven code raised where no exception may escape,
4 problem of the machinery.
"""

import importlib
import importlib.util
import json
import os
import subprocess
import sys
import sysconfig
import time
import traceback
import warnings


def build_extension(repo, scratch):
    """Compile the C extension of the current tree, outside the tree."""
    import numpy

    src = os.path.join(repo, "src/viqa/fr_metrics/stat_utils/statisticsmodule.c")
    out = os.path.join(
        scratch, "statisticscalc" + sysconfig.get_config_var("EXT_SUFFIX")
    )
    cmd = ["/usr/bin/gcc", "-shared", "-fPIC", "-std=c11", "-O3",
           "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(),
           src, "-o", out, "-lm"]
    subprocess.run(cmd, check=True, capture_output=True)
    return out


def import_viqa(repo, scratch):
    so = build_extension(repo, scratch)
    vlo = sys.modules.get("viqa_leave_out")
    if repo != "/repo" and vlo:         # a scratch copy: QMeasure cannot be built there
        vlo.FILES = {k: v.replace(vlo.SRC, repo + "/src/viqa/") for k, v in vlo.FILES.items()}
        vlo.SRC = repo + "/src/viqa/"
    sys.path.insert(0, os.path.join(repo, "src"))
    name = "viqa.fr_metrics.stat_utils.statisticscalc"
    spec = importlib.util.spec_from_file_location(name, so)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)

    class Finder:
        """Serve the freshly compiled extension instead of one in the tree."""

        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if fullname == name:
                return importlib.util.spec_from_file_location(name, so)
            return None

    sys.meta_path.insert(0, Finder)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import viqa
    assert os.path.realpath(viqa.__file__).startswith(os.path.realpath(repo))
    return viqa, ext


class Ctx:
    def __init__(self, pid, scratch, shard=0, nshards=1):
        self.pid = pid
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.tier = os.environ["VERIF_TIER"]
        self.seed = int(os.environ["VERIF_SEED"])
        self.repo = os.environ["VERIF_REPO"]
        self.thorough = self.tier == "thorough"
        self.f = open(os.path.join(scratch, "trace.ndjson"), "w")
        self.ff = open(os.path.join(scratch, "facts.ndjson"), "w")
        self.nf = 0
        self.n = 0
        self.negs = {}
        self.cases = {}

    def ev(self, k, **fields):
        """Record one event."""
        rec = {"k": k, **fields}
        self.f.write(json.dumps(rec) + "\n")
        self.n += 1
        return rec

    def fact(self, **fields):
        """Record a fact the events refer to by number (from 1)."""
        self.ff.write(json.dumps(fields) + "\n")
        self.nf += 1
        return self.nf

    def neg(self, name, rec, limit=4, **changes):
        """Record a corrupted copy of an event that the spec must reject."""
        if self.negs.get(name, 0) >= limit:
            return
        self.negs[name] = self.negs.get(name, 0) + 1
        self.f.write(json.dumps({**rec, **changes, "neg": name}) + "\n")
        self.n += 1

    def tmp(self, name):
        p = os.path.join(self.scratch, "w", name)
        os.makedirs(p, exist_ok=True)
        return p

    def mine(self, seq):
        """The part of a list this shard works on."""
        return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]

    def share(self, quick, thorough):
        """How many of quick or thorough random cases this shard makes."""
        return len(self.mine(range(self.scale(quick, thorough))))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick


def main():
    pid, scratch = sys.argv[1:3]
    ctx = Ctx(pid, scratch, int(sys.argv[3]), int(sys.argv[4]))
    try:
        import random

        import numpy as np

        ctx.rng = random.Random(1000003 * ctx.seed + 100 * ctx.shard + int(pid[1:]))
        ctx.nprng = np.random.default_rng(
            7919 * ctx.seed + 100 * ctx.shard + int(pid[1:])
        )
        try:
            viqa, ext = import_viqa(ctx.repo, scratch)
        except Exception:
            traceback.print_exc()
            sys.exit(3)
        ctx.viqa, ctx.ext = viqa, ext
        drv = importlib.import_module("harness." + pid.lower())
        path = os.path.join(os.path.dirname(scratch), "cases.json")
        while not os.path.exists(path):
            time.sleep(0.02)
        ctx.cases = json.load(open(path))
    except Exception:
        traceback.print_exc()
        sys.exit(4)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    try:
        drv.run(ctx)
    except Exception:
        traceback.print_exc()
        ctx.f.close()
        ctx.ff.close()
        sys.exit(3)
    ctx.f.close()
    ctx.ff.close()


if __name__ == "__main__":
    main()
