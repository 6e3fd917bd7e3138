"""Build a planted bug from a definition file and confirm it in a scratch copy.

mkseed.py DEF.py ...: DEF.py defines PROP, NEEDS, BREAKS, EDITS (file, old, new)
and DEMO (python source, exit 0 = fine). Written to /verif/seeded/<DEF name>/ only if
it applies, passes the stable tests and the demo tells the two trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      "seeded")
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for this input
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=${PYTHONPATH:-$PWD/src} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
scratch=$(mktemp -d) || exit 99
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR=$scratch
/opt/venv/bin/python "$here/demo.py" "$scratch"
'''
TEST = '''. {common}
export PYTHONPATH={work}/../shim:{work}/src
build_ext || exit 1
ulimit -v $((24 * 1024 * 1024))
$PY -m pytest -q -p no:cacheprovider --no-cov --timeout=600 \\
    --continue-on-collection-errors -p randomly --randomly-seed=1 \\
    --randomly-dont-reorganize -n 4 --ignore=src/viqa/nr_metrics/qmeasure.py \\
    --ignore=src/viqa/utils/_build -o junit_family=xunit2 --junitxml={work}/report.xml
/usr/bin/python3 /opt/vp/results.py {work}/out.json junit:{work}/report.xml
'''


def demo(folder, cwd):
    env = dict(os.environ)
    if cwd != "/repo":
        env["PYTHONPATH"] = os.path.dirname(cwd) + "/shim:" + cwd + "/src"
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=env,
                          capture_output=True, text=True, timeout=300)


def build(path):
    name = os.path.splitext(os.path.basename(path))[0]
    d = runpy.run_path(path)
    tmp = tempfile.mkdtemp(prefix="seed")
    work = os.path.join(tmp, "repo")
    shutil.copytree("/repo", work, symlinks=True)
    os.mkdir(os.path.join(tmp, "shim"))
    with open(os.path.join(tmp, "shim", "viqa_leave_out.py"), "w") as f:
        f.write(open("/opt/vp/support/viqa_leave_out.py").read()
                .replace("/repo/", work + "/"))
    try:
        for file, old, new in d["EDITS"]:
            p = os.path.join(work, file)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{name}: {file}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True,
                              text=True, check=True).stdout
        # the changed lines must be original ones
        base = subprocess.run(["git", "-C", work, "rev-list", "--max-parents=0",
                               "HEAD"], capture_output=True, text=True).stdout.split()
        note = ""
        for file, old, new in d["EDITS"]:
            orig = subprocess.run(["git", "-C", work, "show", f"{base[0]}:{file}"],
                                  capture_output=True, text=True).stdout
            olds = [l for l in old.splitlines()
                    if l.strip() and l not in new.splitlines()]
            for l in olds:
                if l not in orig.splitlines():
                    note += f" NOT ORIGINAL: {l!r}"
        folder = os.path.join(tmp, name)
        os.mkdir(folder)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(folder, "demo.py"), "w").write(d["DEMO"].lstrip())
        json.dump({"property": d["PROP"], "needs": d["NEEDS"],
                   "what_it_breaks": d["BREAKS"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        a = demo(folder, "/repo")
        if a.returncode:
            return f"{name}: demo fails on /repo: {a.stdout[-500:]}{a.stderr[-1500:]}"
        common = open("/opt/vp/support/common.sh").read().replace("/repo", work)
        open(os.path.join(tmp, "common.sh"), "w").write(common)
        t = subprocess.run(["bash", "-c", TEST.format(
            common=os.path.join(tmp, "common.sh"), work=work)],
            capture_output=True, text=True)
        b = demo(folder, work)
        if not b.returncode:
            return f"{name}: demo passes with the bug"
        try:
            passed = set(json.load(open(os.path.join(work, "out.json")))["passed"])
        except OSError:
            return f"{name}: no test result: {t.stdout[-2000:]}{t.stderr[-500:]}"
        lost = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
        lost = [t for t in lost if not t.startswith("src.viqa.")]  # doctests need /repo
        if lost:
            return f"{name}: tests fail: {lost[:5]}"
        dest = os.path.join(SEEDED, name)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(folder, dest)
        tail = (b.stdout + b.stderr).strip().splitlines()[-1:]
        return f"{name}: kept ({tail}){note}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        print(build(p), flush=True)
