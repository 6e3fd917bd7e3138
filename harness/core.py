"""Parent side of a check: TLC design runs, driver child, TLC trace validation.

Nothing in here imports the code under test; that happens in the child process
(`harness.child`), so that a crash or hang of the code is an observation.
"""

import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
PY = "/opt/venv/bin/python"
CHILD_LIMIT = {"quick": 600, "thorough": 6 * 3600}


class MachineryError(Exception):
    pass


def base_env():
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith("PYTHON") and k not in ("JAVA_TOOL_OPTIONS", "CLASSPATH")
    }
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        TQDM_DISABLE="1",
    )
    return env


def tlc(module, cfg_text, scratch, workers=1, env=None, extra=(), timeout=3000,
        heap="2g"):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    cfg = os.path.join(work, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = base_env()
    e.update(env or {})
    cmd = [
        "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
        "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=1" if workers == 1 else
        "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + work,
        "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
        "-metadir", os.path.join(work, "md"), "-workers", str(workers),
        "-config", cfg, *extra, os.path.join(SPEC, module + ".tla"),
    ]
    p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=work,
                       timeout=timeout)
    shutil.rmtree(work, ignore_errors=True)
    return p.returncode, p.stdout, p.stderr


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    i = re.findall(r"Finished computing initial states: (\d+) ", out)
    return int(m[-1][0]) - (int(i[-1]) if i else 1), int(m[-1][1])


def tagged(out, tag):
    """Strings printed by PrintT("@@X ...")."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@' + tag + " "):
            res.append(json.loads(line)[4:])
    return res


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.repo = os.environ.get("VERIF_REPO", "/repo")
        self.t0 = time.time()
        spec = importlib.util.spec_from_file_location(
            "plan_" + pid, os.path.join(VERIF, "harness", "plans.py")
        )
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        self.plan = mod.PLANS[pid]
        self.states = 0
        self.transitions = 0
        self.design_runs = []
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix="viqa_" + pid + "_")

    # -- design ---------------------------------------------------------
    def run_design(self, d):
        """Model-check one design configuration, return the emitted cases."""
        if self.tier == "thorough" and "thorough" in d:
            consts = {**d.get("consts", {}), **d["thorough"]}
        else:
            consts = d.get("consts", {})
        lines = []
        if d.get("spec"):
            lines.append("SPECIFICATION " + d["spec"])
        else:
            lines += ["INIT Init", "NEXT Next"]
        for k, v in consts.items():
            lines.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-")
                         else f"CONSTANT {k} {v}")
        for inv in d.get("invariants", ()):
            lines.append("INVARIANT " + inv)
        for pr in d.get("properties", ()):
            lines.append("PROPERTY " + pr)
        for c in d.get("constraints", ()):
            lines.append("CONSTRAINT " + c)
        lines.append("CHECK_DEADLOCK FALSE")
        rc, out, err = tlc(
            d["module"], "\n".join(lines) + "\n", self.scratch,
            workers=1 if d.get("emit") else d.get("workers", 2),
            env={"VSEED": str(self.seed)},
            heap=d.get("heap", "3g"),
        )
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise MachineryError(
                f"design model {d['module']} failed (rc={rc}):\n{out[-4000:]}\n{err[-500:]}"
            )
        gen, dist = tlc_counts(out)
        self.states += dist
        self.transitions += gen
        cases = [json.loads(x) for x in tagged(out, "C")] if d.get("emit") else []
        self.design_runs.append(
            {"module": d["module"], "constants": consts, "states": dist,
             "generated": gen, "cases_emitted": len(cases)}
        )
        return d.get("emit"), cases

    # -- trace ----------------------------------------------------------
    def chunks(self, trace):
        """Contiguous chunks; stateful traces are cut only at "cut" events."""
        n = len(trace)
        target = max(1, -(-n // self.plan.get("split", 1)))
        cuts = [0]
        for i, ev in enumerate(trace):
            if i and i - cuts[-1] >= target and (
                self.plan.get("stateless") or ev.get("cut")
            ):
                cuts.append(i)
        cuts.append(n)
        return [(cuts[i], cuts[i + 1]) for i in range(len(cuts) - 1)
                if cuts[i] < cuts[i + 1]]

    def validate(self, traces):
        """Validate the events of all shards with the TLC trace specification."""
        mod = self.plan["trace"]
        fails = {}
        errors = []
        lock = threading.Lock()
        slots = threading.Semaphore(8)

        def one(shard, lo, hi):
            path = os.path.join(self.scratch, f"trace_{shard}_{lo}.ndjson")
            with open(path, "w") as f:
                for ev in traces[shard][lo:hi]:
                    f.write(json.dumps({a: b for a, b in ev.items()
                                        if not a.startswith("_")}) + "\n")
            cfg = "SPECIFICATION TSpec\nINVARIANT TDone\nCHECK_DEADLOCK FALSE\n"
            try:
                with slots:
                    rc, out, err = tlc(mod, cfg, self.scratch, env={
                        "VTRACE": path,
                        "VFACTS": os.path.join(self.scratch, f"s{shard}",
                                               "facts.ndjson")})
            except subprocess.TimeoutExpired:
                errors.append("trace validation timed out")
                return
            done = tagged(out, "D")
            if rc != 0 or done != [str(hi - lo)]:
                errors.append(
                    f"trace spec {mod} shard {shard} lines {lo}-{hi} did not complete "
                    f"(rc={rc}): " + out[-3000:] + err[-500:]
                )
                return
            gen, dist = tlc_counts(out)
            with lock:
                self.states += dist
                self.transitions += gen
                for s in tagged(out, "F"):
                    line, cl = json.loads(s)
                    fails[(shard, lo + line - 1)] = sorted(cl)

        ths = [threading.Thread(target=one, args=(sh, *c))
               for sh, tr in enumerate(traces) for c in self.chunks(tr)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errors:
            raise MachineryError(errors[0])
        return fails

    # -- known findings ---------------------------------------------------
    def known(self):
        res = []
        path = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) id=(\S+) clauses=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), set(m.group(3).split(",")), m.group(4)))
        return res

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def spawn(self, shard, nshards):
        d = os.path.join(self.scratch, f"s{shard}")
        os.makedirs(d)
        with open(os.path.join(d, "child.out"), "w") as co:
            return subprocess.Popen(
                [PY, "-m", "harness.child", self.pid, d, str(shard), str(nshards)],
                cwd=VERIF, env={**base_env(), "VERIF_TIER": self.tier,
                                "VERIF_SEED": str(self.seed),
                                "VERIF_REPO": self.repo,
                                "MPLCONFIGDIR": os.path.join(d, "mpl"),
                                "TMPDIR": d},
                stdin=subprocess.DEVNULL, stdout=co, stderr=subprocess.STDOUT,
                start_new_session=True,
            )

    def _run(self):
        nsh = self.plan.get("shards", 1)
        children = [self.spawn(i, nsh) for i in range(nsh)]
        rcs = []
        try:
            cases = {}
            errs = []

            def design_job(d):
                try:
                    name, cs = self.run_design(d)
                    if name:
                        cases.setdefault(name, []).extend(cs)
                except Exception as e:  # noqa: BLE001
                    errs.append(e)

            ths = [threading.Thread(target=design_job, args=(d,))
                   for d in self.plan.get("design", ())]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
            tmp = os.path.join(self.scratch, "cases.tmp")
            with open(tmp, "w") as f:
                json.dump(cases, f)
            os.rename(tmp, os.path.join(self.scratch, "cases.json"))
            end = time.time() + CHILD_LIMIT[self.tier]
            for c in children:
                try:
                    rcs.append(c.wait(timeout=max(0.1, end - time.time())))
                except subprocess.TimeoutExpired:
                    rcs.append("hang")
        finally:
            for c in children:
                if c.poll() is None:
                    try:
                        os.killpg(c.pid, 9)
                    except OSError:
                        pass
                    c.wait()
        traces = []
        extra = []
        for i, rc in enumerate(rcs):
            d = os.path.join(self.scratch, f"s{i}")
            trace = []
            tp = os.path.join(d, "trace.ndjson")
            if os.path.exists(tp):
                for line in open(tp):
                    if line.endswith("\n"):
                        trace.append(json.loads(line))
            traces.append(trace)
            log = open(os.path.join(d, "child.out"), errors="replace").read()
            if rc == "hang":
                extra.append(("termination", "the driven code did not return within "
                              f"{CHILD_LIMIT[self.tier]} s"))
            elif rc < 0:
                extra.append(("crash", f"the driven code died with signal {-rc}"))
            elif rc == 3:
                extra.append(("unexpected_exception", log[-3000:]))
            elif rc != 0:
                raise MachineryError(f"driver failed (rc={rc}):\n{log[-4000:]}")
            if not trace and not extra:
                raise MachineryError("the driver recorded nothing\n" + log[-2000:])
        fails = self.validate(traces)
        trace = {(i, j): ev for i, tr in enumerate(traces) for j, ev in enumerate(tr)}

        # negative controls must be rejected
        negs = [i for i, ev in trace.items() if "neg" in ev]
        bad = {i: c for i, c in fails.items() if "neg" not in trace[i]}
        missed = [i for i in negs if i not in fails]
        for i, c in bad.items():
            if any(x.startswith("machinery") for x in c):
                raise MachineryError(f"{c}: {json.dumps(trace[i])[:2000]}")
        if missed and not bad and not extra:
            raise MachineryError(
                "negative controls accepted by the specification: "
                + json.dumps([trace[i] for i in missed[:3]])[:3000]
            )
        if len(negs) == 0 and not extra and not bad:
            raise MachineryError("no negative controls in the trace")

        known = self.known()
        violations = []
        seen_known = set()
        for i, clauses in sorted(bad.items()):
            ev = trace[i]
            match = next((k for k in known if ev.get("id") and k[0] == ev["id"]
                          and set(clauses) <= k[1]), None)
            if match:
                seen_known.add(match)
            else:
                violations.append((i, clauses))
        for k in sorted(seen_known, key=lambda k: k[0]):
            print(f"KNOWN-FINDING: property={self.pid} {k[2]} [{k[0]}]")

        wall = time.time() - self.t0
        real = len(trace) - len(negs)
        kinds = {}
        outcomes = {}
        for ev in trace.values():
            if "neg" not in ev and "res" in ev:
                outcomes[str(ev["res"])] = outcomes.get(str(ev["res"]), 0) + 1
        for ev in trace.values():
            if "neg" not in ev:
                kinds[ev["k"]] = kinds.get(ev["k"], 0) + 1
        samples = []
        seen = set()
        for ev in trace.values():
            if "neg" not in ev and ev["k"] not in seen and len(samples) < 6:
                seen.add(ev["k"])
                samples.append(ev.get("_in") or
                               {a: b for a, b in ev.items() if len(json.dumps(b)) < 400})
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.plan.get("level", "model_checking"),
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": real,
                "events_by_kind": kinds,
                "outcomes": outcomes,
                "negative_controls_rejected": len(negs) - len(missed),
                "design_runs": self.design_runs,
                "spec": [self.plan["trace"] + ".tla"],
                "samples": samples,
            },
            "assumptions": self.plan.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(violations) + len(extra),
        }
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

        if violations or extra:
            rp = os.path.join(OUT, f"{self.pid}-replay.json")
            with open(rp, "w") as f:
                json.dump(
                    {"property": self.pid, "seed": self.seed, "tier": self.tier,
                     "command": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} "
                                f"{PY} check.py {self.pid}",
                     "driver": [{"clause": c, "detail": t} for c, t in extra],
                     "failures": [{"line": i, "clauses": c, "event": trace[i]}
                                  for i, c in violations[:50]]},
                    f, indent=1)
                f.write("\n")
            for c, t in extra:
                print(f"violated: {c}: {t.strip().splitlines()[-1] if t.strip() else ''}")
            for i, c in violations[:10]:
                print(f"violated: line {i} {c}: "
                      + json.dumps(trace[i].get("_in") or trace[i])[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} states={self.states} events={real} "
              f"negatives={len(negs)} wall={wall:.1f}s")
        return 0
