"""Shared plumbing of the checks: scratch space, TLC, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HARNESS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HARNESS)
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception):
    """The check itself could not be carried out."""


def code_env(scratch):
    """Environment in which code from /repo runs: nothing stale, nothing written in /repo."""
    env = dict(os.environ)
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "2"
    env["MPLBACKEND"] = "Agg"
    env.pop("QS_CACHE_TDHO", None)
    env["HOME"] = scratch
    env["PYSCF_TMPDIR"] = scratch
    return env


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed=SEED):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="qsv_")
        self.t0 = time.time()
        self.violations = []      # dicts
        self.known = []           # strings
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def left(self, total=None):
        total = total or (840 if not self.thorough else 3600)
        return total - (time.time() - self.t0)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, simulate=None, depth=None, seed=None, env=None, workers="auto", timeout=600,
            heap="6g", extra=(), source=None):
        """Run TLC on spec/<module>.tla with configuration text or file name `cfg`."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        if "\n" in cfg:
            cfgpath = os.path.join(d, module + ".cfg")
            with open(cfgpath, "w") as f:
                f.write(cfg)
        else:
            cfgpath = os.path.join(SPEC, cfg)
        modpath = os.path.join(SPEC, module + ".tla")
        if source is not None:      # a generated wrapper module that extends one of spec/
            modpath = os.path.join(d, module + ".tla")
            with open(modpath, "w") as f:
                f.write(source)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", cfgpath]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(seed or self.seed)]
        else:
            cmd += ["-workers", str(workers)]
        cmd += list(extra) + [modpath]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = p.stdout
        r = TlcResult(module, p.returncode, out, p.stderr)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model(self, module, cfg, what, **kw):
        """Check a design model; its failure is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("model %s (%s): %s" % (module, what, r.tail()))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append({"module": module, "what": what, "states": r.distinct, "generated": r.generated})
        return r

    def validate(self, module, traces, cfg=None, env=None, timeout=600, what="traces", unit=40, heap="8g"):
        """Check recorded traces against a trace specification; returns mismatches."""
        if not traces:
            return []
        path = self.path("trace_%d.json" % len(os.listdir(self.scratch)))
        with open(path, "w") as f:
            json.dump({"traces": traces}, f, separators=(",", ":"))
        e = {"TRACE": path}
        e.update(env or {})
        r = self.tlc(module, cfg or module + ".cfg", env=e, timeout=timeout, heap=heap)
        os.unlink(path)
        if not r.ok:
            raise CheckError("trace validation %s: %s" % (module, r.tail()))
        done = r.lines("DONE ")
        if len(done) != len(traces):
            raise CheckError("trace validation %s: %d of %d traces reached their end" % (module, len(done), len(traces)))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] = self.cov.get("events_validated", 0) + sum(d["events"] for d in done)
        return r.lines("MISMATCH ")

    # ----------------------------------------------------------- verdicts
    def violation(self, what, replay=None):
        self.violations.append({"what": what, "replay": replay})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        self.cov["samples"] = self.cov["samples"][:4]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations[:20]}, f, indent=1, default=str)
            for v in self.violations[:8]:
                print("  " + str(v["what"])[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))})))
        return 0


class TlcResult:
    def __init__(self, module, rc, out, err):
        self.module, self.rc, self.out, self.err = module, rc, out, err
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = rc == 0 and ("No error has been found" in out or "Finished in" in out) and not re.search(r"^Error:", out, re.M)

    def lines(self, tag):
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                line = json.loads(line)
            if line.startswith(tag):
                res.append(json.loads(line[len(tag):]))
        return res

    def tail(self, n=2500):
        m = re.search(r"^Error:", self.out, re.M)
        i = m.start() if m else -1
        return (self.out[i:i + n] if i >= 0 else self.out[-n:]) + self.err[-500:]


def run_code(ctx, script, args=(), timeout=300, env=None, cwd=None):
    """Run a harness script (which imports the code under test) in a subprocess."""
    e = code_env(ctx.scratch)
    e["VERIF_SEED"] = str(ctx.seed)
    e["VERIF_TIER"] = ctx.tier
    e.update(env or {})
    try:
        p = subprocess.run([PY, os.path.join(HARNESS, script)] + [str(a) for a in args], capture_output=True, text=True,
                           timeout=timeout, env=e, cwd=cwd or ctx.scratch)
    except subprocess.TimeoutExpired:
        return None
    return p
