"""Shared plumbing of the conformance harness: environment, TLC, reporting."""
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))


class Violation(Exception):
    """Raised by drivers when the implementation leaves the specification."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


def unexpected(e):
    """An exception that no driver provides for: the library did something no operation of the specification
    does.  Exhausted resources are not the library's fault."""
    if isinstance(e, (MemoryError, OSError)):
        raise e
    import traceback
    return Violation("unexpected %s: %s" % (type(e).__name__, str(e)[:200]), {"trace": traceback.format_exc()[-2500:]})


class Hang(BaseException):
    """An operation of the library did not return in time."""


def _on_alarm(_sig, _frame):
    raise Hang()


def arm():
    signal.signal(signal.SIGALRM, _on_alarm)


class limit:
    """with limit(seconds): an operation of the library that must return"""

    def __init__(self, seconds=30):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def rng(*parts):
    return random.Random(repr((SEED,) + parts))


# ------------------------------------------------------------------------ TLC
class TlcError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in sorted(v.items())) + "]"
    raise TypeError(v)


def run_tlc(module, constants=None, invariants=(), properties=(), spec="Spec", extra=(), workers=None,
            timeout=800, files=None, simulate=None, postcondition=None, heap="6g", view=None,
            constraints=(), init_next=None, deadlock=False):
    """Runs TLC on specs/<module>.tla.  Returns a dict with the statistics and the lines that the
    specification printed with the prefix @@ (decoded from JSON).  Raises TlcError when TLC reports
    anything but success: the specification itself is then wrong."""
    tmp = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), tmp)
        for name, text in (files or {}).items():
            with open(os.path.join(tmp, name), "w") as h:
                h.write(text)
        cfg = []
        if init_next:
            cfg += ["INIT " + init_next[0], "NEXT " + init_next[1]]
        elif spec:
            cfg.append("SPECIFICATION " + spec)
        if constants:
            cfg.append("CONSTANTS")
            cfg += [" %s = %s" % (k, tla(v)) for k, v in constants.items()]
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for p in properties:
            cfg.append("PROPERTY " + p)
        for c in constraints:
            cfg.append("CONSTRAINT " + c)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if view:
            cfg.append("VIEW " + view)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(tmp, "run.cfg"), "w") as h:
            h.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", TLA_JARS,
               "tlc2.TLC", "-workers", str(workers or WORKERS), "-metadir", os.path.join(tmp, "meta"),
               "-config", "run.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module + ".tla"]
        t0 = time.time()
        out_path = os.path.join(tmp, "out")
        with open(out_path, "w") as out:
            try:
                rc = subprocess.run(cmd, cwd=tmp, stdout=out, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise TlcError("TLC timed out on %s" % module)
        lines, log = [], []
        res = {"module": module, "states": 0, "generated": 0, "depth": 0, "lines": lines, "rc": rc,
               "wall_s": round(time.time() - t0, 2)}
        with open(out_path) as h:
            for line in h:
                if line.startswith('"@@'):
                    lines.append(json.loads(json.loads(line)[2:]))
                    continue
                if "states generated," in line and "distinct states found" in line:
                    w = line.replace(",", "").split()
                    res["generated"], res["states"] = int(w[0]), int(w[3])
                elif line.startswith("The depth of the complete state graph"):
                    res["depth"] = int(line.rstrip(".\n").split()[-1])
                log.append(line)
        res["log"] = "".join(log[-60:])
        if rc != 0:
            err = TlcError("TLC on %s exited with %d:\n%s" % (module, rc, "".join(
                x for x in log if not x.startswith(("Parsing", "Semantic", "Linting")))[-6000:]))
            err.result = res
            raise err
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ reporting
def known_findings():
    """entries of known_findings.json that are findings (not fixed)"""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as h:
        return json.load(h).get("findings", [])


class Report:
    """Collects what a check covered and what it found, and writes the evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.violations = []

    def tlc(self, name, res):
        self.cov["states"] += res["states"]
        self.cov["transitions"] += res["generated"]
        self.extra.setdefault("models", []).append(
            {"model": name, "states": res["states"], "transitions": res["generated"], "depth": res["depth"],
             "tlc_s": res["wall_s"]})

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s, cap=12):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        """replay: JSON-able dict with everything needed to reproduce it"""
        self.violations.append((what, replay))

    def finish(self):
        listed = known_findings()
        fresh = []
        for what, replay in self.violations:
            hit = None
            for k in listed:
                if k.get("property") == self.prop and k.get("key") == replay.get("key"):
                    hit = k
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["what"]))
            else:
                fresh.append((what, replay))
        paths = []
        if fresh:
            d = os.path.join(VERIF, "evidence", "violations")
            os.makedirs(d, exist_ok=True)
            for n, (what, replay) in enumerate(fresh[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as h:
                    json.dump({"property": self.prop, "what": what, "seed": SEED, "replay": replay}, h, indent=1,
                              default=lambda x: x.hex() if isinstance(x, bytes) else repr(x))
                paths.append((what, p))
        cov = dict(self.cov)
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=lambda x: x.hex() if isinstance(x, bytes) else repr(x))
        for what, p in paths:
            print("  %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %d states, %d transitions, %d traces validated, %d violations, %.1f s" % (
            self.prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(fresh),
            ev["wall_s"]))
        sys.stdout.flush()
        return 1 if fresh else 0
