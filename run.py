#!/usr/bin/env python3
"""Entry point of all checks:   run.py C01 | run.py replay FILE | run.py setup | run.py list

VERIF_TIER=quick|thorough selects the depth, VERIF_SEED the random choices."""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"


def reexec():
    """the interpreter that has the dependencies of pycose; byte code goes to a scratch folder"""
    if os.environ.get("VERIF_CHILD") == "1":
        return
    env = dict(os.environ, VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo")
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    reexec()
    # no byte code from earlier trees is read or written
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pycache-%d" % os.getpid())
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import common
    import machine
    import registry
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    if what == "setup":
        return registry.setup()
    if what == "list":
        for p in sorted(registry.CHECKS):
            print(p, ", ".join(f.__module__ + "." + f.__name__ for f in registry.CHECKS[p]))
        return 0
    machine.check_repo()
    if what == "replay":
        return machine.replay_file(sys.argv[2])
    report = common.Report(what)
    common.arm()
    for f in registry.CHECKS[what]:
        f(report)
        if report.violations and not common.THOROUGH:
            break
    return report.finish()


if __name__ == "__main__":
    sys.exit(main())
