"""Runs independent cases on all cores; a case function returns a dict of counts and violations."""
import multiprocessing
import sys
import time
import traceback

import common

_F = None


def _call(arg):
    common.arm()
    try:
        return _F(arg)
    except common.Violation as v:
        return {"violations": [(v.what, dict(v.detail, case=repr(arg)[:500]))]}
    except common.Hang:
        return {"violations": [("an operation did not return in time", {"case": repr(arg)[:500]})]}
    except (common.TlcError, MemoryError, OSError, SystemExit):
        return {"error": "%r: %s" % (arg, traceback.format_exc())}
    except Exception as e:
        v = common.unexpected(e)
        return {"violations": [(v.what, dict(v.detail, case=repr(arg)[:500]))]}


def run(report, name, func, args, machine, workers=None, chunksize=1):
    """func(arg) -> {"counts": {...}, "violations": [(what, detail)]}"""
    global _F
    _F = func
    sys.stdout.flush()
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    counts, n = {}, 0
    errors = []
    with ctx.Pool(workers or common.WORKERS) as pool:
        for arg, res in zip(args, pool.imap(_call, args, chunksize=chunksize)):
            n += 1
            if "error" in res:
                errors.append(res["error"])
                continue
            for k, v in res.get("counts", {}).items():
                counts[k] = counts.get(k, 0) + v
            for s in res.get("samples", []):
                report.sample(s)
            for what, detail in res.get("violations", []):
                report.violation("%s: %s" % (name, what), {"module": machine[0], "machine": machine[1], "arg": arg,
                                                           "detail": detail, "key": "%s:%s" % (name, what)})
    if errors:
        raise SystemExit("harness error in %s: %s" % (name, errors[0]))
    for k, v in counts.items():
        report.count(k, v)
    report.extra.setdefault("explorations", []).append(dict(counts, name=name, cases=n, wall_s=round(time.time() - t0, 1)))
    return counts
