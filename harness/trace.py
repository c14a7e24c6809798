"""Code -> specification: histories are recorded from the library by random clients that know nothing about the
specification, and TLC decides whether each of them is a behaviour of the specification."""
import copy
import json
import multiprocessing
import os
import sys
import time

import common
from common import Hang, Violation


def record(cls, args, seed, length):
    """one recorded history: {"init", "ev": [{"o", "r", "t"}]} or the Violation the client ran into"""
    import random
    rec = None
    try:
        with common.limit(240):
            rec = cls(args, random.Random(repr(seed)))
            out = {"init": rec.begin(), "ev": []}
            limit = min(length, getattr(rec, "max_steps", length))
            while len(out["ev"]) < limit:
                out["ev"].append(rec.event())
            return out, None, rec
    except Violation as v:
        return None, v, rec
    except Hang:
        return None, Violation("an operation did not return in time"), rec
    except Exception as e:
        return None, common.unexpected(e), rec


def corrupted(t):
    t = copy.deepcopy(t)
    for e in reversed(t["ev"]):
        if e["r"] in ("ok", "bad"):
            e["r"] = "bad" if e["r"] == "ok" else "ok"
            return t
    t["ev"][-1]["r"] = "corrupted"
    return t


def _worker(a):
    cls, args, name, n, length, deadline = a
    common.arm()
    res = []
    for i in n:
        if time.time() > deadline:
            break
        seed = (common.SEED, "trace", name, i)
        t, v, rec = record(cls, args, seed, length)
        res.append((seed, t, (v.what, v.detail) if v else None, getattr(rec, "counters", {})))
    return res


def run(report, name, module, cls, args, consts, invariants, traces=64, length=200, budget=60):
    """module: a specification with TSpec and Conforms that reads traces.json"""
    if common.THOROUGH:
        traces *= 10
        budget *= 5
    deadline = time.time() + budget
    t0 = time.time()
    w = common.WORKERS
    jobs = [(cls, args, name, list(range(i, traces, w)), length, deadline) for i in range(w)]
    sys.stdout.flush()
    with multiprocessing.get_context("fork").Pool(w, maxtasksperchild=1) as pool:
        rows = [x for r in pool.map(_worker, jobs, chunksize=1) for x in r]
    seeds, good = [], []
    base = {"machine": "Trace", "module": "trace", "client": [cls.__module__, cls.__name__], "args": common_json(args), "length": length}
    for seed, t, v, counts in rows:
        for c, m in counts.items():
            report.count(c, m)
        if v:
            report.violation("%s: %s" % (name, v[0]), dict(base, world_seed=list(seed), what=v[0], detail=v[1], key="%s:%s" % (name, v[0])))
        else:
            seeds.append(seed)
            good.append(t)
    if not good:
        if not report.violations:
            raise SystemExit("no history was recorded")
        return
    rec_s = round(time.time() - t0, 1)
    # the last of them is a copy with one altered outcome, which the specification has to refuse
    probe = corrupted(good[0])
    lines, per = [], 400
    for i in range(0, len(good), per):
        part = good[i:i + per] + [probe]
        res = common.run_tlc(module, consts, invariants=list(invariants) + ["Conforms"], spec="TSpec", files={"traces.json": json.dumps(part)})
        report.tlc(name, res)
        got = res.pop("lines")
        if len(part) not in {l["k"] for l in got}:
            raise SystemExit("%s accepted an altered history" % module)
        lines += [dict(l, k=l["k"] - 1 + i) for l in got if l["k"] != len(part)]
    refused = set()
    for l in lines:
        if l["k"] in refused:
            continue
        refused.add(l["k"])
        t = good[l["k"]]
        ev = t["ev"][l["n"] - 1]
        what = "recorded history: the specification says %r after %s, the library %r" % (l["r"], json.dumps(ev["o"], sort_keys=True), ev["r"]) \
            if l["r"] != ev["r"] else "recorded history: the objects do not have the specified contents after %s" % json.dumps(ev["o"], sort_keys=True)
        report.violation("%s: %s" % (name, what), dict(base, world_seed=list(seeds[l["k"]]), what=what, init=t["init"],
                                                       steps=t["ev"][:l["n"]], specified=l, key="%s:%s" % (name, what)))
    report.traces(len(good))
    report.sample({"recorded": name, "init": good[0]["init"], "steps": good[0]["ev"][:6], "of": len(good[0]["ev"])})
    report.extra.setdefault("recorded", []).append({"model": name, "histories": len(good), "events": sum(len(t["ev"]) for t in good),
                                                    "refused": len(refused), "record_s": rec_s, "wall_s": round(time.time() - t0, 1)})
    if os.environ.get("VERIF_VERBOSE"):
        print(report.extra["recorded"][-1], flush=True)


def common_json(a):
    return {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in a.items()}


def replay_Trace(rep):
    import importlib
    common.arm()
    mod, cls = rep["client"]
    cls = getattr(importlib.import_module(mod), cls)
    t, v, rec = record(cls, rep["args"], tuple(rep["world_seed"]), rep["length"])
    if rec is not None and hasattr(rec, "describe"):
        print("world:", rec.describe())
    if v is not None:
        print("REPRODUCED: %s %s" % (v.what, v.detail))
        return 1
    if "steps" not in rep:
        print("not reproduced")
        return 0
    n = len(rep["steps"])
    for e in t["ev"][:n]:
        print(" ", json.dumps(e["o"]), "->", e["r"])
    if json.dumps(t["ev"][n - 1], sort_keys=True) == json.dumps(rep["steps"][-1], sort_keys=True):
        print("REPRODUCED: %s" % rep["what"])
        print("specified:", json.dumps(rep["specified"]))
        return 1
    print("not reproduced")
    return 0
