"""Checks one machine: TLC on the specification, then every transition on the implementation."""
import json
import sys

import common
import walk


def check_repo():
    import pycose
    path = pycose.__file__ or ""
    if not path.startswith(common.REPO + "/"):
        raise SystemExit("pycose is imported from %s, not from %s" % (path, common.REPO))


def run(report, name, module, cls, consts, invariants, budget=100, passes=1, seg_len=400, properties=(), timeout=600, world=None, tlc=None):
    """world: further parameters of the driver that the specification does not know"""
    res = common.run_tlc(module, consts, invariants=list(invariants) + ["Dump"], properties=properties, timeout=timeout, **(tlc or {}))
    report.tlc(name, res)
    graph = walk.Graph(res.pop("lines"))
    if not graph.n_edges:
        raise SystemExit("the specification printed no transitions")
    tot = walk.replay(report, name, cls, dict(consts, **(world or {})), graph, budget=budget, passes=passes, seg_len=seg_len)
    if not report.violations and tot["steps"] == 0:
        raise SystemExit("no transition of %s was executed" % name)
    return graph


def replay_file(path):
    """re-executes the history in a violation file"""
    import importlib
    with open(path) as h:
        data = json.load(h)
    rep = data["replay"]
    print("property %s: %s" % (data["property"], data["what"]))
    mod, cls = rep["module"], rep["machine"]
    mod = importlib.import_module(mod)
    if hasattr(mod, "replay_" + cls):
        return getattr(mod, "replay_" + cls)(rep)
    cls = getattr(mod, cls)
    common.arm()
    consts = {k: set(v) if isinstance(v, list) else v for k, v in rep["consts"].items()}
    try:
        drv = walk.make_driver(cls, consts, tuple(rep["world_seed"]), rep["init"])
        print("world:", drv.describe() if hasattr(drv, "describe") else "")
        s = rep["init"]
        for st in rep["steps"]:
            print(" ", json.dumps(st["op"]), "expected:", st["expected"])
            walk.call_step(drv, st["op"], s, st["state"], st["expected"])
            s = st["state"]
    except common.Violation as v:
        print("REPRODUCED: %s %s" % (v.what, v.detail))
        return 1
    except walk.EndSegment:
        pass
    print("not reproduced")
    return 0
