"""Replays the labelled transition relation of a specification, as printed by its Dump invariant, on the
real library: every transition is executed at least once, reached through a path of other transitions
(a transition tour), and after every step outcome and state are compared with the specification."""
import collections
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

import common
from common import Hang, Violation


BAD = ("bad", "false", "refused")
PROBING = 0.25


class EndSegment(Exception):
    """the driver cannot continue this path, without anything being wrong"""


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    def __init__(self, lines):
        lines = sorted(((key(l["s"]), l) for l in lines), key=lambda p: p[0])
        self.index = {k: n for n, (k, _) in enumerate(lines)}
        self.states = [l["s"] for _, l in lines]
        self.init = [n for n, (_, l) in enumerate(lines) if l["i"]]
        ops, opi = [], {}
        self.edges = []
        # states at the end of bounded histories are not printed
        for _, l in list(lines):
            for e in l["x"]:
                k = key(e["t"])
                if k not in self.index:
                    self.index[k] = len(lines)
                    lines.append((k, {"s": e["t"], "i": False, "x": []}))
                    self.states.append(e["t"])
        for _, l in lines:
            out = []
            for e in sorted(l["x"], key=lambda e: key(e["o"])):
                k = key(e["o"])
                if k not in opi:
                    opi[k] = len(ops)
                    ops.append(e["o"])
                out.append((opi[k], e["r"], self.index[key(e["t"])]))
            self.edges.append(out)
        self.ops = ops
        self._succs = {}
        self._probes = {}
        self.n_edges = sum(map(len, self.edges))

    def _succ(self, s, n0):
        """one edge per successor state, starting anywhere"""
        if s not in self._succs:
            first = {}
            for n, (_, _, t) in enumerate(self.edges[s]):
                if t != s:
                    first.setdefault(t, n)
            self._succs[s] = list(first.values())
        x = self._succs[s]
        n0 = n0 % len(x) if x else 0
        return x[n0:] + x[:n0]

    def probe(self, s, names, rnd):
        """one of the transitions of this state that only ask, those with a positive answer first"""
        if s not in self._probes:
            es = [n for n, (o, _, t) in enumerate(self.edges[s]) if t == s and self.ops[o]["name"] in names]
            self._probes[s] = [n for n in es if self.edges[s][n][1] not in BAD] or es
        x = self._probes[s]
        return rnd.choice(x) if x else None

    def path_to(self, goal):
        """shortest path (list of edge numbers) from an initial state"""
        prev = {n: None for n in self.init}
        todo = collections.deque(self.init)
        while todo:
            s = todo.popleft()
            if s == goal:
                path = []
                while prev[s] is not None:
                    s, e = prev[s]
                    path.append(e)
                return s, path[::-1]
            for n, (_, _, t) in enumerate(self.edges[s]):
                if t not in prev:
                    prev[t] = (s, n)
                    todo.append(t)
        raise KeyError(goal)

    def nearest(self, start, todo, rnd, avoid=()):
        """path from start to a state that has untested transitions"""
        prev = {start: None}
        queue = collections.deque([start])
        while queue:
            s = queue.popleft()
            if s != start and todo.get(s):
                path = []
                while prev[s] is not None:
                    s, e = prev[s]
                    path.append(e)
                return path[::-1]
            n0 = rnd.randrange(len(self.edges[s]) or 1)
            for n in self._succ(s, n0):
                t = self.edges[s][n][2]
                if t not in prev:
                    prev[t] = (s, n)
                    queue.append(t)
        return None


def call_step(drv, op, s, t, r):
    """one step on the implementation and its comparison with the specification"""
    with common.limit(60):
        try:
            seen = drv.step(op, s, t, r)
        except (Violation, EndSegment):
            raise
        except Hang:
            raise Violation("the operation did not return within 60 s")
        except Exception as e:
            raise common.unexpected(e)
    if seen != r:
        raise Violation("outcome: the specification says %r, the library says %r" % (r, seen),
                        {"error": getattr(drv, "last_error", None)})
    if drv.walk_blind is not None and drv.walk_blind.random() < 0.7:
        return                                   # in some histories nobody looks at the objects in between
    look(drv, t)


def look(drv, t):
    with common.limit(60):
        try:
            drv.observe(t)
        except (Violation, EndSegment):
            raise
        except Hang:
            raise Violation("observing the object did not return within 60 s")
        except Exception as e:
            raise Violation("observing the object raised %r" % e, {"trace": traceback.format_exc()[-1500:]})


def make_driver(cls, consts, seed, s):
    with common.limit(120):
        try:
            drv = cls(consts, random.Random(repr(seed)))
            blind = random.Random("blind" + repr(seed))
            drv.walk_blind = blind if blind.random() < 0.15 else None
            drv.start(s)
            drv.observe(s)
            return drv
        except (Violation, EndSegment):
            raise
        except Hang:
            raise Violation("setting up the objects did not return within 120 s")
        except Exception as e:
            raise Violation("setting up the objects raised %r" % e, {"trace": traceback.format_exc()[-2500:]})


def run_path(cls, consts, graph, seed, init, path):
    """replays one path from the beginning; returns the Violation or None"""
    s = init
    n = -1
    try:
        drv = make_driver(cls, consts, seed, graph.states[s])
        for n, e in enumerate(path):
            o, r, t = graph.edges[s][e]
            call_step(drv, graph.ops[o], graph.states[s], graph.states[t], r)
            s = t
    except EndSegment:
        return None, None
    except Violation as v:
        return v, n
    return None, None


def _describe(graph, cls, consts, seed, init, path, v, n):
    s, steps = init, []
    for e in path[:n + 1]:
        o, r, t = graph.edges[s][e]
        steps.append({"op": graph.ops[o], "expected": r, "state": graph.states[t]})
        s = t
    return {"machine": cls.__name__, "module": cls.__module__, "consts": consts_json(consts), "world_seed": list(seed),
            "init": graph.states[init], "steps": steps, "what": v.what, "detail": v.detail,
            "key": "%s:%s:%s" % (cls.__name__, key(steps[-1]["op"]) if steps else "init", v.what)}


def consts_json(consts):
    return {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in consts.items()}


def _worker(args):
    cls, consts, name, shard, shards, seg_len, deadline, passes, max_viol = args
    common.arm()
    g = _GRAPH
    out = {"steps": 0, "segments": 0, "covered": 0, "violations": [], "samples": [], "counters": {}}
    for rep in range(passes):
        rnd = common.rng("walk", name, shard, rep)
        todo = {}
        for s in range(len(g.states)):
            if s % shards == shard:
                es = list(range(len(g.edges[s])))
                rnd.shuffle(es)
                if es:
                    todo[s] = es
        seg = 0
        while todo and time.time() < deadline and len(out["violations"]) < max_viol:
            seed = (common.SEED, name, shard, rep, seg)
            seg += 1
            starts = [i for i in g.init if i in todo] or g.init
            init = rnd.choice(starts)
            cur, path, end = init, [], False
            try:
                drv = make_driver(cls, consts, seed, g.states[cur])
            except EndSegment:
                continue
            except Violation as v:
                out["violations"].append((v.what, _describe(g, cls, consts, seed, init, [], v, -1)))
                continue
            out["segments"] += 1
            # in some histories every change is followed by a check, whether or not that transition was executed before
            probing = bool(getattr(cls, "probe_ops", ())) and rnd.random() < PROBING
            limit = min(seg_len, getattr(drv, "max_steps", seg_len))
            while len(path) < limit and todo:
                if todo.get(cur):
                    plan = [todo[cur][-1]]
                else:
                    plan = g.nearest(cur, todo, rnd)
                    if plan is None:
                        if cur == init and len(path) == 0:
                            # nothing is reachable from this initial state any more: try the others
                            cand = [i for i in g.init if g.nearest(i, todo, rnd) is not None or todo.get(i)]
                            if not cand:
                                todo.clear()
                        break
                plan = collections.deque(plan)
                if probing:
                    e = g.probe(cur, cls.probe_ops, rnd)
                    if e is not None:
                        plan.appendleft(e)
                        # from a state in which the check succeeds, small detours: check, change, check
                        if g.edges[cur][e][1] not in BAD and rnd.random() < 0.5:
                            plan = collections.deque([e, rnd.randrange(len(g.edges[cur]))])
                while plan:
                    e = plan.popleft()
                    o, r, t = g.edges[cur][e]
                    if todo.get(cur) and e in todo[cur]:
                        todo[cur].remove(e)
                        out["covered"] += 1
                        if not todo[cur]:
                            del todo[cur]
                    path.append(e)
                    try:
                        call_step(drv, g.ops[o], g.states[cur], g.states[t], r)
                    except EndSegment:
                        end = True
                        break
                    except Violation as v:
                        # prefer the shortest history that shows it, in the same world
                        i2, p2 = g.path_to(cur)
                        v2, n2 = run_path(cls, consts, g, seed, i2, p2 + [e])
                        if v2 is not None:
                            d = _describe(g, cls, consts, seed, i2, p2 + [e], v2, n2)
                            v = v2
                        else:
                            d = _describe(g, cls, consts, seed, init, path, v, len(path) - 1)
                        out["violations"].append((v.what, d))
                        end = True
                        break
                    moved = cur != t
                    cur = t
                    out["steps"] += 1
                    if moved and probing:
                        e = g.probe(cur, cls.probe_ops, rnd)
                        if e is not None:
                            plan.appendleft(e)
                            out["counters"]["probes"] = out["counters"].get("probes", 0) + 1
                if end:
                    break
            if drv.walk_blind is not None and not end and path:
                try:
                    look(drv, g.states[cur])
                except EndSegment:
                    pass
                except Violation as v:
                    out["violations"].append((v.what, _describe(g, cls, consts, seed, init, path, v, len(path) - 1)))
            if len(out["samples"]) < 2 and path:
                s, steps = init, []
                for e in path[:8]:
                    o, r, t = g.edges[s][e]
                    steps.append([g.ops[o], r])
                    s = t
                out["samples"].append({"model": name, "init": g.states[init], "steps": steps,
                                       "of": len(path), "world": drv.describe() if hasattr(drv, "describe") else ""})
            for k, n in getattr(drv, "counters", {}).items():
                out["counters"][k] = out["counters"].get(k, 0) + n
        out["left"] = sum(map(len, todo.values()))
    return out


_GRAPH = None


def replay(report, name, cls, consts, graph, seg_len=400, budget=240, passes=1, max_viol=2, shards=None):
    """Executes every transition of the graph on the implementation."""
    global _GRAPH
    _GRAPH = graph
    shards = shards or common.WORKERS
    t0 = time.time()
    deadline = t0 + budget
    jobs = [(cls, consts, name, n, shards, seg_len, deadline, passes, max_viol) for n in range(shards)]
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    with ctx.Pool(shards, maxtasksperchild=1) as pool:
        results = pool.map(_worker, jobs, chunksize=1)
    total = {"steps": 0, "segments": 0, "covered": 0, "left": 0}
    for r in results:
        for k in total:
            total[k] += r.get(k, 0)
        for what, d in r["violations"]:
            report.violation("%s: %s" % (name, what), d)
        for k, n in r["counters"].items():
            report.count(k, n)
    for r in results[:2]:
        for s in r["samples"][:1]:
            report.sample(s)
    report.traces(total["segments"])
    report.extra.setdefault("replays", []).append(
        {"model": name, "transitions": graph.n_edges, "executed_distinct": total["covered"], "not_executed": total["left"],
         "steps_executed": total["steps"], "segments": total["segments"],
         "wall_s": round(time.time() - t0, 1)})
    if os.environ.get("VERIF_VERBOSE"):
        print(report.extra["replays"][-1], flush=True)
    return total
