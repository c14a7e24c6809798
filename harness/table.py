"""Decides a decision table of a specification: TLC enumerates its cases and the outcome of each, and every
case is executed on the library (several times, with different concrete values)."""
import common
import pools


def run(report, name, module, consts, invariants, func, where, reps=1, chunk=32, properties=(), keep=None, spec="Spec", dump="Dump"):
    """func(case, expected, rnd, counts) raises common.Violation when the library disagrees"""
    res = common.run_tlc(module, consts, invariants=list(invariants) + [dump], properties=properties, spec=spec)
    report.tlc(name, res)
    lines = [(l["c"], l["e"]) for l in res.pop("lines")]
    lines.sort(key=lambda l: repr(sorted(l[0].items(), key=str)) if isinstance(l[0], dict) else repr(l[0]))
    if keep:
        lines = [l for l in lines if keep(l[0])]
    if not lines:
        raise SystemExit("the specification printed no cases")
    return run_lines(report, name, lines, func, where, reps, chunk)


def run_lines(report, name, lines, func, where, reps=1, chunk=32):
    args = []
    for rep in range(reps):
        order = list(lines)
        common.rng("table", name, rep).shuffle(order)
        for i in range(0, len(order), chunk):
            args.append((name, rep, order[i:i + chunk]))

    def batch(arg):
        name, rep, part = arg
        counts, viol = {"executed": 0}, []
        for c, e in part:
            try:
                one(name, func, rep, c, e, counts)
            except common.Violation as v:
                viol.append((v.what, dict(v.detail, table=name, rep=rep, case=c, expected=e)))
        return {"counts": counts, "violations": viol[:3]}

    counts = pools.run(report, name, batch, args, where)
    report.traces(counts.get("executed", 0))
    for c, e in lines[:: max(1, len(lines) // 3)][:3]:
        report.sample({"table": name, "case": c, "expected": e})
    report.extra["explorations"][-1]["table_cases"] = len(lines)
    return counts


def one(name, func, rep, c, e, counts):
    rnd = common.rng("case", name, rep, repr(c))
    with common.limit(120):
        try:
            func(c, e, rnd, counts)
        except common.Violation:
            raise
        except common.Hang:
            raise common.Violation("an operation did not return in time")
        except Exception as e:
            raise common.unexpected(e)
    counts["executed"] += 1


def replay(rep, func):
    d = rep["detail"]
    common.arm()
    print("case:", d["case"], "expected:", d["expected"])
    try:
        one(d["table"], func, d["rep"], d["case"], d["expected"], {"executed": 0})
    except common.Violation as v:
        print("REPRODUCED: %s %s" % (v.what, v.detail))
        return 1
    print("not reproduced")
    return 0
