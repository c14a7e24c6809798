"""C17: specs/Isolation.tla"""
import common
import isolation
import machine

INV = ["TypeOK", "Frame", "Pure", "Sound", "Complete"]


def model(report):
    """the laws of isolation on the specification itself"""
    c = {"Msgs": {"m1", "m2"}, "Layered": {"m2"}, "NeedAlg": {"m1"}, "Keys": {"k1"}, "PDicts": {"p1"}, "UDicts": {"u1"}, "Near": 2 if common.THOROUGH else 1}
    report.tlc("commuting operations", common.run_tlc("Isolation", c, invariants=INV + ["Commute"], view="View", constraints=["Short"]))


def histories(report):
    model(report)
    t = common.THOROUGH
    for fam in ("sign", "mac", "enc"):
        c = {"Msgs": {"m1", "m2", "m3", "m4"}, "Layered": {"m3", "m4"}, "NeedAlg": {"m1", "m2"} | (set() if fam == "sign" else {"m3", "m4"}),
             "Keys": {"k1", "k2"}, "PDicts": {"p1", "p2"}, "UDicts": {"u1"}, "Near": 2}
        isolation.behaviours(report, "several objects, " + fam, c, {"Family": fam}, num=2400 if t else 240, length=160 if t else 80,
                             budget=600 if t else 45)


def pairs(report):
    """every pair of operations, from every beginning"""
    t = common.THOROUGH
    for fam in ("sign", "mac", "enc"):
        c = {"Msgs": {"m1", "m3"}, "Layered": {"m3"}, "NeedAlg": {"m1"} | (set() if fam == "sign" else {"m3"}),
             "Keys": {"k1"}, "PDicts": {"p1"}, "UDicts": {"u1"}, "Near": 4 if t else 3}
        machine.run(report, "all short histories, " + fam, "Isolation", isolation.Isolation, c, INV, budget=300 if t else 25, seg_len=50,
                    world={"Family": fam}, tlc={"view": "View", "constraints": ["Short"], "workers": 1})
