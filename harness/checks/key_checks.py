"""C13: specs/Keys.tla"""
import common
import fresh as fresh_m
import keys_m
import machine

INV = ["TypeOK", "AlwaysUsable", "Atomic", "Necessary", "NoRetype"]


def go(report, kty, focus, passes=1, budget=40):
    if common.THOROUGH:
        passes *= 12
        budget *= 6
    machine.run(report, "%s key, %s parameters" % (kty, focus), "Keys", keys_m.Keys, {"Kty": kty, "Focus": focus}, INV, passes=passes, budget=budget,
                seg_len=120)


def changes(report):
    go(report, "EC2", "own", passes=2)
    go(report, "EC2", "common")
    go(report, "OKP", "own", passes=12)
    go(report, "OKP", "common")
    go(report, "RSA", "own")
    go(report, "RSA", "multi")
    go(report, "RSA", "common")
    go(report, "Sym", "own", passes=40)
    go(report, "Sym", "common", passes=2)


def forms(report):
    """C14"""
    import keyforms
    import table
    table.run(report, "key representations", "KeyForms", {}, ["SameForAll", "OneOwner", "Stable", "Complete"], keyforms.form_case,
              ("keyforms", "form_case"), reps=80 if common.THOROUGH else 10, chunk=64)


def recorded(report):
    """recorded histories of several keys, judged by TLC"""
    import trace
    trace.run(report, "keys, recorded", "KeysTrace", keys_m.Client, {}, {}, ["Usable", "Typed"], traces=400, length=120, budget=60)


def fresh(report):
    """C23"""
    t = common.THOROUGH
    machine.run(report, "generated secrets", "Fresh", fresh_m.Fresh, dict(Keys={"k", "l"}, Msgs={"m"}, Contents={"a", "b"}, Max=4 if t else 3),
                ["Distinct", "Bounded", "Nonces"], properties=["New"], budget=240 if t else 60, passes=4 if t else 1, seg_len=60)
