"""C19: specs/Thumb.tla"""
import certs
import chain
import common
import machine
import table
import thumb

C = dict(Slots={"s", "t"}, Algs={"a", "b"}, Certs={"c", "d"})


def hashes(report):
    table.run(report, "digests", "Thumb", C, ["Truncated"], thumb.hash_case, ("thumb", "hash_case"), reps=10 if common.THOROUGH else 2, chunk=128,
              spec="SpecHash", dump="DumpHash")


def thumbs(report):
    t = common.THOROUGH
    machine.run(report, "thumbprints", "Thumb", thumb.Thumb, C, ["TypeOK", "AtMostOne", "NothingElse", "Alike"], budget=240 if t else 40, passes=20 if t else 2, seg_len=200)


def containers(report):
    """C22"""
    t = common.THOROUGH
    machine.run(report, "certificate containers", "Certs", certs.Certs, dict(Slots={"s", "t"}, Names={"a", "b"}, Longest=3), ["TypeOK", "Faithful", "Injective"],
                budget=200 if t else 60, passes=12 if t else 1, seg_len=150)


def chains(report):
    """C24"""
    t = common.THOROUGH
    chain.pki()
    table.run(report, "certificate chains", "Chain", dict(Names=set(chain.CERTS), Longest=3), ["Leaf", "NoForgery", "Order", "Grows", "InOrder", "Anchored"],
              chain.case, ("chain", "case"), reps=12 if t else 1, chunk=64)
    if t:
        table.run(report, "longer certificate chains", "Chain", dict(Names=set("RIKELMSU"), Longest=4), ["Leaf", "NoForgery", "Order", "Grows", "InOrder", "Anchored"],
                  chain.case, ("chain", "case"), reps=4, chunk=64)
