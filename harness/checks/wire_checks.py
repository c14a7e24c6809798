"""C15: specs/Dispatch.tla"""
import common
import dispatch
import table

ALL = {0, 16, 17, 18, 96, 97, 98}
OTHER = {1, 15, 19, 24, 61, 95, 99, 55799, 4114, 272}


def decoding(report):
    t = common.THOROUGH
    reps = 6 if t else 1
    table.run(report, "tag, class and array", "Dispatch", dict(Tags=ALL | OTHER, Classes=ALL, MaxDev=1), ["TypeOf", "OwnOnly", "Unambiguous"],
              dispatch.case, ("dispatch", "case"), reps=reps * 2, chunk=256)
    table.run(report, "two fields replaced", "Dispatch", dict(Tags=ALL - {0}, Classes={0}, MaxDev=2), ["TypeOf", "OwnOnly", "Unambiguous"],
              dispatch.case, ("dispatch", "case"), reps=reps, chunk=256)
    table.run(report, "elements inside", "Dispatch", dict(Tags={0}, Classes={0}, MaxDev=0), [], dispatch.inner_case, ("dispatch", "inner_case"),
              reps=reps * 3, chunk=64, spec="SpecInner", dump="DumpInner")
    table.run(report, "recipients of a recipient", "Dispatch", dict(Tags={0}, Classes={0}, MaxDev=0), [], dispatch.more_case, ("dispatch", "more_case"),
              reps=reps * 3, chunk=64, spec="SpecMore", dump="DumpMore")
    table.run(report, "anything else", "Dispatch", dict(Tags={0}, Classes=ALL, MaxDev=0), [], dispatch.garbage_case, ("dispatch", "garbage_case"),
              reps=reps * 4, chunk=16, spec="SpecGarbage", dump="DumpGarbage")
    table.run(report, "tags around and inside", "Dispatch", dict(Tags={0}, Classes=ALL, MaxDev=0), [], dispatch.tagged_case, ("dispatch", "tagged_case"),
              reps=reps, chunk=256, spec="SpecTagged", dump="DumpTagged")
