"""C21: specs/Registry.tla"""
import common
import registries
import table


def names(report):
    t = common.THOROUGH
    table.run(report, "identifiers and names", "Registry", {}, ["Unique"], registries.case, ("registries", "case"), reps=10 if t else 3, chunk=256)
    table.run(report, "sizes", "Registry", {}, ["Sane"], registries.size_case, ("registries", "size_case"), reps=30 if t else 5, chunk=8, spec="SpecSizes", dump="DumpSizes")
