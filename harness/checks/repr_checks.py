"""C20: specs/Repr.tla"""
import common
import reprs
import table


def texts(report):
    t = common.THOROUGH
    table.run(report, "text representations", "Repr", dict(Cut=5), ["NoSecret"], reprs.case, ("reprs", "case"), reps=6 if t else 1, chunk=256)
