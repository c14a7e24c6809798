"""specs/Carry.tla: keys in header parameters"""
import carry
import common
import table

ALL = {"Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc"}


def run(report, types=ALL, keep=None):
    table.run(report, "keys in header parameters", "Carry", dict(Types=types), ["Anywhere", "Refused", "Secret"], carry.case, ("carry", "case"),
              reps=6 if common.THOROUGH else 1, chunk=200, keep=None if common.THOROUGH else keep)


def headers(report):
    run(report, keep=lambda c: c["how"] != "received")


def values(report):
    run(report, keep=lambda c: c["kind"] in ("EC2 public", "EC2 sign", "OKP public", "Sym", "RSA public") or c["form"] == "labels" or c["kind"] in ("off the curve", "no map"))


def wire(report):
    run(report, keep=lambda c: c["how"] == "received" or c["form"] in ("object", "mixed"))


def forms(report):
    run(report, {"Sign1", "Enc"}, keep=lambda c: c["layer"] in ("message", "inner"))
