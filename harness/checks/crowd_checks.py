"""specs/Crowd.tla: many recipients, signers and parameters, long strings"""
import common
import crowd
import table

COUNTS = {1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 23, 24, 25, 32, 33, 64, 65}
ENTRIES = {0, 1, 2, 8, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 64, 255, 256, 257}
SIZES = {0, 1, 22, 23, 24, 25, 55, 56, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1023, 1024, 4096, 32768, 65534, 65535, 65536, 65537}
SIGN, MAC, ENC = {"Sign1", "Sign"}, {"Mac0", "Mac"}, {"Enc0", "Enc"}


def run(report, name, kinds, types, reps=1, sizes=SIZES):
    t = common.THOROUGH
    table.run(report, name, "Crowd", dict(Counts=COUNTS | ({100, 128, 255, 256, 257, 300} if t else set()), Entries=ENTRIES | ({1000, 5000} if t else set()),
                                          Sizes=sizes | ({100000, 2 ** 20} if t else set()), Deepest=12 if t else 7, Kinds=kinds, Types=types),
              ["Whatever", "Both", "Sound"], crowd.case, ("crowd", "case"), reps=reps * (4 if t else 1), chunk=40)


def sign(report):
    run(report, "many signers, many parameters, long contents", {"signers", "entries", "size"}, SIGN)


def mac(report):
    run(report, "many parameters, long contents", {"entries", "size"}, MAC)


def enc(report):
    run(report, "many parameters, long contents", {"entries", "size"}, ENC)


def recipients(report):
    run(report, "many recipients, deep recipients", {"recipients", "depth"}, set())


def headers(report):
    run(report, "many parameters", {"entries"}, SIGN | MAC | ENC, 2)


def wire(report):
    run(report, "many parameters, long contents in all messages", {"entries", "size"}, SIGN | MAC | ENC, sizes={0, 23, 24, 255, 256, 65535, 65536})


def certificates(report):
    run(report, "many certificates", {"certificates"}, SIGN | MAC | ENC)


def detached(report):
    run(report, "long contents", {"size"}, SIGN)
