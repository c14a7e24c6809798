"""C08, C09: specs/Policy.tla, specs/KeyLen.tla"""
import common
import keylen
import machine
import policy
import table


def policy_table(report):
    t = common.THOROUGH
    table.run(report, "key policy", "Policy", dict(Sizes=set(range(11)) if t else {0, 1, 2, 9, 10}, Wide=t),
              ["Monotone", "OneWay", "Separate"], policy.case, ("policy", "case"), reps=2 if t else 1, chunk=256)


def lengths(report):
    t = common.THOROUGH
    lens = set(range(0, 70)) | {96, 128, 192, 256, 512} if t else set(range(0, 41)) | {48, 64, 128, 192, 256}
    table.run(report, "key lengths", "KeyLen", dict(ObjLens=lens, CekLens={8, 16, 24, 32, 40, 48, 64} if t else {8, 16, 24, 32, 40, 64}),
              ["AlwaysLegal", "Exact"], keylen.case, ("keylen", "case"), reps=6 if t else 1, chunk=128)


def history(report):
    t = common.THOROUGH
    for same_op, same_alg, detach in ((False, True, True), (True, True, True), (False, False, False), (True, False, False)):
        name = "policy of changing keys, %s operations, %s algorithms" % ("like" if same_op else "unlike", "same" if same_alg else "different")
        machine.run(report, name, "PolicyM", policy.PolicyM, dict(SameOp=same_op, SameAlg=same_alg, Detach=detach),
                    ["TypeOK", "Own", "Relax", "Separately"], budget=300 if t else 25, passes=6 if t else 1, seg_len=80)
