"""C10, C11, C12: specs/Distribute.tla, specs/Receive.tla"""
import common
import group
import kdf
import kdfctx
import machine
import pools
import recips
import structure
import table
import trace

SEND = ["TypeOK", "OneKey", "Frame", "FreshKey", "Stable"]
RECV = ["TypeOK", "Memoryless", "Exclusive", "Separate"]


MIXED = [(["wrap", "agree", "direct"], 3), (["direct", "direct", "wrap"], 2), (["agree", "agree", "wrap"], 2)]


def distribution(report, worlds=((["wrap", "wrap", "wrap"], 3),) + tuple(MIXED)):
    t = common.THOROUGH
    for n, (kinds, rs) in enumerate(worlds):
        machine.run(report, "distribution %s" % "/".join(kinds), "Distribute", recips.Distribute, dict(K1=kinds[0], K2=kinds[1], K3=kinds[2], MaxRs=rs, Given={"p", "q"} if t else {"p"}), SEND,
                    passes=(2 if kinds[2] == kinds[0] else 12) if t else (1 if kinds[2] == kinds[0] else 5), budget=240 if t else 30, seg_len=120)


def mixed(report):
    """C11: lists that must not be mixed, over the history of the objects"""
    distribution(report, MIXED)


NEST = ["TypeOK", "OneKey", "Frame", "FreshKey", "Stable"]


def nested(report):
    """key wrap through recipients of its own, over histories"""
    t = common.THOROUGH
    for kinds, n in ((["wrap", "wrap", "wrap"], 3), (["wrap", "agree", "direct"], 2)):
        machine.run(report, "nested recipients %s" % "/".join(kinds), "Nest", recips.Nest, dict(K1=kinds[0], K2=kinds[1], K3=kinds[2], MaxRs=n, Given={"p", "q"} if t else {"p"}), NEST,
                    passes=(2 if n == 3 else 60) if t else (1 if n == 3 else 12), budget=200 if t else 15, seg_len=80)


def reception(report, family=0, plan=((1, 1, 12, 1), (2, 2, 2, 0), (2, 1, 1, 1), (3, 1, 1, 0))):
    """family: 0 or the tag of the message; plan: entries, changed entries, passes, with changes of the message object"""
    t = common.THOROUGH
    conds = {"ct", "pub", "swap", "stale", "alg"}
    for n, bad, passes, more in plan:
        machine.run(report, "reception%s, %d recipients%s" % ({0: "", 96: " of COSE_Encrypt", 97: " of COSE_Mac"}[family], n, ", contents changed" if more else ""),
                    "Receive", recips.Receive, dict(N=n, MaxBad=bad, Conds=conds, Touched={"aad", "body"} if more else set()), RECV,
                    passes=passes * (6 if t else 1), budget=240 if t else 40, seg_len=80, world={"family": family})


def reception_mac(report):
    reception(report, 97, ((1, 1, 4, 1), (2, 1, 1, 1)))


def reception_enc(report):
    reception(report, 96, ((1, 1, 4, 1), (2, 1, 1, 1)))


def changes(report):
    pools.run(report, "changes of recipient entries", recips.flips, recips.flip_jobs(common.THOROUGH), ("recips", "flips"))


def structures(report):
    t = common.THOROUGH
    inv = ["Agree", "Worse", "Order"]
    for n, (length, levels) in enumerate([(3, {0}), (2, {1, 2})] if not t else [(3, {0, 1, 2})]):
        table.run(report, "recipient structures %d" % n, "Structure", dict(MaxLen=length, Hosts={96, 97}, Levels=levels), inv,
                  structure.case, ("structure", "case"), reps=3 if t else 1, chunk=128)


def kdf_context(report):
    t = common.THOROUGH
    table.run(report, "key derivation", "Kdf", dict(Targets={1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 25, 26, 30, 31, 32, 33}),
              ["Depends", "Injective", "Apart"], kdf.case, ("kdf", "case"), reps=6 if t else 1, chunk=128)


def kdf_objects(report):
    """contexts made by hand or by a recipient, changed and encoded again"""
    t = common.THOROUGH
    sets = [{"uid", "vother"}, {"unonce", "vnonce"}, {"uother", "vid"}, {"len", "prot"}, {"pub", "priv", "len"}, {"alg", "prot"}]
    if t:
        sets += [{"uid", "unonce", "priv"}, {"vid", "vnonce", "pub"}, {"len", "prot", "alg"}, {"uother", "prot"}, {"vother", "priv", "pub"}]
    for parts in sets:
        machine.run(report, "KDF context objects (%s)" % ", ".join(sorted(parts)), "Context", kdfctx.Contexts, dict(Slots={"x", "y"}, Parts=parts),
                    ["TypeOK", "Injective", "Local", "Refused"], budget=60 if t else 12, passes=4 if t else 1, seg_len=60)


GROUP = ["TypeOK", "EntriesAgree", "EveryRecipient", "NobodyElse", "FreshKeys"]


def groups_mac(report):
    groups(report, 120, (), 97)


def groups_few(report):
    """C09, C11: permitted lists and fitting keys over histories"""
    groups(report, 160, ())


def groups_enc(report):
    groups(report, 120, (), 96)


def groups(report, traces=400, models=((1, 1, 0), (2, 0, 0), (0, 1, 1)), family=0):
    """several messages and long-lived recipient objects: exhaustively in small, and in recorded histories"""
    c = dict(NWrap=1, NAgree=1, NDirect=0, Algs={"e16"}, Nmsg=1, Nrx=1, Given={"p"}, Pays={"a"}, Aads={"z"}, MaxSent=2)
    for a, b, d in models:
        big = dict(Algs={"e16", "e32"}, Aads={"z", "a"} if a + b + d > 1 and not a else {"z"}) if common.THOROUGH else {}
        report.tlc("group model (%d wrap, %d agree, %d direct)" % (a, b, d), common.run_tlc("Group", dict(c, NWrap=a, NAgree=b, NDirect=d, **big), invariants=GROUP))
    trace.run(report, "groups", "GroupTrace", group.Group, {"family": family}, c, GROUP, traces=traces, length=120, budget=60)
