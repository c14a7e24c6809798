"""C05, C06, C07: specs/Headers.tla"""
import common
import headers_m
import machine

INV = ["TypeOK", "Atomic", "Exact", "Lossless", "NeverBad"]
BOTH = ["Sign1", "Enc0", "Mac0", "Sign", "Mac", "Enc", "Signer", "KA", "DKA", "NestedKA"]
BARE = ["Direct", "KW", "Nested"]


def go(report, name, passes=1, budget=60, kinds=BOTH, **c):
    if common.THOROUGH:
        passes *= 8
        budget *= 4
    c.setdefault("Buckets", {"p", "u"})
    c.update(Restricted=c["Labels"] & {"r"}, Unknown=c["Labels"] & {"x"}, Filled={"a", "b"})
    machine.run(report, name, "Headers", headers_m.Headers, c, INV, passes=passes, budget=budget, seg_len=60, world={"Kinds": kinds})


def buckets(report):
    go(report, "header buckets", Labels={"r", "x"}, MaxNew=2, MaxInit=2, passes=6)
    go(report, "header buckets, three labels", Labels={"r", "s", "x"}, MaxNew=2, MaxInit=1)
    go(report, "unprotected bucket only", Labels={"r", "s", "x"}, Buckets={"u"}, MaxNew=3, MaxInit=3, kinds=BARE, passes=6)


def types(report):
    """C07: the value domain of every parameter, wherever it comes from"""
    import table
    table.run(report, "header value types", "HeaderTypes",
              dict(Layers=set(headers_m.KIND_OF), Entries={"ctor", "set", "upd", "recv"}), ["Uniform", "Typed"],
              headers_m.type_case, ("headers_m", "type_case"), reps=12 if common.THOROUGH else 2, chunk=64)


def layers(report):
    """C05, C06, C07: every layer of a message"""
    import table
    t = common.THOROUGH
    table.run(report, "header layers", "Layers", dict(Pairs=True), ["Anywhere", "Worse", "Same"], headers_m.layer_case, ("headers_m", "layer_case"),
              reps=8 if t else 1, chunk=256)


def recorded(report):
    """C05, C06, C07: recorded histories of several objects with many parameters, judged by TLC"""
    import trace
    t = headers_m.TRACE_LABELS
    trace.run(report, "headers, recorded", "HeadersTrace", headers_m.Client, {}, dict(
        Labels=set.union(*t.values()), Restricted=t["Restricted"], Unknown=t["Unknown"], Filled=set("abcd"), Buckets={"p", "u"}, MaxNew=3, MaxInit=3),
        ["Types", "AllGood"], traces=600 if report.prop == "C06" else 240, length=120, budget=60)
