"""C01-C04, C18 and part of C05: specs/Session.tla"""
import channel as clients
import common
import machine
import mutate
import session
import signers
import trace

INV = ["TypeOK", "Authenticity", "Agreement", "TamperDetected", "OnePayload"]
SIGN_T = {"ph:e", "ph:a", "ph:b", "phform", "pay:a", "pay:b", "pay:none", "flip", "trunc", "ext", "empty"}
SIGNB_T = {"ph:e", "ph:a", "phform", "sp:e", "sp:a", "sp:b", "spform", "pay:b", "flip", "trunc", "ext", "empty"}
MAC_T = {"ph:e", "ph:a", "ph:b", "phform", "pay:z", "pay:a", "pay:b", "flip", "trunc", "ext", "empty"}
ENC_T = {"ph:e", "ph:a", "phform", "flip", "trunc", "ext", "empty", "iv"}


def go(report, name, budget=150, passes=1, **kw):
    c = dict(Family="sign", Ctxs={"A"}, AlgLocs={"u"}, PhVals={"e", "a"}, SpVals={"e"}, PayVals={"a", "b"}, AadVals={"z", "a"},
             KeyVals={"none", "k1", "k2"}, IvVals=set(), DetVals={"none"}, Tampers=set(), Srcs={"lib", "ref", "refn"})
    c.update(kw)
    if common.THOROUGH:
        budget *= 4
    machine.run(report, name, "Session", session.Session, c, INV, budget=budget, passes=passes)


def many(n):
    return n * 4 if common.THOROUGH else n


def signatures(report):
    if common.THOROUGH:
        go(report, "COSE_Sign1", PhVals={"e", "a", "b"}, PayVals={"none", "a", "b"}, KeyVals={"none", "k1", "p1", "k2"},
           DetVals={"none", "a"}, Tampers=SIGN_T)
        go(report, "COSE_Sign", Ctxs={"B"}, SpVals={"e", "a", "b"}, AlgLocs={"u", "p"}, KeyVals={"none", "k1", "p1", "k2"}, Tampers=SIGNB_T)
    else:
        go(report, "COSE_Sign1", PhVals={"e", "a"}, PayVals={"a", "b"}, KeyVals={"none", "k1", "p1", "k2"}, Tampers=SIGN_T)
        go(report, "COSE_Sign1, detached payload", AlgLocs={"p"}, PhVals={"a"}, PayVals={"none", "a"}, KeyVals={"none", "k1", "k2"},
           DetVals={"none", "a", "b"}, Tampers={"ph:b", "flip"})
        go(report, "COSE_Sign", Ctxs={"B"}, SpVals={"e", "a"}, AadVals={"z", "a"}, KeyVals={"none", "k1", "p1"},
           Tampers={"ph:e", "phform", "sp:e", "spform", "pay:b", "flip", "ext"}, budget=100)
        go(report, "COSE_Sign, algorithm protected", Ctxs={"B"}, AlgLocs={"p"}, PhVals={"a"}, SpVals={"a", "b"}, AadVals={"z", "a"},
           KeyVals={"none", "k1", "k2"}, Tampers={"sp:b", "spform", "pay:b", "trunc"})
    go(report, "COSE_Sign1, algorithm protected", AlgLocs={"p"}, PhVals={"a", "b"},
       KeyVals={"none", "k1", "p1", "k2"} if common.THOROUGH else {"none", "k1", "k2"}, Tampers=SIGN_T)


def moving_signers(report):
    t = common.THOROUGH
    machine.run(report, "signers of two messages", "Signers", signers.Signers, dict(Msgs={"A", "B"}, Sgs={"1", "2"}, Cons={"p", "q"}),
                ["TypeOK", "Member", "Taken", "Authentic", "Received"], passes=10 if t else 1, budget=400 if t else 60, seg_len=100)


def sign_retype(report):
    go(report, "COSE_Sign1 and COSE_Sign confused", Ctxs={"A", "B"}, SpVals={"e", "a"} if common.THOROUGH else {"a"},
       AlgLocs={"u", "p"}, KeyVals={"none", "k1"}, PhVals={"a", "e"}, AadVals={"z"}, Tampers={"retype"})


def macs(report):
    go(report, "COSE_Mac0", Family="mac", AlgLocs={"u", "p"}, PhVals={"e", "a", "b"}, PayVals={"z", "a", "b"} if common.THOROUGH else {"z", "a"}, Tampers=MAC_T,
       passes=many(1), **({"AadVals": {"z", "a", "b"}} if common.THOROUGH else {}))
    go(report, "COSE_Mac", Family="mac", Ctxs={"B"}, AlgLocs={"u", "p"}, PhVals={"e", "a", "b"} if common.THOROUGH else {"e", "a"},
       PayVals={"z", "a"}, KeyVals={"none", "k1", "k2"} if common.THOROUGH else {"none", "k1"}, Tampers=MAC_T, passes=many(1))
    mac_retype(report)


def mac_retype(report):
    go(report, "COSE_Mac0 and COSE_Mac confused", Family="mac", Ctxs={"A", "B"}, AlgLocs={"u", "p"}, KeyVals={"none", "k1"},
       AadVals={"z"}, Tampers={"retype"}, passes=many(1))


def encs(report):
    go(report, "COSE_Encrypt0", Family="enc", AlgLocs={"u", "p"}, IvVals={"i", "j"}, Tampers=ENC_T, passes=many(4),
       PhVals={"e", "a", "b"}, PayVals={"z", "a"}, budget=60)
    go(report, "COSE_Encrypt", Family="enc", Ctxs={"B"}, AlgLocs={"u", "p"}, IvVals={"i", "j"}, Tampers=ENC_T, passes=many(4),
       PayVals={"z", "a"}, budget=60)
    enc_retype(report)


def enc_retype(report):
    go(report, "COSE_Encrypt0 and COSE_Encrypt confused", Family="enc", Ctxs={"A", "B"}, AlgLocs={"u", "p"}, IvVals={"i"}, KeyVals={"none", "k1"},
       Tampers={"retype"}, passes=many(3))


def interop(report):
    """C04: every structure against an independent implementation"""
    all_src = {"lib", "ref", "refn"}
    go(report, "COSE_Sign1 interoperability", PhVals={"e", "a"}, PayVals={"none", "z", "a"}, AadVals={"z", "a"}, KeyVals={"none", "k1"},
       DetVals={"none", "a"}, Srcs=all_src, AlgLocs={"u", "p"}, passes=many(1))
    go(report, "COSE_Sign interoperability", Ctxs={"B"}, PhVals={"e", "a"}, SpVals={"e", "a"}, PayVals={"none", "a"}, AadVals={"z", "a"},
       KeyVals={"none", "k1"}, DetVals={"none", "a"}, Srcs=all_src, AlgLocs={"u", "p"}, passes=many(1))
    for fam in ("mac", "enc"):
        for ctx in "AB":
            go(report, "%s %s interoperability" % (fam, ctx), Family=fam, Ctxs={ctx}, PhVals={"e", "a"}, PayVals={"z", "a"},
               IvVals={"i"} if fam == "enc" else set(), KeyVals={"none", "k1"}, AadVals={"z", "a"}, AlgLocs={"u", "p"}, passes=many(6))
    sign_retype(report)
    mac_retype(report)
    enc_retype(report)


def detached(report):
    """C18"""
    go(report, "COSE_Sign1 payloads", PhVals={"a"}, PayVals={"none", "z", "a", "b"}, DetVals={"none", "z", "a", "b"}, AadVals={"z", "a"},
       KeyVals={"none", "k1", "p1"}, Tampers={"pay:z", "pay:a", "pay:b", "pay:none"}, AlgLocs={"u"} if not common.THOROUGH else {"u", "p"})
    go(report, "COSE_Sign payloads", Ctxs={"B"}, PhVals={"a"}, SpVals={"e"}, PayVals={"none", "z", "a"}, DetVals={"none", "z", "a"},
       AadVals={"z"}, KeyVals={"none", "k1", "p1"}, Tampers={"pay:z", "pay:a", "pay:none"}, passes=many(1))


def roundtrip(report):
    """C05: headers of every kind through the wire, canonical or not"""
    for fam in ("sign", "mac", "enc"):
        for ctx in "AB":
            go(report, "%s %s round trip" % (fam, ctx), Family=fam, Ctxs={ctx}, PhVals={"e", "a", "b"}, SpVals={"e", "a"},
               PayVals={"z", "a"}, IvVals={"i", "j"} if fam == "enc" else set(), KeyVals={"k1", "none"}, AadVals={"z"}, AlgLocs={"u", "p"},
               Tampers={"phform", "spform"}, passes=many(2) if fam != "sign" else many(1))


def mutate_sign(report):
    mutate.explore(report, ["sign"])


def mutate_mac(report):
    mutate.explore(report, ["mac"])


def mutate_enc(report):
    mutate.explore(report, ["enc"])


def channel(report, fams, types, **big):
    """the network adversary: exhaustively in small, and in recorded histories of several objects, judged by TLC"""
    inv = ["TypeOK", "NothingForged", "Agreement", "Separated"]
    c = dict(Objs={1}, Types=types, AlgIn="p", Hdrs={"e", "a"}, Pays={"a", "b"}, Aads={"z"}, Keys={"none", "k1"}, Ivs={"i"}, MaxNet=1)
    if common.THOROUGH:
        c.update(Keys={"none", "k1", "k2"}, MaxNet=2, Aads={"z", "a"})
    res = common.run_tlc("Channel", c, invariants=inv)
    report.tlc("channel model (%s)" % ", ".join(fams), res)
    trace.run(report, "channel (%s)" % ", ".join(fams), "ChannelTrace", clients.Channel, {"Families": fams, "Mixed": True}, c, inv,
              traces=500, length=200, budget=60)


def channel_sign(report):
    channel(report, ["sign"], {"Sign1", "Sign"})


def channel_mac(report):
    channel(report, ["mac"], {"Mac0", "Mac"})


def channel_enc(report):
    channel(report, ["enc"], {"Enc0", "Enc"})
