"""Driver for specs/Dispatch.tla."""
import cborx
import values as V
from common import Violation

NAMES = {0: "CoseMessage", 16: "Enc0Message", 17: "Mac0Message", 18: "Sign1Message", 96: "EncMessage", 97: "MacMessage", 98: "SignMessage"}


class Undefined:
    pass


def value(r, v):
    if v == "recs":
        return [r.choice([[b"", {1: -6, 4: V.kid(r)}, b""], [b"", {1: -3}, r.randbytes(24)], [cborx.enc({1: -32}), {-2: {1: 2, -1: 1, -2: bytes(32), -3: True}}, b"x" * 24],
                          [b"", {1: -5}, r.randbytes(40), [[b"", {1: -3}, r.randbytes(40)]]]]) for _ in range(1)] * r.choice([1, 1, 2])
    if v == "sigs":
        return [[r.choice([b"", cborx.enc({1: -8})]), {4: b"k"}, r.randbytes(r.choice([0, 64]))] for _ in range(r.choice([1, 1, 2, 3]))]
    return {"bstr0": lambda: b"", "hdr": lambda: cborx.enc(r.choice([{4: b"kid"}, {3: 0, "x": [1]}])), "hdr0": lambda: r.choice([b"\xa0", b"\xbf\xff", b"\xb8\x00"]),
            "bytes": lambda: r.choice([b"\x05", b"\x41a", b"\x80", b"\xf6", b"\xff", b"\x9f", b"\x01\x02", b"\x81\xa0", b"\xd2\xa0", b"\x63abc", b"\xf4", b"\xf9\x00\x00"]),
            "nil": lambda: None, "undef": lambda: cborx.Raw(b"\xf7"), "int": lambda: r.choice([0, 1, -1, 2 ** 40]), "tstr": lambda: r.choice(["", "abc", "payload"]),
            "bool": lambda: r.random() < 0.5, "float": lambda: 1.5, "tagged": lambda: cborx.Tag(r.choice([24, 18, 999]), b"\xa0"),
            "map": lambda: r.choice([{}, {4: b"x"}, {"y": 1}]), "arr of int": lambda: r.choice([[1], [0, 1, 2]]), "arr of nil": lambda: r.choice([[None], [[None]], [[None, None, None]]])}[v]()


def decoder(cls):
    from pycose import messages
    return getattr(messages, NAMES[cls])


def case(c, expected, r, counts):
    body = [value(r, v) for v in c["body"]]
    tag = c["tag"]
    if tag == 0:
        data = cborx.enc(body)
    else:
        other = tag not in NAMES
        data = cborx.head(6, tag, r.choice([None, 2, 4, 8])) if not other or r.random() < 0.5 else cborx.head(6, tag)
        data += cborx.enc(body)
    check(c["cls"], data, expected, body, counts)


def check(cls, data, expected, body=None, counts=None):
    try:
        m = decoder(cls).decode(data)
    except Exception as e:
        if expected:
            raise Violation("%s.decode refuses %s: %r" % (NAMES[cls], data.hex(), e))
        return
    if not expected:
        raise Violation("%s.decode accepts %s as %s" % (NAMES[cls], data.hex(), type(m).__name__))
    if type(m).__name__ != NAMES[expected] or type(m) is not decoder(expected):
        raise Violation("%s.decode returns a %s for tag %d" % (NAMES[cls], type(m).__name__, expected))
    if counts is not None:
        counts["accepted"] = counts.get("accepted", 0) + 1
    import cbor2
    if body is not None:
        if m.payload != body[2] or m.phdr_encoded != body[0] or not V.same_map(V.unspell(m.uhdr), body[1]) or \
                not V.same_map(V.unspell(m.phdr), cbor2.loads(body[0]) if body[0] else {}):
            raise Violation("the decoded message has other contents than %s" % data.hex())
        if expected in (17, 18):
            auth = m.auth_tag if expected == 17 else m.signature
            if auth != body[3]:
                raise Violation("the decoded message has other authentication data than %s" % data.hex())
        if expected == 98 and (len(m.signers) != len(body[3]) or [s.signature for s in m.signers] != [x[2] for x in body[3]]):
            raise Violation("the decoded message has other signatures than %s" % data.hex())
        if expected in (96, 97) and (len(m.recipients) != len(body[-1]) or [s.payload for s in m.recipients] != [x[2] for x in body[-1]]):
            raise Violation("the decoded message has other recipients than %s" % data.hex())


def replay_case(rep):
    import table
    return table.replay(rep, case)


# ------------------------------------------- layers inside the message (InnerShape of the specification)
def inner_case(c, expected, r, counts):
    """one element of the recipients or signatures is deformed"""
    good = [b"", {1: -8, 4: b"k"}, r.randbytes(64)] if c["t"] == 98 else [b"", {1: -3, 4: b"k"}, r.randbytes(24)]
    el = list(good)
    if c["cut"] < 3:
        el = el[:c["cut"]]
    if c["pos"]:
        el[c["pos"] - 1] = value(r, c["v"])
        if c["t"] != 98 and c["pos"] == 2 and expected:
            el[1] = {1: r.choice([-3, -4, -5]), 4: b"z"}
    if c["whole"] != "-":
        el = value(r, c["whole"])
    els = [el]
    for _ in range(c["others"]):
        els.insert(r.randrange(len(els) + 1), list(good))
    if c["deep"]:
        els = [[b"", {1: -3}, r.randbytes(24), els]]
    body = {96: [b"", {1: 1, 5: bytes(12)}, b"ciphertext", els], 97: [b"", {1: 5}, b"p", b"t" * 32, els], 98: [b"", {}, b"p", els]}[c["t"]]
    data = cborx.enc(cborx.Tag(c["t"], body))
    check(r.choice([0, c["t"]]), data, c["t"] if expected else 0, None, counts)


def replay_inner_case(rep):
    import table
    return table.replay(rep, inner_case)


def more_case(c, expected, r, counts):
    """the fourth field of a recipient"""
    peer = {1: 1, -1: 4, -2: r.randbytes(32)}
    el = {"wrap": lambda: [b"", {1: r.choice([-3, -4, -5]), 4: b"k"}, r.randbytes(24)], "direct": lambda: [b"", {1: -6, 4: b"k"}, b""],
          "agree": lambda: r.choice([[cborx.enc({1: r.choice([-25, -26])}), {-1: peer}, b""], [cborx.enc({1: r.choice([-27, -28])}), {-2: peer, -22: b"n"}, b""]]),
          "agree+wrap": lambda: r.choice([[cborx.enc({1: r.choice([-29, -30, -31])}), {-1: peer}, r.randbytes(24)],
                                          [cborx.enc({1: r.choice([-32, -33, -34])}), {-2: peer, -22: b"n"}, r.randbytes(24)]])}[c["kind"]]()
    extra = {"map0": {}, "tstr0": "", "zero": 0, "false": False, "arr of bstr": [b""], "arr of arr0": [[]]}
    plain = list(el)
    el.append(extra[c["v"]] if c["v"] in extra else value(r, c["v"]))
    els = [el]
    for _ in range(c["others"]):
        els.insert(r.randrange(len(els) + 1), [b"", {1: -3}, r.randbytes(24)])
    wrapped = lambda e: [[b"", {1: -3}, r.randbytes(24), e]] if c["deep"] else e
    body = lambda e: {96: [b"", {1: 1, 5: bytes(12)}, b"ciphertext", e], 97: [b"", {1: 5}, b"p", b"t" * 32, e]}[c["t"]]
    cls = r.choice([0, c["t"]])
    if not expected:
        # the same message without the field is one
        check(cls, cborx.enc(cborx.Tag(c["t"], body(wrapped([plain if e is el else e for e in els])))), c["t"], None, counts)
    check(cls, cborx.enc(cborx.Tag(c["t"], body(wrapped(els)))), c["t"] if expected else 0, None, counts)


def replay_more_case(rep):
    import table
    return table.replay(rep, more_case)


# ------------------------------------------------------------- not CBOR of that shape at all
def garbage_case(c, expected, r, counts):
    t = c["t"]
    shape = {16: "PMN", 17: "PMNB", 18: "PMNB", 96: "PMNR", 97: "PMNBR", 98: "PMNS"}[t]
    body = [value(r, {"P": "hdr", "M": "map", "N": "bytes", "B": "bytes", "R": "recs", "S": "sigs"}[x]) for x in shape]
    arr = cborx.enc(body)
    good = cborx.enc(cborx.Tag(t, cborx.Raw(arr)))
    how, cls = c["how"], c["cls"]
    if how == "cut":
        for n in range(len(good)):
            check(cls, good[:n], 0)
            counts["truncations"] = counts.get("truncations", 0) + 1
        return
    if how == "indefinite":
        data = cborx.head(6, t) + b"\x9f" + b"".join(cborx.enc(x) for x in body) + b"\xff"
        return check(cls, data, t if cls in (0, t) else 0, body, counts)
    if how == "not bytes":
        for x in (None, 5, "text", good.hex(), [good], body, {}, good.decode("latin-1")):
            check_any(cls, x)
        return
    data = {"empty": b"", "bstr": cborx.enc(cborx.Tag(t, arr)), "twice": cborx.enc(cborx.Tag(t, cborx.Tag(t, cborx.Raw(arr)))),
            "tag inside": cborx.enc(cborx.Tag(t, cborx.Tag(999, cborx.Raw(arr)))),
            "map": cborx.enc(cborx.Tag(t, dict(enumerate(body)))), "int": cborx.enc(cborx.Tag(t, 5)), "nil": cborx.enc(cborx.Tag(t, None)),
            "tstr": cborx.enc(cborx.Tag(t, "abcd")), "in array": cborx.enc([cborx.Raw(good)]), "in bstr": cborx.enc(good), "empty array": cborx.enc(cborx.Tag(t, [])),
            "random": r.randbytes(r.choice([1, 5, 40])), "set": cborx.enc(cborx.Tag(258, body[2:3]))}[how]
    check(cls, data, 0)


def check_any(cls, x):
    try:
        m = decoder(cls).decode(x)
    except Exception:
        return
    raise Violation("%s.decode accepts %r as %s" % (NAMES[cls], x, type(m).__name__))


def replay_garbage_case(rep):
    import table
    return table.replay(rep, garbage_case)


# ----------------------------------------------------------------------------- tags around and inside
def tagged_case(c, expected, r, counts):
    t = c["t"]
    shape = {16: "PMN", 17: "PMNB", 18: "PMNB", 96: "PMNR", 97: "PMNBR", 98: "PMNS"}[t]
    body = cborx.Raw(cborx.enc([value(r, {"P": "hdr", "M": "map", "N": "bytes", "B": "bytes", "R": "recs", "S": "sigs"}[x]) for x in shape]))
    a, b = (c["outer"], t) if c["how"] == "outside" else (t, c["outer"])
    check(c["cls"], cborx.enc(cborx.Tag(a, cborx.Tag(b, body))), 0)
    counts["refused"] = counts.get("refused", 0) + 1


def replay_tagged_case(rep):
    import table
    return table.replay(rep, tagged_case)
