"""Driver for specs/Certs.tla."""
import cbor2

import cborx
import values as V
from common import Violation

CLASS = {"bag": "X5Bag", "chain": "X5Chain"}
HEADER = {"bag": "X5bag", "chain": "X5chain", "uri": "X5u"}
LABEL = {"bag": 32, "chain": 33, "uri": 35}


class Certs:
    def __init__(self, consts, rnd):
        self.rnd = r = rnd
        self.counters, self.last_error = {}, None
        self.cert, self.uri = {}, {}
        for x in sorted(consts["Names"]):
            c = r.choice([b"\x30\x82" + r.randbytes(r.choice([60, 700])), r.randbytes(1), bytes(20), b""])
            while c in self.cert.values():
                c = r.choice([V.near(r, c + b"c"), r.randbytes(40)])
            self.cert[x] = c
            self.uri[x] = r.choice(["https://example.org/%d", "coap://[2001:db8::1]/c%d", "urn:x:%d", "\u00fc%d"]) % r.randrange(10 ** 6)
        self.obj = {}

    def describe(self):
        return {"certs": {k: v.hex()[:40] for k, v in self.cert.items()}, "uris": self.uri}

    def plain(self, v):
        """the CBOR item that the specification gives"""
        cs = [self.cert[x] for x in v["c"]]
        return self.uri[v["c"][0]] if v["k"] == "uri" else cs[0] if len(cs) == 1 else cs

    def build(self, k, item):
        import pycose.extensions.x509 as X
        arg = list(item) if type(item) is list else item
        o = getattr(X, CLASS[k])(arg) if self.rnd.random() < 0.7 or k == "bag" else X.X5Chain(arg, False)
        if arg != item or type(arg) is not type(item):
            raise Violation("the list given by the caller has changed: %r, was %r" % (arg, item))
        return o

    def encoded(self, o, v):
        e = o.encode()
        w = self.plain(v)
        if type(e) is not type(w) or e != w or (type(e) is list and [type(x) for x in e] != [bytes] * len(w)):
            raise Violation("%s of %d certificates encodes to %r" % (v["k"], len(v["c"]), e), {"expected": repr(w)})
        return e

    def start(self, s):
        self.obj = {}

    def step(self, op, s, t, r):
        import pycose.extensions.x509 as X
        n, rnd = op["n"], self.rnd
        if n == "make":
            cs = [self.cert[x] for x in op["c"]]
            self.obj[op["s"]] = self.build(op["k"], cs[0] if op["f"] == "one" else cs)
        elif n == "uri":
            self.obj[op["s"]] = X.X5U(self.uri[op["c"][0]])
        elif n == "from":
            self.obj[op["s"]] = self.build(op["k"], self.encoded(self.obj[op["u"]], s[op["u"]]))
        elif n == "encode":
            self.encoded(self.obj[op["s"]], s[op["s"]])
            return r
        elif n == "header":
            v = s[op["s"]]
            got = self.header(self.obj[op["s"]], v)
            self.obj[op["s"]] = X.X5U(got) if v["k"] == "uri" else self.build(v["k"], got)
        elif n == "match":
            v = s[op["s"]]
            from pycose.algorithms import Sha256, Sha256Trunc64
            th = X.X5T.from_certificate(rnd.choice([Sha256, Sha256Trunc64]), self.cert[op["x"]])
            e = self.encoded(self.obj[op["s"]], v)
            e = e if type(e) is list else [e]
            return sorted(i + 1 for i, c in enumerate(e) if th.matches(c))
        return "ok"

    def header(self, o, v):
        """as a header parameter, in any message"""
        import pycose.headers as H
        from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, Sign1Message, SignMessage
        from pycose.messages.signer import CoseSignature
        rnd, b = self.rnd, self.rnd.choice("pu")
        value = self.encoded(o, v)
        attr = getattr(H, HEADER[v["k"]])
        key = rnd.choice([attr, LABEL[v["k"]], attr.fullname, V.case(rnd, attr.fullname)])
        where = rnd.choice(["Sign1", "Enc0", "signer", "upd", "set"])
        kw = {b + "hdr": {key: value}}
        if where == "Sign1":
            m = Sign1Message(payload=b"p", **kw)
        elif where == "signer":
            m = SignMessage(payload=b"p", signers=[CoseSignature(**kw)])
        elif where == "upd":
            m = Enc0Message(payload=b"p")
            getattr(m, b + "hdr_update")(kw[b + "hdr"])
        elif where == "set":
            m = Enc0Message(payload=b"p")
            setattr(m, b + "hdr", kw[b + "hdr"])
        else:
            m = Enc0Message(payload=b"p", **kw)
        h = m.signers[0] if where == "signer" else m
        if where == "signer":
            wire = [h.phdr_encoded, h.uhdr_encoded, b"sig"]
            u = {getattr(k, "identifier", k): x for k, x in wire[1].items()}
            wire = cborx.enc(cborx.Tag(98, [b"", {}, b"p", [[wire[0], u, b"sig"]]]))
        elif where == "Sign1":
            wire = m.encode(sign=False)
        else:
            wire = m.encode(encrypt=False)
        if where == "Sign1":
            # an unsigned message has no signature element
            a = cbor2.loads(wire)
            wire = cborx.enc(cborx.Tag(a.tag, list(a.value) + [b"sig"])) if len(a.value) == 3 else wire
        got = CoseMessage.decode(wire)
        got = got.signers[0] if where == "signer" else got
        hd = getattr(got, b + "hdr")
        if list(hd) != [attr]:
            raise Violation("%s sent in the %s bucket of %s arrives as %r" % (v["k"], b, where, hd))
        x = hd[attr]
        if type(x) is not type(value) or x != value:
            raise Violation("%s sent as %r arrives as %r" % (v["k"], value, x))
        return x

    def observe(self, t):
        out = {}
        for s, v in t.items():
            if v["k"] == "-":
                continue
            self.encoded(self.obj[s], v)
