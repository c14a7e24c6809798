"""Driver for specs/Signers.tla: signers that are in, or move between, two COSE_Sign messages."""
import cbor2

import cborx
import ref
import values as V
from common import Violation


class Signers:
    probe_ops = ("ver",)

    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.c = consts
        self.counters = {}
        self.last_error = None
        self.sgs = sorted(consts["Sgs"])
        a, b = V.header_pair(r, taken={1, 5, 6})
        pa = V.some_bytes(r)[:3000] or b"p"
        k = r.randrange(4)
        # the two contents differ in the payload, the protected header or both
        self.con = {"p": (a, pa), "q": (a if k == 0 else b if k < 3 else {}, V.near(r, pa) if k != 1 else pa)}
        if cborx.enc(self.con["p"][0]) == cborx.enc(self.con["q"][0]) and self.con["p"][1] == self.con["q"][1]:
            self.con["q"] = (self.con["q"][0], pa + b"\0")
        self.raw = {}
        self.who = {}
        for g in self.sgs:
            alg = r.choice([ref.EDDSA] * 3 + [-7, -7, -35])
            h, _ = V.header_pair(r, taken={1, 5, 6}, n=r.choice([1, 2]))
            inp = r.random() < 0.5
            p, u = ({1: alg, **h}, {}) if inp else (h if r.random() < 0.5 else {}, {1: alg})
            self.who[g] = {"alg": alg, "k": V.sign_keys(r, alg, 1)[0], "p": p, "u": u, "aad": V.some_bytes(r, 0)[:200] if r.random() < 0.4 else b""}

    def describe(self):
        return {g: [V.ALG_NAMES[w["alg"]], list(w["p"]), len(w["aad"])] for g, w in self.who.items()}

    def start(self, s):
        from pycose.messages.signer import CoseSignature
        r = self.rnd
        self.obj = {}
        for g, w in self.who.items():
            self.obj[g] = CoseSignature(phdr=V.spell_header(r, w["p"]), uhdr=V.spell_header(r, w["u"]))
            self.equip(g)
        self.order = {}
        self.msg = {}
        for m in sorted(s["con"]):
            self.new(m, s["con"][m], s["lst"][m])

    def equip(self, g):
        r, w, o = self.rnd, self.who[g], self.obj[g]
        o.key = V.pycose_key(r, w["k"])
        o.external_aad = w["aad"]

    def mixed(self, S):
        l = list(S)
        self.rnd.shuffle(l)
        return l

    def new(self, m, c, S):
        from pycose.messages import SignMessage
        r = self.rnd
        h, pay = self.con[c]
        self.order[m] = self.mixed(S)
        l = [self.obj[g] for g in self.order[m]]
        kw = {"signers": l} if l or r.random() < 0.5 else {}
        self.msg[m] = SignMessage(phdr=V.spell_header(r, h), uhdr=V.spell_header(r, {4: m.encode()}), payload=pay, **kw)
        if r.random() < 0.4:
            self.msg[m].external_aad = V.some_bytes(r)           # only the signers' own additional data are signed

    def step(self, op, s, t, want):
        r = self.rnd
        self.last_error = None
        name = op["name"]
        if name == "set":
            self.order[op["m"]] = self.mixed(op["S"])
            self.msg[op["m"]].signers = [self.obj[g] for g in self.order[op["m"]]]
            return "ok"
        if name == "new":
            self.new(op["m"], op["c"], op["S"])
            return "ok"
        if name == "con":
            h, pay = self.con[op["c"]]
            m = self.msg[op["m"]]
            todo = [lambda: setattr(m, "phdr", V.spell_header(r, h)), lambda: setattr(m, "payload", pay)]
            r.shuffle(todo)
            for f in todo:
                f()
            return "ok"
        if name == "enc":
            return self.encode(op["m"], want)[1]
        if name == "recv":
            return self.receive(op["m"], s["con"][op["m"]])
        o = self.obj[op["g"]]
        try:
            out = o.verify_signature()
        except Exception as x:
            self.last_error = repr(x)
            return "bad"
        if out is not True and out is not False:
            raise Violation("verification returned %r" % (out,))
        self.count("verified")
        return "true" if out else "bad"

    def encode(self, m, c):
        """encodes and finds out which contents every signature covers"""
        try:
            data = self.msg[m].encode()
        except Exception as x:
            raise Violation("message %s is not encoded: %r" % (m, x))
        body = cbor2.loads(data).value
        h, pay = self.con[c]
        if body[2] != pay or not V.same_map(cbor2.loads(body[0]) if body[0] else {}, h):
            raise Violation("message %s is sent with contents %r" % (m, body[:3]))
        if len(body[3]) != len(self.order[m]):
            raise Violation("message %s with %d signers is sent with %d signatures" % (m, len(self.order[m]), len(body[3])))
        for g, e in zip(self.order[m], body[3]):
            w = self.who[g]
            if not V.same_map(cbor2.loads(e[0]) if e[0] else {}, w["p"]) or not V.same_map(e[1], w["u"]):
                raise Violation("the headers of signer %s are sent as %r" % (g, e[:2]))
            data2 = cborx.enc(["Signature", body[0] if h else b"", e[0], w["aad"], pay])
            if not ref.verify(w["alg"], w["k"], data2, e[2]):
                raise Violation("the signature of signer %s of message %s does not cover its contents" % (g, m))
            self.count("signatures")
        return data, c

    def receive(self, m, c):
        from pycose.messages import CoseMessage, SignMessage
        r = self.rnd
        data, _ = self.encode(m, c)
        out = (CoseMessage if r.random() < 0.5 else SignMessage).decode(data)
        if type(out) is not SignMessage or len(out.signers) != len(self.order[m]):
            raise Violation("a message with %d signers is decoded as %r" % (len(self.order[m]), out))
        self.msg[m] = out
        if r.random() < 0.4:
            out.external_aad = V.some_bytes(r)
        for g, o in zip(self.order[m], out.signers):
            self.obj[g] = o
            self.equip(g)
        return "ok"

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def observe(self, t):
        for m, x in self.msg.items():
            l = list(x.signers)
            if len(l) != len(t["lst"][m]) or any(a is not self.obj[g] for a, g in zip(l, self.order[m])):
                raise Violation("the signers of message %s are not the assigned ones" % m)
            h, pay = self.con[t["con"][m]]
            if x.payload != pay or not V.same_map(V.unspell(x.phdr), h):
                raise Violation("contents of message %s changed" % m)
        for g, w in self.who.items():
            o = self.obj[g]
            if not V.same_map(V.unspell(o.phdr), w["p"]) or not V.same_map(V.unspell(o.uhdr), w["u"]) or o.external_aad != w["aad"]:
                raise Violation("contents of signer %s changed" % g)
