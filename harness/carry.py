"""Driver for specs/Carry.tla: keys inside header parameters."""
import cbor2

import cborx
import crowd
import keyforms as F
import keys_m as K
import ref
import refmsg
import values as V
from common import Violation

LABEL = {"ephemeral": -1, "static": -2}


def case(c, e, r, counts):
    counts["%s %s" % (c["how"], e["out"])] = counts.get("%s %s" % (c["how"], e["out"]), 0) + 1
    kty, have, unk, wire, choose = key(c, e, r)
    if c["how"] == "received":
        received(c, e, r, kty, have, unk, wire, choose)
    else:
        sent(c, e, r, kty, have, unk, wire, choose)


# ----------------------------------------------------------------------- keys
def key(c, e, r):
    """type, parameters of the key (without what the library determines), label of the unregistered one,
    description of the key as a map of label -> value, and the y coordinates which it may have"""
    kind = c["kind"]
    kty = kind.split()[0] if kind.split()[0] in K.KEY_CLASS else None
    if kty is None:
        kty = {"off the curve": ["EC2"], "other curve": ["EC2", "OKP"], "no curve": ["EC2", "OKP"], "short": ["Sym"], "partial": ["RSA"]}.get(kind, sorted(K.KEY_CLASS))
        kty = r.choice(kty)
    opt, unk = F.extras(r, kty, some=c["more"])
    if c["more"] and not opt:
        opt = {"kid": b"own"}
    choose = None
    if kty == "EC2":
        curve = r.choice(sorted(F.FIELD))
        p = ref.ec_key(curve, r)
        m = {"crv": p["crv"], "x": p["x"], "y": p["y"]}
        have = dict(m)
        bit = bool(p["y"][-1] & 1)
        if kind in ("EC2 private", "EC2 d"):
            m["d"] = have["d"] = p["d"]
        if kind == "EC2 d":
            del m["x"], m["y"]
        elif kind == "EC2 sign":
            m["y"] = bit
        elif kind == "EC2 other sign":
            m["y"] = not bit
        elif kind == "EC2 x":
            del m["y"]
        neg = F.negate(curve, p["y"])
        choose = {"own": [p["y"]], "negated": [neg], "either": [p["y"], neg]}.get(e["y"])
        if kind == "off the curve":
            m["x"] = F.no_point(curve, r, p["x"])
            m["y"] = r.choice([True, False])
            if r.random() < 0.4:
                del m["y"]
    elif kty == "OKP":
        curve = r.choice(sorted(F.OKP_MODS))
        p = F.okp_key(curve, r)
        m = {"crv": {v: k for k, v in K.CURVE_NAME.items()}[curve], "x": p["x"], "d": p["d"]}
        if kind == "OKP public":
            del m["d"]
        elif kind == "OKP d":
            del m["x"]
        have = dict(m)
    elif kty == "Sym":
        m = {"k": r.randbytes(r.choice([16, 24, 32]))}
        have = dict(m)
        if kind == "short":
            m["k"] = r.randbytes(r.choice([0, 1, 8, 15, 17, 23, 31, 33, 48, 64]))
    else:
        p = r.choice(ref.rsa_pool())
        names = ["n", "e", "d", "p", "q", "dp", "dq", "qinv"]
        m = {n: p[n] for n in (names[:2] if kind == "RSA public" else names)}
        have = dict(m)
        if kind == "partial":
            for n in r.sample(names[2:], r.randrange(1, 6)):
                del m[n]
    if kind == "other curve":
        m["crv"] = r.choice(K.CURVE_TYPE["OKP" if kty == "EC2" else "EC2"])
    elif kind == "no curve":
        del m["crv"]
    elif kind == "no value":
        for n in {"EC2": "xyd", "OKP": "xd", "Sym": "k", "RSA": r.choice("ne")}[kty]:
            m.pop(n, None)
    elif kind == "wrong value":
        n = r.choice(sorted(set(m) - {"crv", "y"}))
        m[n] = F.bad_component(r, {"src": "cbor"}, falsy=False)
    m["kty"] = K.KTY[kty]
    if kind == "no type":
        del m["kty"]
    elif kind == "other type":
        m["kty"] = r.choice([x for x in K.KTY_NAMES if x != K.KTY[kty]])
    elif kind == "unknown type":
        m["kty"] = r.choice([0, 5, 99, -1, "RESERVED", "EC", "", "OK", None, b"", b"EC2", 1.5])
    m.update(opt)
    return kty, dict(have, **opt), unk, m, choose


def wire_map(kty, m, unk):
    items = [(unk if p == "unk" else K.kp(kty, p)[0], V.clone(v)) for p, v in m.items()]
    return dict(items)


def written(c, r, kty, m, unk):
    """the key as the caller writes it"""
    from pycose.keys import CoseKey, keyparam, keytype, curves, keyops
    if c["form"] == "object":
        w = wire_map(kty, m, unk)
        return CoseKey.from_dict(w) if r.random() < 0.5 else CoseKey.decode(cborx.enc(w))
    out = {}
    for p, v in m.items():
        v = V.clone(v)
        form = c["form"] if c["form"] != "mixed" else r.choice(["names", "labels", "classes"])
        i, name, cls = (unk, unk, None) if p == "unk" else K.kp(kty, p)[:3]
        lab = name if form == "names" else i if form == "labels" or cls is None else getattr(keyparam, cls)
        if form == "names":
            if p == "kty" and v in K.KTY_NAMES:
                v = K.KTY_NAMES[v].upper()
            elif p == "crv":
                v = V.case(r, K.CURVES[v])
            elif p == "alg":
                v = V.case(r, V.ALG_NAMES[v])
            elif p == "ops":
                v = [K.OPS[o] for o in v]
        elif form == "classes":
            if p == "kty" and v in K.KTY_NAMES:
                v = getattr(keytype, K.KTY_CLASSES[v])
            elif p == "crv":
                v = getattr(curves, K.CURVE_CLASSES[v])
            elif p == "alg":
                v = V.alg_class(v)
            elif p == "ops":
                v = [getattr(keyops, K.OPS_CLASSES[o]) for o in v]
        out[lab] = v
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def no_map(r):
    return r.choice([None, 1, 0, b"", b"\xa1\x01\x04", "key", "", [], [1, 4], True, 1.5])


# ------------------------------------------------------------------- messages
class Layered(crowd.Msg):
    """a message of one of the six types whose recipients are key wrap recipients"""

    def __init__(self, c, r):
        super().__init__(c["type"], r, False)
        if self.type == "Mac":                               # a content key that can be wrapped
            self.alg = r.choice([4, 5] + sorted(ref.AESMAC))
            self.key = {"kty": 4, "k": r.randbytes(refmsg.key_len(self.alg))}
            self.p[1] = self.alg
        self.h = {"message": [self.p, self.u], "signer": [self.sp, {}]}
        self.inner = c["layer"] == "inner"
        self.kek = {"kty": 4, "k": r.randbytes(16)}
        self.h["recipient"] = [{}, {1: -3}]
        self.h["inner"] = [{}, {1: -3}]

    def wire(self):
        r = self.r
        t = cbor2.loads(self.reference())
        b = t.value
        if self.type == "Sign":
            b[3][0][1] = self.h["signer"][1]
        if self.type in ("Mac", "Enc"):
            cek = self.key["k"]
            if len(cek) % 8:
                raise AssertionError
            if self.inner:
                mid = r.randbytes(16)
                rc = [b"", self.h["recipient"][1], ref.kw_wrap(mid, cek), [[b"", self.h["inner"][1], ref.kw_wrap(self.kek["k"], mid)]]]
            else:
                rc = [b"", self.h["recipient"][1], ref.kw_wrap(self.kek["k"], cek)]
            b[-1] = [rc]
        return cborx.enc(cborx.Tag(self.tag, b))

    def build(self, c, put):
        """put(cls, p, u, layer, **kw) makes the objects"""
        from pycose import messages as G
        from pycose.messages import recipient as R
        from pycose.messages.signer import CoseSignature
        r, t = self.r, self.type
        key = V.pycose_key(r, self.key)
        kw = {"payload": self.payload}
        if t == "Sign":
            kw["signers"] = [put(CoseSignature, *self.h["signer"], "signer", key=key)]
        if t in ("Mac", "Enc"):
            kek = V.pycose_key(r, self.kek)
            if self.inner:
                kw["recipients"] = [put(R.KeyWrap, *self.h["recipient"], "recipient", recipients=[put(R.KeyWrap, *self.h["inner"], "inner", key=kek)])]
            else:
                kw["recipients"] = [put(R.KeyWrap, *self.h["recipient"], "recipient", key=kek)]
        o = put(getattr(G, t + "Message"), *self.h["message"], "message", **kw)
        if t in ("Sign1", "Mac0", "Enc0"):
            o.key = key
        return o

    def at(self, o, layer):
        return {"message": lambda: o, "signer": lambda: o.signers[0], "recipient": lambda: o.recipients[0], "inner": lambda: o.recipients[0].recipients[0]}[layer]()

    def opens(self, o):
        t = self.type
        if t in ("Mac", "Enc"):
            leaf = self.at(o, "inner" if self.inner else "recipient")
            leaf.key = V.pycose_key(self.r, self.kek)
            return (o.verify_tag(o.recipients[0]) if t == "Mac" else o.decrypt(o.recipients[0])) in (True, self.payload)
        x = o.signers[0] if t == "Sign" else o
        x.key = V.pycose_key(self.r, self.key, t not in ("Sign", "Sign1"))
        return (x.verify_signature() if t in ("Sign", "Sign1") else o.verify_tag() if t == "Mac0" else o.decrypt()) in (True, self.payload)


def entry(b, layer):
    return {"message": lambda: b, "signer": lambda: b[3][0], "recipient": lambda: b[-1][0], "inner": lambda: b[-1][0][3][0]}[layer]()


def plain_header(b, bucket):
    if bucket == "unprotected":
        return b[1]
    return cbor2.loads(b[0]) if b[0] else {}


def settle(have, choose, got):
    """the y coordinate is one of the possible ones"""
    if choose and got in choose:
        have = dict(have, y=got)
    return have


def same(c, have, want):
    """equal headers; the order of parameters in a key is of no importance"""
    lab = LABEL[c["as"]]
    rest = [{k: v for k, v in h.items() if k != lab} for h in (have, want)]
    return V.same_map(*rest) and type(have.get(lab)) is dict and V.same_map(have[lab], want[lab])


def check(c, r, m, o, kty, have, choose, unk):
    """the received object has the key"""
    from pycose import headers
    attr = {"ephemeral": headers.EphemeralKey, "static": headers.StaticKey}[c["as"]]
    x = m.at(o, c["layer"])
    hdr = x.phdr if c["in"] == "protected" else x.uhdr
    if attr not in hdr:
        raise Violation("a received message has no %s key" % c["as"])
    k = hdr[attr]
    have = settle(have, choose, getattr(k, "y", None))
    K.check_key(r, kty, k, have, unk)
    if x.get_attr(attr) is not k:
        raise Violation("another %s key is found" % c["as"])
    return have


def sent(c, e, r, kty, have, unk, m, choose):
    from pycose.messages import CoseMessage
    msg = Layered(c, r)
    lab = LABEL[c["as"]]
    value = no_map(r) if c["kind"] == "no map" else written(c, r, kty, m, unk)
    before = F.snapshot(value) if type(value) is dict else V.plain(value)
    slot = 0 if c["in"] == "protected" else 1
    state = {}

    def put(cls, p, u, layer, **kw):
        p, u = V.spell_header(r, p), V.spell_header(r, u)
        if layer != c["layer"]:
            return cls(phdr=p, uhdr=u, **kw)
        new = [p, u][slot]
        how = c["how"]
        if how == "updated":
            o = cls(phdr=p, uhdr=u, **kw)
            state["o"], state["was"] = o, [V.unspell(o.phdr), V.unspell(o.uhdr)]
            (o.phdr_update if slot == 0 else o.uhdr_update)({V.spell_label(r, lab): value})
            return o
        items = list(new.items()) + [(V.spell_label(r, lab), value)]
        r.shuffle(items)
        new = dict(items)
        if how == "constructor":
            return cls(phdr=new if slot == 0 else p, uhdr=u if slot == 0 else new, **kw)
        o = cls(phdr=p, uhdr=u, **kw)
        state["o"], state["was"] = o, [V.unspell(o.phdr), V.unspell(o.uhdr)]
        if slot == 0:
            o.phdr = new
        else:
            o.uhdr = new
        return o

    out = F.attempt(lambda: msg.build(c, put))
    if type(value) is dict:
        F.unchanged(value, before)
    if e["out"] == "bad":
        if not isinstance(out, Exception):
            raise Violation("a header parameter for a key is accepted: %s" % c["kind"], {"value": repr(value)[:400]})
        if "o" in state and not all(V.same_map(a, b) for a, b in zip(state["was"], [V.unspell(state["o"].phdr), V.unspell(state["o"].uhdr)])):
            raise Violation("a refused key has changed the header")
        return
    if isinstance(out, Exception):
        raise Violation("a header parameter for a key is refused: %s" % c["kind"], {"error": repr(out), "value": repr(value)[:400]})
    data = out.encode()
    if type(value) is not dict and not V.same(V.plain(value), before):
        raise Violation("a key object in a header is changed by encoding")
    b = cbor2.loads(data).value
    hdr = plain_header(entry(b, c["layer"]), c["in"])
    got = hdr.get(lab)
    have = settle(have, choose, got.get(-3) if type(got) is dict else None)
    want = dict(msg.h[c["layer"]][slot])
    want[lab] = wire_map(kty, dict(have, kty=K.KTY[kty]), unk)
    if not same(c, hdr, want):
        raise Violation("a key in a header is sent as something else", {"sent": repr(got)[:500], "instead of": repr(want[lab])[:500]})
    o = CoseMessage.decode(data)
    check(c, r, msg, o, kty, have, choose and [have["y"]], unk)
    if not msg.opens(o):
        raise Violation("a message with a key in its header does not open")
    two = cbor2.loads(out.encode()).value
    if not same(c, plain_header(entry(two, c["layer"]), c["in"]), want):
        raise Violation("a key in a header is sent differently the second time")


def received(c, e, r, kty, have, unk, m, choose):
    from pycose import messages as G
    msg = Layered(c, r)
    slot = 0 if c["in"] == "protected" else 1
    w = no_map(r) if c["kind"] == "no map" else wire_map(kty, m, unk)
    if type(w) is dict:
        items = list(w.items())
        r.shuffle(items)
        w = dict(items)
    base = msg.h[c["layer"]][slot]
    items = list(base.items()) + [(LABEL[c["as"]], w)]
    r.shuffle(items)
    base.clear()
    base.update(items)
    data = msg.wire()
    cls = r.choice([G.CoseMessage, getattr(G, msg.type + "Message")])
    o = F.attempt(lambda: cls.decode(data))
    if e["out"] == "bad":
        if not isinstance(o, Exception):
            raise Violation("a received message is accepted with a key: %s" % c["kind"], {"value": repr(w)[:400]})
        return
    if isinstance(o, Exception):
        raise Violation("a received message is refused for its key: %s" % c["kind"], {"error": repr(o), "value": repr(w)[:400]})
    have = check(c, r, msg, o, kty, have, choose, unk)
    x = msg.at(o, c["layer"])
    old = entry(cbor2.loads(data).value, c["layer"])
    if x.phdr_encoded != old[0]:
        raise Violation("the protected header is not kept as it was received")
    if not msg.opens(o):
        raise Violation("a received message with a key in its header does not open")
    if msg.type in ("Sign1", "Mac0", "Enc0"):
        o.key = V.pycose_key(r, msg.key)
        b = cbor2.loads(o.encode()).value
        if b[0] != old[0]:
            raise Violation("the protected header is sent otherwise than it was received")
        if slot == 1:
            want = dict(base)
            want[LABEL[c["as"]]] = wire_map(kty, dict(have, kty=K.KTY[kty]), unk)
            if not same(c, b[1], want):
                raise Violation("a received key is sent as something else", {"sent": repr(b[1])[:500]})


def replay_case(rep):
    import table
    return table.replay(rep, case)
