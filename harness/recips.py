"""Drivers for specs/Distribute.tla and specs/Receive.tla, and modification of recipient entries on the wire."""
import cbor2

import cborx
import common
import keylen
import ref
import refmsg
import values as V
from common import Violation

HOSTS = [a for a in ref.ENC_ALGS] + [4, 5] + sorted(ref.AESMAC)
ES_KW, SS_KW = [-29, -30, -31], [-32, -33, -34]


class Slot:
    """one recipient: algorithm, key of the receiver, static key of the sender, recipients of its own"""

    def __init__(self, r, kind, n, depth=0):
        self.r, self.kind = r, kind
        self.kid = None if r.random() < 0.3 else b"slot%d" % n      # some entries look alike
        self.inner, self.obj = [], None
        self.rec = self.static = None
        self.extra = {}
        if kind == "direct":
            self.alg = -6
            return
        if kind == "agree":
            self.alg = r.choice([-25, -26, -27, -28])
        else:
            k = r.random()
            if k < 0.3:
                self.alg = r.choice([-3, -4, -5])
            elif k < 0.42:
                self.alg = r.choice([-40, -41, -42])
            elif k < 0.62 or depth:
                self.alg = r.choice(ES_KW)
            elif k < 0.82:
                self.alg = r.choice(SS_KW)
            else:
                self.alg = r.choice([-3, -4, -5])
                kinds = r.choice([["wrap"], ["wrap"], ["wrap", "wrap"], ["agree"]])
                self.inner = [Slot(r, q, n * 10 + i, 1) for i, q in enumerate(kinds)]
                return
        self.rec, self.static = keylen.keys_for(self.alg, r)
        if self.alg in ref.ECDH and r.random() < 0.4:
            self.extra = {lab: r.randbytes(r.choice([0, 1, 8])) for lab in r.sample([-20, -21, -22, -23, -24, -25, -26], r.randrange(1, 4))}
        self.phdr = {}
        if self.alg in ref.ECDH and r.random() < 0.4:
            self.phdr = {1: self.alg}

    def describe(self):
        return [self.alg, [i.describe() for i in self.inner]] if self.inner else self.alg

    def base(self):
        return {} if self.kid is None else {4: self.kid}

    def secrets(self):
        """what must not be readable in a message"""
        out = [x for rec in (self.rec, self.static) if rec for x in (rec.get("d"), rec.get("k"), rec.get("p"), rec.get("q")) if x]
        if self.obj is not None and not self.inner and self.alg in ref.ECDH and self.obj.key is not None and self.obj.key.d:
            out.append(self.obj.key.d)
        return out + [x for i in self.inner for x in i.secrets()]

    # ---------------------------------------------------------------- library
    def build(self):
        """the library's recipient object for sending"""
        from pycose.messages import recipient as R
        r = self.r
        if self.kind == "direct":
            self.obj = R.DirectEncryption(uhdr=V.spell_header(r, {1: -6, **self.base()}))
            return self.obj
        if self.inner:
            self.obj = R.KeyWrap(uhdr=V.spell_header(r, {1: self.alg, **self.base()}), recipients=[i.build() for i in self.inner])
            return self.obj
        u = {**self.base(), **self.extra}
        if 1 not in self.phdr:
            u[1] = self.alg
        cls = R.KeyWrap if self.alg not in ref.ECDH else R.KeyAgreementWithKeyWrap if ref.ECDH[self.alg][2] else R.DirectKeyAgreement
        if self.alg in ref.ECDH:
            self.own_ephemeral = ref.ECDH[self.alg][1] and r.random() < 0.3
            if not ref.ECDH[self.alg][1]:
                u[-2] = refmsg.public(self.static)
            elif self.own_ephemeral:
                u[-1] = refmsg.public(self.static)
        o = cls(phdr=V.spell_header(r, self.phdr), uhdr=V.spell_header(r, u))
        if self.alg in ref.ECDH:
            o.local_attrs = {V.hdr_class(-2): V.pycose_key(r, self.rec, False)}
            if not ref.ECDH[self.alg][1] or self.own_ephemeral:
                o.key = V.pycose_key(r, self.static)
        else:
            o.key = V.pycose_key(r, self.rec, self.alg in ref.KW)
        self.obj = o
        return o

    # -------------------------------------------------------------- reference
    def wire(self, cek, target, other_static=None):
        """entry of the recipient list, built by the reference"""
        r = self.r
        if self.kind == "direct":
            return [b"", {1: -6, **self.base()}, b""]
        if self.inner:
            if self.inner[0].kind == "agree":
                e = self.inner[0].wire(None, self.alg)
                kek = refmsg.open_recipient(e, self.alg, self.inner[0].rec)
                return [b"", {1: self.alg, **self.base()}, ref.kw_wrap(kek, cek), [e]]
            kek = r.randbytes(ref.KW[self.alg])
            return [b"", {1: self.alg, **self.base()}, ref.kw_wrap(kek, cek), [i.wire(kek, self.alg) for i in self.inner]]
        u = {**self.base(), **self.extra}
        pe = cborx.enc(self.phdr) if self.phdr else b""
        if not self.phdr:
            u[1] = self.alg
        if self.alg not in ref.ECDH:
            return [pe, u, refmsg.raw_wrap(self.alg, self.rec["k"] if self.alg in ref.KW else self.rec, cek)]
        st = other_static or self.static
        u[-1 if ref.ECDH[self.alg][1] else -2] = refmsg.public(st)
        k = refmsg.agree(self.alg, ref.ecdh(st, self.rec), target, pe, {**u, **self.phdr})
        return [pe, u, ref.kw_wrap(k, cek) if ref.ECDH[self.alg][2] else b""]

    def open(self, w, target):
        """content keys obtained from the entry by its owner(s); None: does not open"""
        if self.kind == "direct":
            return [None]
        if self.inner:
            if len(w) != 4 or len(w[3]) != len(self.inner):
                raise Violation("a recipient with %d recipients of its own is sent with %d" % (len(self.inner), len(w[3]) if len(w) > 3 else 0))
            out = []
            for i, e in zip(self.inner, w[3]):
                for kek in i.open(e, self.alg):
                    out.append(kek and ref.kw_unwrap(kek, w[2]))
            return out
        return [refmsg.open_recipient(w, target, self.rec)]

    # --------------------------------------------------------------- receiver
    def owners(self):
        return self.inner or [self]

    def set_key(self, rc, rec):
        """gives a decoded recipient its key; with recipients of its own it belongs to one of them"""
        if self.inner:
            n = self.r.randrange(len(self.inner))
            k = V.rekey(self.r, rc.recipients[n].key, rec[n] if isinstance(rec, list) else rec)
            for i, x in enumerate(rc.recipients):
                x.key = None
            rc.recipients[n].key = k
            rc, alg = rc.recipients[n], self.inner[n].alg
        else:
            rc.key = V.rekey(self.r, rc.key, rec)
            alg = self.alg
        if alg in ref.ECDH and self.r.random() < 0.1:    # what the receiver configures for sending has no influence
            rc.local_attrs = {V.hdr_class(-2): V.pycose_key(self.r, (self.inner[n] if self.inner else self).rec, False)}

    def own_key(self):
        r = self.r
        if self.inner:
            return [V.pycose_key(r, i.rec) for i in self.inner]
        return V.pycose_key(r, self.rec)

    def stranger(self):
        r = self.r
        o = self.inner[0] if self.inner else self
        if o.alg in ref.KW:
            k = bytearray(o.rec["k"])
            k[r.randrange(len(k))] ^= 1 << r.randrange(8)
            return V.pycose_key(r, {"kty": 4, "k": bytes(k)})
        if o.alg in ref.OAEP:
            own = [i.rec.get("n") for i in self.owners()]
            return V.pycose_key(r, r.choice([k for k in ref.rsa_pool() if k["n"] not in own and len(k["n"]) >= 192]))
        if r.random() < 0.3 and o.static is not None:
            return V.pycose_key(r, o.static)            # the sender's own key
        return V.pycose_key(r, ref.ec_key(o.rec["curve"], r))


def opened(msg, rc, w):
    """what the library makes of the message through this recipient"""
    try:
        with common.limit(30):
            if w.tag == 96:
                return ("ok", msg.decrypt(rc))
            return ("ok", w.payload) if msg.verify_tag(rc) is True else ("bad", None)
    except Exception as x:
        return ("bad", repr(x))


def examine(w, sl, data, direct_key, everyone):
    """content key of a sent message, found by opening every entry of its recipient list with the reference"""
    body = cbor2.loads(data).value
    if len(body[-1]) != len(sl):
        raise Violation("a message with %d recipients is sent with %d" % (len(sl), len(body[-1])))
    keys = []
    for n, (x, e) in enumerate(zip(sl, body[-1])):
        if refmsg.headers_of(e).get(4) != x.kid or refmsg.alg_of(e) != x.alg:
            raise Violation("recipient %d of the message is not the one at that place" % n, {"entry": repr(e)})
        for k in x.open(e, w.host):
            if k is None and x.kind != "direct":
                raise Violation("the owner of recipient %d (%s) does not recover a content key" % (n, x.describe()))
            keys.append(k if x.kind != "direct" else direct_key["k"])
    if len(set(keys)) != 1:
        raise Violation("the recipients of one message are given different content keys", {"keys": [k.hex() for k in keys]})
    k = keys[0]
    if refmsg.open_body(body, w.tag, k, w.ext) not in ((w.payload,) if w.tag == 96 else (True,)):
        raise Violation("the message does not open under the content key of its recipients", {"alg": w.host, "kinds": [x.describe() for x in sl]})
    if w.tag == 97 and body[2] != w.payload:
        raise Violation("the payload of the message is not the one given")
    hidden = [("content key", k)] + [("private or secret key", z) for x in everyone for z in x.secrets()]
    hidden += [("plaintext", w.payload)] if w.tag == 96 and len(set(w.payload)) > 9 else []
    for what, x in hidden:
        if len(x.lstrip(b"\0")) > 9 and x.lstrip(b"\0") in data:
            raise Violation("the message contains a %s in the clear" % what, {"recipients": [x.describe() for x in sl]})
    return k


class Distribute:
    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.c = consts
        self.counters = {}
        self.last_error = None
        kinds = [consts["K1"], consts["K2"], consts["K3"]]
        self.w = keylen.World(r.choice(HOSTS), r)
        self.slots = [Slot(r, k, n) for n, k in enumerate(kinds)]
        n = refmsg.key_len(self.w.host)
        self.pay = {"a": V.some_bytes(r)[:2000], "b": r.choice([b"", b"x", r.randbytes(50)])}
        if self.pay["a"] == self.pay["b"]:
            self.pay["b"] += b"."
        self.cek = {"p": r.randbytes(n), "q": r.randbytes(n)}
        self.seen = set(self.cek.values())
        self.direct_key = {"kty": 4, "k": r.randbytes(n)}

    def describe(self):
        return {"alg": V.ALG_NAMES[self.w.host], "recipients": [s.describe() for s in self.slots]}

    def start(self, s):
        self.w.payload = self.pay["a"]
        self.msg = self.w.message(self.rnd.choice([None, []]))
        for x in self.slots:
            x.build()

    def step(self, op, s, t, want):
        r = self.rnd
        if op["name"] == "assign":
            lst = [self.slots[i - 1].obj for i in op["l"]]
            self.msg.recipients = lst or r.choice([lst, None])
            if lst and r.random() < 0.2:
                lst.pop()                                   # the caller's list is the caller's
            return "ok"
        if op["name"] == "give":
            self.slots[op["i"] - 1].obj.payload = b"" if op["k"] == "-" else self.cek[op["k"]]
            return "ok"
        return self.protect(s, want)

    def protect(self, s, want):
        r, w = self.rnd, self.w
        if r.random() < 0.6:
            w.payload = r.choice([self.pay["a"], self.pay["b"], r.randbytes(r.randrange(1, 40))])
            self.msg.payload = w.payload
        sl = [self.slots[i - 1] for i in s["rs"]]
        if sl and all(x.kind == "direct" for x in sl):
            self.msg.key = V.pycose_key(r, self.direct_key)
        if w.tag == 96 and r.random() < 0.5:
            w.u[5] = r.randbytes(len(w.u[5]) if 5 in w.u else ref.enc_nonce_len(w.host))
            self.msg.uhdr_update({V.spell_label(r, 5): w.u[5]})
        try:
            data = self.msg.encode()
        except Exception as x:
            self.last_error = repr(x)
            return "bad"
        if want == "bad":
            return "ok"
        k = examine(w, sl, data, self.direct_key, self.slots)
        if want in ("1", "2", "3") and all(s["ck"][i - 1] == "-" for i in s["rs"]):
            if k in self.seen:
                raise Violation("a generated content key is not new")
            self.cek[want] = k
            self.seen.add(k)
        if want in self.cek and k != self.cek[want]:
            raise Violation("the message is protected under another content key than %s" %
                            ("the given one" if want in "pq" else "the one its recipients hold"))
        self.count("messages")
        self.receivers(data, sl)
        return want

    def receivers(self, data, sl):
        from pycose.messages import CoseMessage
        r, w = self.rnd, self.w
        try:
            m = CoseMessage.decode(data)
        except Exception as x:
            raise Violation("a message of the library cannot be decoded: %r" % x)
        m.external_aad = w.ext
        for n in r.sample(range(len(sl)), r.choice([1, len(sl)])):
            x, rc = sl[n], m.recipients[n]
            if x.kind == "direct":
                m.key = V.pycose_key(r, self.direct_key)
            else:
                if r.random() < 0.5:
                    x.set_key(rc, x.stranger())
                    if opened(m, rc, w)[0] == "ok":
                        raise Violation("recipient %d (%s) opens the message with another key" % (n, x.describe()))
                x.set_key(rc, x.own_key())
            got = opened(m, rc, w)
            if got != ("ok", w.payload):
                raise Violation("recipient %d (%s) does not open the message: %s" % (n, x.describe(), got[1]), {"world": self.describe()})
            self.count("opened")

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def observe(self, t):
        got = list(self.msg.recipients)
        want = [self.slots[i - 1].obj for i in t["rs"]]
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            raise Violation("the recipients of the message are not the %d assigned ones" % len(want))


class Receive:
    probe_ops = ("open",)

    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.n = consts["N"]
        self.counters = {}
        self.last_error = None
        self.w = keylen.World(r.choice([h for h in HOSTS if consts.get("family", 0) in (0, 96 if h in ref.ENC_ALGS else 97)]), r)
        kinds = ["wrap"] * self.n if self.n > 1 or r.random() < 0.6 else ["agree"]
        self.slots = [Slot(r, k, n) for n, k in enumerate(kinds)]
        self.by_library = r.random() < 0.4
        self.genuine()

    def describe(self):
        return {"alg": V.ALG_NAMES[self.w.host], "recipients": [s.describe() for s in self.slots], "sender": "pycose" if self.by_library else "reference"}

    def genuine(self):
        """the unchanged message, and entries of another message for the same recipients"""
        r, w = self.rnd, self.w
        n = refmsg.key_len(w.host)
        self.sibling = None                              # another message under the same content key
        if self.by_library:
            bodies = []
            for _ in range(2):
                m = w.message([x.build() for x in self.slots])
                try:
                    bodies.append(cbor2.loads(m.encode()).value)
                except Exception as x:
                    raise Violation("protecting for the recipients failed: %r" % x, self.describe())
            self.body, self.stale = bodies
            return
        out = []
        for st in (False, True):
            cek = r.randbytes(n)
            es = [x.wire(cek, w.host, ref.ec_key(x.static["curve"], r) if st and x.static else None) for x in self.slots]
            if self.slots[0].kind == "agree":
                cek = refmsg.open_recipient(es[0], w.host, self.slots[0].rec)
            out.append(cbor2.loads(refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, cek, es)).value)
            if self.sibling is None and es[0][2]:
                self.sibling = cbor2.loads(refmsg.protect(w.tag, w.p, w.u, w.payload + b".", w.ext, cek, [x.wire(cek, w.host) for x in self.slots])).value
        self.body, self.stale = out

    def start(self, s):
        self.receive(s["w"])

    def step(self, op, s, t, want):
        r = self.rnd
        if op["name"] == "receive":
            self.receive(op["w"])
            return "ok"
        if op["name"] == "key":
            self.set_key(op["i"] - 1, op["k"])
            return "ok"
        if op["name"] == "touch":
            self.touch(op["x"], op["v"])
            return "ok"
        if op["name"] == "foreign":
            from pycose.messages import CoseMessage
            body = self.sibling if self.sibling and r.random() < 0.7 else self.stale
            other = CoseMessage.decode(cborx.enc(cborx.Tag(self.w.tag, body)))
            n = r.randrange(self.n)
            self.slots[n].set_key(other.recipients[n], self.slots[n].own_key())
            return opened(self.msg, other.recipients[n], self.w)[0]
        rc = self.msg.recipients[op["i"] - 1]
        out, got = opened(self.msg, rc, self.w)
        self.last_error = got
        if out == "ok" and got != self.w.payload:
            raise Violation("opening the message gives %r" % got)
        self.counters["attempts"] = self.counters.get("attempts", 0) + 1
        return out

    def touch(self, x, same):
        r, m, w = self.rnd, self.msg, self.w
        if x == "aad":
            m.external_aad = w.ext if same else V.near(r, w.ext or b"a")
            return
        m.payload = self.body[2]
        if w.tag == 97:
            m.auth_tag = self.body[3]
        if not same:
            attr = "auth_tag" if w.tag == 97 and r.random() < 0.5 else "payload"
            b = bytearray(getattr(m, attr))
            k = r.randrange(4)
            if k == 0:
                b = b[:-1]
            elif k == 1:
                b += b"\0"
            elif k == 2 and attr == "payload":
                b = r.randbytes(len(b)) if w.tag == 96 else b""
            else:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            setattr(m, attr, bytes(b))

    def set_key(self, n, k):
        x, rc = self.slots[n], self.msg.recipients[n]
        if k == "none":
            if x.inner:
                for y in rc.recipients:
                    y.key = None
            rc.key = None
        elif k == "own":
            x.set_key(rc, x.own_key())
        elif k == "stranger" or self.n == 1:
            x.set_key(rc, x.stranger())
        else:
            o = self.slots[(n + 1) % self.n]
            o = o.inner[0] if o.inner else o
            mine = [i.rec for i in x.owners()]
            x.set_key(rc, x.stranger() if any(m.get("n") and m.get("n") == o.rec.get("n") for m in mine) else V.pycose_key(self.rnd, o.rec))

    def receive(self, w):
        from pycose.messages import CoseMessage
        body = list(self.body)
        body[-1] = [self.change(n, w[n]) for n in range(self.n)]
        data = cborx.enc(cborx.Tag(self.w.tag, body))
        try:
            self.msg = CoseMessage.decode(data)
        except Exception as x:
            raise Violation("a message with recipients %s (%s) cannot be decoded: %r" % (self.describe()["recipients"], w, x))
        self.msg.external_aad = self.w.ext

    def change(self, n, how):
        r, x = self.rnd, self.slots[n]
        e = list(self.body[-1][n])
        e[1] = dict(e[1])
        if how == "ok":
            return e
        if how == "stale" and x.kind != "agree":
            return self.stale[-1][n]
        if how == "swap":
            if x.kind == "agree":
                self.spoil_pub(x, e)
            else:                                        # the key wrapped for another recipient, or for the recipients of another message
                e[2] = self.stale[-1][(n + 1) % self.n][2]
            return e
        if how == "ct" and x.kind != "agree":
            c = bytearray(e[2])
            k = r.randrange(4)
            if k == 0:
                c = c[:-8]
            elif k == 1:
                c = c + bytes(8)
            else:
                c[r.randrange(len(c))] ^= 1 << r.randrange(8)
            e[2] = bytes(c)
            return e
        if how == "alg":
            group = next(g for g in ([-3, -4, -5], [-40, -41, -42], ES_KW, SS_KW, [-25, -26], [-27, -28]) if x.alg in g)
            a = r.choice([g for g in group if g != x.alg])
            if not x.inner and x.phdr:
                e[0] = cborx.enc({**cbor2.loads(e[0]), 1: a})
            else:
                e[1][1] = a
            return e
        # the sender's public key
        y, pos = x, e
        if x.inner:
            i = r.randrange(len(x.inner))
            e[3] = [list(q) for q in e[3]]
            for q, inner in zip(e[3], x.inner):         # every entry, whichever is used
                self.spoil_pub(inner, q)
        else:
            self.spoil_pub(x, e)
        return e

    def spoil_pub(self, x, e):
        r = self.rnd
        e[1] = dict(e[1])
        if x.alg in ref.ECDH:
            lab = -1 if ref.ECDH[x.alg][1] else -2
            e[1][lab] = refmsg.public(ref.ec_key(x.rec["curve"] if r.random() < 0.7 else r.choice(["P-256", "P-384", "P-521"]), r))
        else:
            c = bytearray(e[2])
            c[r.randrange(len(c))] ^= 1 << r.randrange(8)
            e[2] = bytes(c)

    def observe(self, t):
        if len(self.msg.recipients) != self.n:
            raise Violation("the decoded message has %d recipients instead of %d" % (len(self.msg.recipients), self.n))


# ---------------------------------------------------------- exhaustive changes
def flips(arg):
    """every byte of the wrapped key, the sender's public key, and everything else the recipient's entry authenticates"""
    kind, alg, host, rep = arg
    r = common.rng("flips", kind, alg, host, rep)
    counts, viol = {"changed": 0}, []
    try:
        with common.limit(300):
            _flips(kind, alg, host, r, counts)
    except common.Hang:
        viol.append(("opening a changed message does not return", {"case": list(arg)}))
    except Violation as v:
        viol.append((v.what, dict(v.detail, case=list(arg))))
    return {"counts": counts, "violations": viol}


def _flips(kind, alg, host, r, counts):
    from pycose.messages import CoseMessage
    w = keylen.World(host, r)
    x = Slot(r, kind, 1)
    while x.alg != alg or x.inner or alg in ref.OAEP and len(x.rec["n"]) > 256:
        x = Slot(r, kind, 1)
    m = w.message([x.build()])
    body = cbor2.loads(m.encode()).value
    own = x.own_key()

    def attempt(e, what):
        b = list(body)
        b[-1] = [e]
        counts["changed"] += 1
        try:
            m = CoseMessage.decode(cborx.enc(cborx.Tag(w.tag, b)))
            m.external_aad = w.ext
            m.recipients[0].key = own
        except Exception:
            return "bad"
        return opened(m, m.recipients[0], w)[0]

    e = body[-1][0]
    if attempt(e, "") != "ok":
        raise Violation("the recipient %d does not open the unchanged message" % alg)
    step = 1 if common.THOROUGH or alg not in ref.OAEP else 9          # RSA is slow
    for i in range(r.randrange(step), len(e[2]), step):
        c = bytearray(e[2])
        c[i] ^= 1 << r.randrange(8)
        if attempt([e[0], e[1], bytes(c)], "ciphertext") == "ok":
            raise Violation("recipient %d: byte %d of the encrypted content key can be changed" % (alg, i))
    for c in [e[2][:-1], e[2] + b"\0", e[2][:-8], e[2] + bytes(8), b"", b"\0" + e[2], None] if e[2] else [b"\0", bytes(24)]:
        if attempt([e[0], e[1], c], "ciphertext") == "ok":
            raise Violation("recipient %d: the encrypted content key can be replaced by %r" % (alg, c and len(c)))
    if alg in ref.ECDH:
        lab = -1 if ref.ECDH[alg][1] else -2
        for coord in (-2, -3):
            for i in range(len(e[1][lab][coord])):
                k = dict(e[1][lab])
                c = bytearray(k[coord])
                c[i] ^= 1 << r.randrange(8)
                k[coord] = bytes(c)
                if attempt([e[0], {**e[1], lab: k}, e[2]], "public key") == "ok":
                    raise Violation("recipient %d: byte %d of coordinate %d of the sender's public key can be changed" % (alg, i, coord))
        k = dict(e[1][lab])
        for crv in (1, 2, 3, 8):
            if crv != k[-1] and attempt([e[0], {**e[1], lab: {**k, -1: crv}}, e[2]], "curve") == "ok":
                raise Violation("recipient %d: the curve of the sender's public key can be changed" % alg)
        u = dict(e[1])
        del u[lab]
        if attempt([e[0], u, e[2]], "no key") == "ok":
            raise Violation("recipient %d: the sender's public key can be removed" % alg)
        other = -2 if lab == -1 else -1
        if attempt([e[0], {**u, other: e[1][lab]}, e[2]], "moved") == "ok":
            raise Violation("recipient %d: the sender's public key is taken from the other parameter" % alg)
        for p in (-20, -21, -22, -23, -24, -25, -26):
            for v in (b"x", e[1].get(p, b"") + b"\0", b""):
                if e[1].get(p) == v or p == -20 and e[1].get(p, b"").rstrip(b"\0") == v.rstrip(b"\0"):
                    continue
                if attempt([e[0], {**e[1], p: v}, e[2]], "context") == "ok":
                    raise Violation("recipient %d: header parameter %d can be changed" % (alg, p))
        ph = cbor2.loads(e[0]) if e[0] else {}
        if attempt([cborx.enc({**ph, 4: b"other"}), {k: v for k, v in e[1].items() if k != 4}, e[2]], "protected header") == "ok":
            raise Violation("recipient %d: the protected header can be changed" % alg)


def flip_jobs(thorough):
    out = []
    for alg in sorted(ref.KW) + sorted(ref.OAEP) + sorted(ref.ECDH):
        kind = "agree" if alg in ref.ECDH and not ref.ECDH[alg][2] else "wrap"
        hosts = HOSTS if thorough else [2, 26] if alg in ref.OAEP else [1, 3, 5, 11, 15, 26]
        for h in hosts:
            for rep in range(4 if thorough else 1):
                out.append((kind, alg, h, rep))
    return out


def replay_flips(rep):
    common.arm()
    res = flips(tuple(rep["detail"]["case"]))
    for what, d in res["violations"]:
        print("REPRODUCED: %s %s" % (what, d))
        return 1
    print("not reproduced")
    return 0


class Nest(Distribute):
    """specs/Nest.tla"""

    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.c = consts
        self.counters, self.last_error = {}, None
        self.w = keylen.World(r.choice(HOSTS), r)
        self.slots = [Slot(r, k, n, 1) for n, k in enumerate([consts["K1"], consts["K2"], consts["K3"]])]
        o = self.outer = Slot(r, "wrap", 9)
        o.alg = r.choice([-3, -4, -5])
        o.inner, o.extra, o.phdr, o.static = [], {}, {}, None
        n = ref.KW[o.alg]
        o.rec = {"kty": 4, "k": r.randbytes(n)}
        self.pay = {"a": V.some_bytes(r)[:2000], "b": r.choice([b"", b"x", r.randbytes(50)])}
        if self.pay["a"] == self.pay["b"]:
            self.pay["b"] += b"."
        self.kek = {"p": r.randbytes(n), "q": r.randbytes(n)}
        self.seen = set(self.kek.values())
        self.direct_key = {"kty": 4, "k": r.randbytes(n)}
        self.cek = None

    def describe(self):
        return {"alg": V.ALG_NAMES[self.w.host], "wrap": self.outer.alg, "recipients": [s.describe() for s in self.slots]}

    def start(self, s):
        from pycose.messages import recipient as R
        self.w.payload = self.pay["a"]
        for x in self.slots:
            x.build()
        o = self.outer
        o.inner = []
        o.obj = R.KeyWrap(uhdr=V.spell_header(self.rnd, {1: o.alg, **o.base()}), recipients=self.rnd.choice([None, []]))
        self.msg = self.w.message([o.obj])

    def step(self, op, s, t, want):
        r, o = self.rnd, self.outer
        if op["name"] == "assign":
            lst = [self.slots[i - 1].obj for i in op["l"]]
            o.obj.recipients = lst or r.choice([lst, None])
            if lst and r.random() < 0.2:
                lst.pop()
            return "ok"
        if op["name"] == "give":
            self.slots[op["i"] - 1].obj.payload = b"" if op["k"] == "-" else self.kek[op["k"]]
            return "ok"
        if op["name"] == "own":
            o.obj.key = V.pycose_key(r, o.rec) if t["own"] else None
            return "ok"
        o.inner = [self.slots[i - 1] for i in s["rs"]]
        return self.protect(s, want)

    def protect(self, s, want):
        r, w, o = self.rnd, self.w, self.outer
        if r.random() < 0.6:
            w.payload = r.choice([self.pay["a"], self.pay["b"], r.randbytes(r.randrange(1, 40))])
            self.msg.payload = w.payload
        if w.tag == 96 and r.random() < 0.5:
            w.u[5] = r.randbytes(len(w.u[5]) if 5 in w.u else ref.enc_nonce_len(w.host))
            self.msg.uhdr_update({V.spell_label(r, 5): w.u[5]})
        try:
            data = self.msg.encode()
        except Exception as x:
            self.last_error = repr(x)
            return "bad"
        if want == "bad":
            return "ok"
        k = examine(w, [o], data, self.direct_key, self.slots)
        if self.cek is not None and s["ck"] and k != self.cek:
            raise Violation("the message is protected under another content key than the one its recipient holds")
        if not s["ck"] and k in self.seen:
            raise Violation("a generated content key is not new")
        self.cek = k
        self.seen.add(k)
        if want not in ("own", "agree"):
            entry = cbor2.loads(data).value[-1][0]
            keks = {x for i, e in zip(o.inner, entry[3]) for x in i.open(e, o.alg)}
            if len(keks) != 1:
                raise Violation("the recipients of a recipient are given different keys")
            kek = keks.pop()
            if want in "1234" and all(s["kek"][i - 1] == "-" for i in s["rs"]):
                if kek in self.seen:
                    raise Violation("a generated key encryption key is not new")
                self.kek[want] = kek
                self.seen.add(kek)
            if kek != self.kek[want]:
                raise Violation("the content key is wrapped under another key than %s" % ("the given one" if want in "pq" else "the one the recipients hold"))
        self.count("messages")
        self.receivers(data, [o])
        return want

    def observe(self, t):
        got = list(self.outer.obj.recipients)
        want = [self.slots[i - 1].obj for i in t["rs"]]
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            raise Violation("the recipients of the recipient are not the %d assigned ones" % len(want))
