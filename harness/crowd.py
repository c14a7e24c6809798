"""Driver for specs/Crowd.tla."""
import cbor2

import cborx
import common
import keylen
import recips
import ref
import refmsg
import values as V
from common import Violation

TAG = {"Sign1": 18, "Sign": 98, "Mac0": 17, "Mac": 97, "Enc0": 16, "Enc": 96}


def place(r, n, at):
    return 0 if at == "first" else n - 1 if at == "last" else r.randrange(n)


def flip(r, b):
    b = bytearray(b)
    b[r.choice([0, len(b) - 1, r.randrange(len(b))])] ^= 1 << r.randrange(8)
    return bytes(b)


def case(c, e, r, counts):
    {"recipients": recipients, "signers": signers, "entries": entries, "size": size, "depth": depth, "certificates": certificates}[c["what"]](c, e, r, counts)
    counts[c["what"]] = counts.get(c["what"], 0) + 1


def judge(got, e, c):
    if got[0] != ("ok" if e else "bad"):
        raise Violation("a message is %s: %s" % ("refused" if e else "accepted", ", ".join("%s %s" % (k, v) for k, v in c.items() if k != "what")),
                        {"error": got[1] if len(got) > 1 else None})


# ------------------------------------------------------------------ recipients
def slots(r, n):
    out = []
    alike = r.random() < 0.3
    for i in range(n):
        if n <= 5 or i in (0, n - 1) and r.random() < 0.5:
            s = recips.Slot(r, "wrap", i)
        else:
            s = recips.Slot.__new__(recips.Slot)
            s.r, s.kind, s.inner, s.obj, s.static, s.extra, s.phdr = r, "wrap", [], None, None, {}, {}
            s.alg = r.choice([-3, -4, -5])
            s.rec = {"kty": 4, "k": r.randbytes(ref.KW[s.alg])}
        s.kid = None if alike else b"slot%d" % i
        out.append(s)
    return out


def recipients(c, e, r, counts):
    from pycose.messages import CoseMessage
    w = keylen.World(r.choice(recips.HOSTS), r)
    w.payload = r.randbytes(r.randrange(1, 60))
    sl = slots(r, c["n"])
    cek = r.randbytes(refmsg.key_len(w.host))
    if c["by"] == "library":
        msg = w.message([x.build() for x in sl])
        data = msg.encode()
        recips.examine(w, sl, data, None, [])
    else:
        data = refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, cek, [x.wire(cek, w.host) for x in sl])
    m = CoseMessage.decode(data)
    m.external_aad = w.ext
    if len(m.recipients) != c["n"]:
        raise Violation("a message with %d recipients is decoded with %d" % (c["n"], len(m.recipients)))
    i = place(r, c["n"], c["at"])
    x = sl[i]
    j = i
    if c["key"] == "own":
        x.set_key(m.recipients[i], x.own_key())
    elif c["key"] == "stranger":
        x.set_key(m.recipients[i], x.stranger())
    else:
        # the key of another recipient
        j = r.choice([k for k in {0, c["n"] - 1, (i + 1) % c["n"], i - 1, r.randrange(c["n"])} if k % c["n"] != i])
        if {str(o.rec.get("n") or o.rec.get("x") or o.rec.get("k")) for o in sl[i].owners()} & {str(o.rec.get("n") or o.rec.get("x") or o.rec.get("k")) for o in sl[j].owners()}:
            return                                           # the same person
        k = sl[j].own_key()
        x.set_key(m.recipients[i], k[0] if isinstance(k, list) else k)
    judge(recips.opened(m, m.recipients[i], w), e, c)


def depth(c, e, r, counts):
    from pycose.messages import CoseMessage, recipient as R
    w = keylen.World(r.choice(recips.HOSTS), r)
    w.payload = r.randbytes(r.randrange(1, 60))
    algs = [r.choice([-3, -4, -5]) for _ in range(c["n"])]
    key = {"kty": 4, "k": r.randbytes(ref.KW[algs[-1]])}
    cek = r.randbytes(refmsg.key_len(w.host))
    if c["by"] == "library":
        rc = None
        for a in reversed(algs):
            rc = R.KeyWrap(uhdr=V.spell_header(r, {1: a}), recipients=[rc] if rc else r.choice([None, []]))
            if len(rc.recipients) == 0:
                rc.key = V.pycose_key(r, key)
        data = w.message([rc]).encode()
        body = cbor2.loads(data).value
        at, entries = body[-1][0], []
        while at:
            entries.append(at)
            at = at[3][0] if len(at) > 3 else None
        if len(entries) != c["n"]:
            raise Violation("a recipient nested to depth %d is sent with depth %d" % (c["n"], len(entries)))
        k = key["k"]
        for x in reversed(entries):
            k = k and ref.kw_unwrap(k, x[2])
        if k is None or refmsg.open_body(body, w.tag, k, w.ext) not in ((w.payload,) if w.tag == 96 else (True,)):
            raise Violation("a message does not open through recipients nested to depth %d" % c["n"])
    else:
        ks = [key["k"]] + [r.randbytes(ref.KW[a]) for a in reversed(algs[:-1])] + [cek]
        at = None
        for n, a in enumerate(reversed(algs)):
            at = [b"", {1: a}, ref.kw_wrap(ks[n], ks[n + 1])] + ([[at]] if at else [])
        data = refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, cek, [at])
    if c["level"]:
        t = cbor2.loads(data)
        x = t.value[-1][0]
        for _ in range(c["level"] - 1):
            x = x[3][0]
        x[2] = flip(r, x[2])
        data = cborx.enc(cborx.Tag(t.tag, t.value))
    m = CoseMessage.decode(data)
    m.external_aad = w.ext
    rc = m.recipients[0]
    while rc.recipients:
        rc = rc.recipients[0]
    rc.key = V.pycose_key(r, key if c["key"] == "own" else {"kty": 4, "k": flip(r, key["k"])})
    judge(recips.opened(m, m.recipients[0], w), e, c)


# --------------------------------------------------------------------- signers
def signers(c, e, r, counts):
    from pycose.messages import CoseMessage, SignMessage
    from pycose.messages.signer import CoseSignature
    n = c["n"]
    i = place(r, n, c["at"])
    p, u = r.choice([{}, {3: 0}, {4: b"b"}]), {}
    payload = r.randbytes(r.randrange(1, 50))
    who = []
    for j in range(n):
        alg = r.choice([ref.EDDSA, -7, -35]) if n <= 5 else ref.EDDSA
        k = V.sign_keys(r, alg, 1)[0]
        if n > 5:
            k = ref.ed_key("Ed25519", r)
        sp = {1: alg, 4: b"%d" % j}
        who.append((alg, k, sp, r.choice([b"", b"aad%d" % j])))
    if c["by"] == "library":
        sg = [CoseSignature(phdr=V.spell_header(r, sp), key=V.pycose_key(r, k), external_aad=aad) for _, k, sp, aad in who]
        data = SignMessage(phdr=V.spell_header(r, p), payload=payload, signers=sg).encode()
        b = cbor2.loads(data).value
        if len(b[3]) != n:
            raise Violation("a message with %d signers is sent with %d signatures" % (n, len(b[3])))
        for x, (alg, k, sp, aad) in zip(b[3], who):
            if not V.same_map(cbor2.loads(x[0]), sp) or not ref.verify(alg, k, cborx.enc(["Signature", b[0], x[0], aad, payload]), x[2]):
                raise Violation("a signature of a message with %d signers is not valid" % n)
    else:
        pe = cborx.enc(p) if p else b""
        lst = [[cborx.enc(sp), {}, ref.sign(alg, k, cborx.enc(["Signature", pe, cborx.enc(sp), aad, payload]))] for alg, k, sp, aad in who]
        data = cborx.enc(cborx.Tag(98, [pe, u, payload, lst]))
    if c["alter"]:
        t = cbor2.loads(data)
        if r.random() < 0.5:
            t.value[3][i][2] = flip(r, t.value[3][i][2])
        else:
            t.value[2] = flip(r, t.value[2])
        data = cborx.enc(cborx.Tag(98, t.value))
    m = CoseMessage.decode(data)
    if len(m.signers) != n:
        raise Violation("a message with %d signers is decoded with %d" % (n, len(m.signers)))
    alg, k, sp, aad = who[i]
    if c["key"] == "stranger":
        k = ref.ed_key("Ed25519", r) if alg == ref.EDDSA else V.sign_keys(r, alg, 1)[0]
        if k["x"] == who[i][1]["x"]:
            return
    elif c["key"] == "neighbour":
        j = r.choice([x for x in {0, n - 1, (i + 1) % n, i - 1, r.randrange(n)} if x % n != i])
        k = who[j][1]
    m.signers[i].key = V.pycose_key(r, k, r.random() < 0.3)
    m.signers[i].external_aad = aad
    judge(verified(lambda: m.signers[i].verify_signature()), e, c)


def verified(f):
    try:
        with common.limit(60):
            return ("ok",) if f() is True else ("bad", "not True")
    except Exception as x:
        return ("bad", repr(x))


# --------------------------------------------------- messages of every type
class Msg:
    """a message of one of the six types, on both sides"""

    def __init__(self, type_, r, big):
        self.type, self.tag, self.r = type_, TAG[type_], r
        if type_ in ("Sign1", "Sign"):
            self.alg = r.choice([ref.EDDSA, -7])
            self.key = V.sign_keys(r, self.alg, 1)[0]
        elif type_ in ("Mac0", "Mac"):
            self.alg = r.choice([4, 5, 6, 7] + sorted(ref.AESMAC))
            self.key = {"kty": 4, "k": r.randbytes(refmsg.key_len(self.alg) if self.alg in ref.AESMAC else 32)}
        else:
            self.alg = r.choice([1, 2, 3] if big else sorted(ref.ENC_ALGS))
            self.key = {"kty": 4, "k": r.randbytes(refmsg.key_len(self.alg))}
        self.p, self.u, self.sp = {1: self.alg}, {}, {}
        if type_ == "Sign":
            self.p, self.sp = {}, {1: self.alg}
        if type_ in ("Enc0", "Enc"):
            self.u[5] = r.randbytes(ref.enc_nonce_len(self.alg))
        self.payload, self.aad, self.detached = b"payload", b"", False

    def tbs(self, pe, spe):
        return cborx.enc({"Sign1": ["Signature1", pe, self.aad, self.payload], "Sign": ["Signature", pe, spe, self.aad, self.payload],
                          "Mac0": ["MAC0", pe, self.aad, self.payload], "Mac": ["MAC", pe, self.aad, self.payload],
                          "Enc0": ["Encrypt0", pe, self.aad], "Enc": ["Encrypt", pe, self.aad]}[self.type])

    def reference(self):
        pe = cborx.enc(self.p) if self.p else b""
        t, pay = self.type, None if self.detached else self.payload
        if t == "Sign1":
            body = [pe, self.u, pay, ref.sign(self.alg, self.key, self.tbs(pe, b""))]
        elif t == "Sign":
            spe = cborx.enc(self.sp)
            body = [pe, self.u, pay, [[spe, {}, ref.sign(self.alg, self.key, self.tbs(pe, spe))]]]
        elif t in ("Mac0", "Mac"):
            body = [pe, self.u, pay, ref.mac(self.alg, self.key["k"], self.tbs(pe, b""))]
        else:
            body = [pe, self.u, ref.encrypt(self.alg, self.key["k"], self.u[5], self.payload, self.tbs(pe, b""))]
        if t in ("Mac", "Enc"):
            body.append([[b"", {1: -6}, b""]])
        return cborx.enc(cborx.Tag(self.tag, body))

    def library(self):
        from pycose import messages as G
        from pycose.messages import recipient as R
        from pycose.messages.signer import CoseSignature
        r, t = self.r, self.type
        cls = {"Sign1": G.Sign1Message, "Sign": G.SignMessage, "Mac0": G.Mac0Message, "Mac": G.MacMessage, "Enc0": G.Enc0Message, "Enc": G.EncMessage}[t]
        kw = {} if self.detached else {"payload": self.payload}
        det = {"detached_payload": self.payload} if self.detached else {}
        if t in ("Mac", "Enc"):
            kw["recipients"] = [R.DirectEncryption(uhdr={1: -6})]
        key = V.pycose_key(r, self.key)
        if t == "Sign":
            s = CoseSignature(phdr=V.spell_header(r, self.sp), key=key)
            kw["signers"] = [s]
        p, u = V.spell_header(r, self.p), V.spell_header(r, self.u)
        if r.random() < 0.5:
            m = cls(phdr=p, uhdr=u, **kw)
        else:
            m = cls(**kw)
            if r.random() < 0.5:
                m.phdr, m.uhdr = p, u
            else:
                m.phdr_update(p)
                m.uhdr_update(u)
        if t == "Sign":
            s.external_aad = self.aad
        else:
            m.key, m.external_aad = key, self.aad
        data = m.encode(**det)
        # what the standard says about it
        b = cbor2.loads(data)
        if b.tag != self.tag:
            raise Violation("a %s message has tag %d" % (t, b.tag))
        b = b.value
        if not V.same_map(cbor2.loads(b[0]) if b[0] else {}, self.p) or not V.same_map(b[1], self.u):
            raise Violation("the headers of a %s message are not sent as given" % t, {"sent": repr(b[:2])[:500]})
        if t not in ("Enc0", "Enc") and b[2] != (None if self.detached else self.payload):
            raise Violation("the payload of a %s message is not sent as given" % t)
        if t == "Sign1":
            good = ref.verify(self.alg, self.key, self.tbs(b[0], b""), b[3])
        elif t == "Sign":
            good = ref.verify(self.alg, self.key, self.tbs(b[0], b[3][0][0]), b[3][0][2])
        elif t in ("Mac0", "Mac"):
            good = ref.mac(self.alg, self.key["k"], self.tbs(b[0], b"")) == b[3]
        else:
            good = ref.decrypt(self.alg, self.key["k"], self.u[5], b[2], self.tbs(b[0], b"")) == self.payload
        if not good:
            raise Violation("a %s message is not protected as the standard says" % t, {"alg": V.ALG_NAMES[self.alg]})
        return data

    def open(self, data, aad, p, u, payload):
        """received by the library: headers p, u; protected contents payload"""
        from pycose.messages import CoseMessage
        r, t = self.r, self.type
        m = CoseMessage.decode(data)
        if type(m).__name__ != t + "Message":
            raise Violation("a %s message is decoded as %s" % (t, type(m).__name__))
        for have, want, b in ((m.phdr, p, "protected"), (m.uhdr, u, "unprotected")):
            got = V.unspell(have)
            if not V.same_map(got, want):
                raise Violation("the %s header of a %s message is decoded as another one" % (b, t), {"labels": len(got), "sent": len(want)})
        o = m.signers[0] if t == "Sign" else m
        o.key, o.external_aad = V.pycose_key(r, self.key, t not in ("Sign1", "Sign")), aad
        det = {"detached_payload": payload} if self.detached else {}
        if t in ("Sign1", "Sign"):
            return verified(lambda: o.verify_signature(**det))
        if t in ("Mac0", "Mac"):
            return verified(lambda: o.verify_tag())
        try:
            out = m.decrypt(m.recipients[0]) if t == "Enc" else m.decrypt()
        except Exception as x:
            return ("bad", repr(x))
        if out != self.payload:
            raise Violation("a %s message is decrypted to something else" % t)
        return ("ok",)


def some_label(r, i, long=None):
    if long is not None:
        return "".join(r.choice("abcxyz-_ 09") for _ in range(long))
    return r.choice([1000 + i, -70001 - i, "l%d" % i, 2 ** 40 + i])


def entries(c, e, r, counts):
    m = Msg(c["type"], r, False)
    h = {}
    for i in range(c["n"]):
        h[some_label(r, i)] = r.choice([i, b"v%d" % i, "t%d" % i, [i], None, True])
    base = m.p if c["in"] == "protected" else m.u
    if c["in"] == "protected" and r.random() < 0.5:
        base, m.p = {}, {**h, **m.p}
    base.update(h)
    if len(h) and c["in"] == "unprotected" and 1 in m.p and r.random() < 0.3:
        m.u[1] = m.p.pop(1)
    data = m.library() if c["by"] == "library" else m.reference()
    p, u = m.p, m.u
    if c["alter"]:
        t = cbor2.loads(data)
        b = t.value
        x = cbor2.loads(b[0]) if c["in"] == "protected" else b[1]
        k = r.choice([list(h)[0], list(h)[-1], r.choice(list(h))])
        if r.random() < 0.3:
            del x[k]
        else:
            x[k] = "other"
        if c["in"] == "protected":
            b[0], p = cborx.enc(x) if x else b"", x
        else:
            u = x
        data = cborx.enc(cborx.Tag(t.tag, b))
    judge(m.open(data, m.aad, p, u, m.payload), e, c)


def size(c, e, r, counts):
    m = Msg(c["type"], r, c["n"] > 60000 or c["of"] == "payload" and c["n"] > 30000)
    n, of = c["n"], c["of"]
    text = r.randbytes(n) if r.random() < 0.8 else bytes(n)
    if of in ("payload", "detached"):
        m.payload, m.detached = text, of == "detached"
    elif of == "aad":
        m.aad = text
    elif of.endswith("value"):
        lab = r.choice([4, 1000, "x"])
        (m.p if of.startswith("p") else m.u)[lab] = text if lab == 4 or r.random() < 0.6 else "t" * n
    else:
        lab = some_label(r, 0, n)
        (m.p if of.startswith("p") else m.u)[lab] = r.choice([1, b"v"])
    data = m.library() if c["by"] == "library" else m.reference()
    p, u, aad, payload = m.p, m.u, m.aad, m.payload
    if c["alter"]:
        t = cbor2.loads(data)
        b = t.value
        if of == "aad":
            aad = flip(r, aad)
        elif of == "detached":
            payload = flip(r, payload)
        elif of == "payload":
            b[2] = flip(r, b[2])
        else:
            q = of.startswith("p")
            x = cbor2.loads(b[0]) if q else b[1]
            if of.endswith("value"):
                x[lab] = flip(r, x[lab]) if isinstance(x[lab], bytes) else x[lab][:-1] + "u"
            else:
                j = r.choice([0, n - 1, r.randrange(n)])
                x[lab[:j] + "Q" + lab[j + 1:]] = x.pop(lab)
            if q:
                b[0], p = cborx.enc(x), x
            else:
                u = x
        data = cborx.enc(cborx.Tag(t.tag, b))
    judge(m.open(data, aad, p, u, payload), e, c)


def certificates(c, e, r, counts):
    from pycose import headers
    from pycose.extensions.x509 import X5Bag, X5Chain
    m = Msg(c["type"], r, False)
    certs = [r.randbytes(r.choice([1, 20, 40, 300])) for _ in range(c["n"])]
    given = list(certs)
    cls, lab, attr = (X5Bag, 32, headers.X5bag) if c["made"] == "bag" else (X5Chain, 33, headers.X5chain)
    x = cls(given)
    want = certs if len(certs) > 1 else certs[0]
    if x.encode() != want or given != certs:
        raise Violation("%d certificates are encoded as others" % len(certs))
    (m.p if c["in"] == "protected" else m.u)[lab] = want
    for data in (m.library(), m.reference()):
        judge(m.open(data, m.aad, m.p, m.u, m.payload), True, c)
        from pycose.messages import CoseMessage
        got = CoseMessage.decode(data)
        y = cls((got.phdr if c["in"] == "protected" else got.uhdr)[attr])
        if y.encode() != want:
            raise Violation("%d certificates are received as others" % len(certs))


def replay_case(rep):
    import table
    return table.replay(rep, case)
