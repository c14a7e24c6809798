"""Driver for specs/KeyLen.tla."""
import array

import cbor2

import cborx
import policy
import ref
import refmsg
import values as V
from common import Violation


def value(r, typ, n):
    b = r.randbytes(n)
    return {"bytes": b, "text": "k" * n, "list": list(b), "number": int.from_bytes(b, "big"), "array": bytearray(b), "nil": None,
            "bool": bool(n % 2)}[typ]


def others(r, what):
    """other parameters of the key, by label"""
    alg = r.choice(sorted(ref.ENC_ALGS) + sorted(ref.AESMAC) + sorted(ref.HMACS) + sorted(ref.KW) + [-6, -10, -11])
    one = {"algorithm": {3: alg}, "operations": {4: r.choice([[], [3], [4], [3, 4], [9, 10], [5, 6], list(range(3, 11))])}, "identifier": {2: r.randbytes(r.choice([0, 3, 48]))},
           "nonce": {5: r.randbytes(r.choice([0, 7, 8, 12, 13]))}, "other": {r.choice([-70001, "x"]): r.choice([1, b"v"])}}
    if what == "everything":
        return {k: v for d in one.values() for k, v in d.items() if k != "x"}
    return one.get(what, {})


def obj(c, e, r, counts):
    from pycose.headers import EphemeralKey
    from pycose.keys import CoseKey, SymmetricKey
    from pycose.keys.keyparam import KpKty, SymKpK
    from pycose.messages import Enc0Message
    how, v = c["how"], value(r, c["type"], c["n"])
    old = r.randbytes(r.choice([16, 24, 32]))
    key = None
    kty = r.choice([KpKty, 1, "KTY"])
    ktyv = r.choice([4, "SYMMETRIC"])
    extra = others(r, c["with"])
    if how in ("attribute", "item by class", "item by label", "item by name", "update"):
        key = SymmetricKey(old, optional_params=dict(extra))
        before = dict(key.items())
    try:
        if how == "constructor":
            key = SymmetricKey(v, optional_params=dict(extra)) if extra or r.random() < 0.5 else SymmetricKey(k=v)
        elif how.startswith("dict"):
            name = {"dict by class": SymKpK, "dict by label": -1, "dict by name": "K"}[how]
            key = (CoseKey if r.random() < 0.7 else SymmetricKey).from_dict({kty: ktyv, name: v, **extra})
        elif how.startswith("CBOR"):
            if c["type"] == "array":
                v = bytes(v)
            m = cbor2.dumps({1: 4, -1: v, **extra})
            if r.random() < 0.3:
                m = cbor2.dumps({"K": v, **extra, "KTY": "SYMMETRIC"})
            key = CoseKey.decode(m) if how == "CBOR" else SymmetricKey.decode(m)
            if c["type"] == "array":
                e = c["n"] if c["n"] in (16, 24, 32) else 0
        elif how == "header":
            m = Enc0Message(phdr={}, uhdr={V.spell_label(r, -1): {1: 4, -1: v}})
            key = m.uhdr[EphemeralKey]
        elif how == "attribute":
            key.k = v
        elif how == "update":
            key.update({r.choice([SymKpK, -1, "K"]): v})
        else:
            key[{"item by class": SymKpK, "item by label": -1, "item by name": "K"}[how]] = v
    except Exception as x:
        if e:
            raise Violation("a symmetric key of %d bytes is refused (%s): %r" % (c["n"], how, x))
        if key is not None and (key.k != old or dict(key.items()) != before):
            raise Violation("a refused key value (%s) changed the key" % how)
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if not e:
        raise Violation("a symmetric key takes a value of type %s and length %d (%s)" % (c["type"], c["n"], how), {"key": repr(key)})
    if key.k != v or len(cbor2.loads(key.encode())[-1]) != c["n"] or key[-1] != v:
        raise Violation("a symmetric key does not hold the value it was given (%s)" % how)
    counts["accepted"] = counts.get("accepted", 0) + 1


def gen(c, e, r, counts):
    from pycose.keys import SymmetricKey
    try:
        key = SymmetricKey.generate_key(c["n"], optional_params=r.choice([None, {}, others(r, r.choice(["algorithm", "operations", "nonce", "everything"]))]))
    except Exception as x:
        if e:
            raise Violation("no symmetric key of %d bytes can be generated: %r" % (c["n"], x))
        return
    if not e or type(key.k) is not bytes or len(key.k) != e:
        raise Violation("a symmetric key generated with length %d has %d bytes" % (c["n"], len(key.k)))
    if key.k == SymmetricKey.generate_key(c["n"]).k:
        raise Violation("generated symmetric keys repeat")
    counts["generated"] = counts.get("generated", 0) + 1


def use(c, e, r, counts):
    case = {"op": c["op"], "loc": "u" if c["alg"] in ref.KW else r.choice("pu"), "alg": c["alg"], "kind": "S%d" % c["n"], "priv": True,
            "kalg": 0, "ops": []}
    policy.case(case, [] if e else ["key length"], r, counts)


class World:
    """a message for recipients, and keys for them"""

    def __init__(self, host, r):
        self.r, self.host = r, host
        self.tag = 96 if host in ref.ENC_ALGS else 97
        self.ext = r.choice([b"", b"ext"])
        self.payload = b"some plaintext"
        self.p, self.u = {1: host}, {4: b"m"}
        if self.tag == 96:
            self.u[5] = r.randbytes(ref.enc_nonce_len(host))
        if r.random() < 0.3:
            self.p, self.u = {}, {**self.p, **self.u}

    def message(self, recipients):
        from pycose.messages import EncMessage, MacMessage
        return (EncMessage if self.tag == 96 else MacMessage)(phdr=V.spell_header(self.r, self.p), uhdr=V.spell_header(self.r, self.u),
                                                              payload=self.payload, external_aad=self.ext, recipients=recipients)

    def receive(self, data, find, key):
        from pycose.messages import CoseMessage
        m = CoseMessage.decode(data)
        m.external_aad = self.ext
        rc = find(m)
        rc.key = key
        if self.tag == 96:
            return m.decrypt(rc) == self.payload
        return m.verify_tag(rc) is True


def keys_for(alg, r):
    """(receiver's key, sender's static key or None)"""
    if alg in ref.KW:
        return {"kty": 4, "k": r.randbytes(ref.KW[alg])}, None
    if alg in ref.OAEP:
        return r.choice([k for k in ref.rsa_pool() if len(k["n"]) * 8 in (2048, 3072)]), None
    curve = r.choice(["P-256", "P-384", "P-521"])
    return ref.ec_key(curve, r), ref.ec_key(curve, r)


def recipient(alg, r, rec, static, payload=b"", nested=None):
    """library recipient for sending"""
    from pycose.messages import recipient as R
    u = {1: alg, 4: b"r"}
    if alg in ref.ECDH and not ref.ECDH[alg][1]:
        u[-2] = refmsg.public(static)
    cls = R.KeyWrap if alg in ref.KW or alg in ref.OAEP else R.KeyAgreementWithKeyWrap if ref.ECDH[alg][2] else R.DirectKeyAgreement
    rc = cls(phdr={}, uhdr=V.spell_header(r, u), payload=payload)
    if nested is not None:
        rc.recipients = [nested]
    elif alg in ref.ECDH:
        rc.local_attrs = {V.hdr_class(-2): V.pycose_key(r, rec, False)}
        if not ref.ECDH[alg][1]:
            rc.key = V.pycose_key(r, static)
    else:
        rc.key = V.pycose_key(r, rec, alg in ref.KW)
    return rc


def wrap(kek, cek):
    """AES key wrap knows no keys of less than 16 bytes"""
    return ref.kw_wrap(kek, cek) if len(cek) >= 16 else kek[:len(cek) + 8]


def structure(alg, r, rec, static, cek, target):
    """recipient on the wire; the content key for direct agreement is derived"""
    u = {1: alg, 4: b"r"}
    ct = b""
    if alg in ref.ECDH:
        eph = static
        u[-1 if ref.ECDH[alg][1] else -2] = refmsg.public(eph)
        k = refmsg.agree(alg, ref.ecdh(eph, rec), target, b"", u)
        if ref.ECDH[alg][2]:
            ct = wrap(k, cek)
    elif alg in ref.KW:
        ct = wrap(rec["k"], cek)
    else:
        ct = rec["sk"].public_key().encrypt(cek, ref.oaep(alg))
    return [b"", u, ct]


def cek(c, e, r, counts):
    w = World(c["host"], r)
    vias = [c["via"]] + ([r.choice([-3, -4, -5, -40, -29, -34])] if c["m"] == 2 else [])
    ks = [keys_for(v, r) for v in vias]
    n = c["n"]
    if c["src"] == "received":
        k = r.randbytes(n)
        data = refmsg_protect(w, k, [structure(vias[0], r, ks[0][0], ks[0][1], k, c["host"])])
        check_received(w, data, lambda m: m.recipients[0], ks[0][0], e, counts, "a content key of %d bytes for algorithm %d (recipient %d)" % (n, c["host"], c["via"]))
        return
    given = r.randbytes(n) if c["src"] == "given" else b""
    msg = w.message([recipient(v, r, a, b, given if i == 0 else b"") for i, (v, (a, b)) in enumerate(zip(vias, ks))])
    try:
        body = cbor2.loads(msg.encode()).value
    except Exception as x:
        if e:
            raise Violation("algorithm %d with recipients %s (content key %s) is refused when sending: %r" % (c["host"], vias, c["src"], x))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if not e:
        raise Violation("a message with algorithm %d is sent with a content key of %d bytes" % (c["host"], n))
    for i, (v, (a, b)) in enumerate(zip(vias, ks)):
        k = refmsg.open_recipient(body[-1][i], c["host"], a, b)
        if k is None or len(k) != e:
            raise Violation("recipient %d of a message with algorithm %d gets a content key of %s bytes" % (v, c["host"], k and len(k)))
        if given and k != given:
            raise Violation("the given content key was not used")
        if not refmsg.open_body(body, w.tag, k, w.ext):
            raise Violation("the message is not protected under the content key of its recipient %d" % v)
    counts["accepted"] = counts.get("accepted", 0) + 1


def refmsg_protect(w, k, recipients):
    try:
        return refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, k, recipients)
    except Exception:
        # not a key any AES takes
        body = cbor2.loads(refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, bytes(refmsg.key_len(w.host)), recipients))
        return cborx.enc(cborx.Tag(w.tag, body.value))


def check_received(w, data, find, rec, e, counts, what):
    try:
        ok = w.receive(data, find, V.pycose_key(w.r, rec))
    except Exception as x:
        if e:
            raise Violation("%s is refused: %r" % (what, x))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if not ok and e:
        raise Violation("%s does not open the message" % what)
    if ok and not e:
        raise Violation("%s is accepted" % what)
    counts["accepted"] = counts.get("accepted", 0) + 1


def kek(c, e, r, counts):
    w = World(c["host"], r)
    via, inner, n = c["via"], c["inner"], c["n"]
    a, b = keys_for(inner, r)
    if c["src"] == "received":
        k, ck = r.randbytes(n), r.randbytes(refmsg.key_len(c["host"]))
        try:
            ct = ref.kw_wrap(k, ck)
        except Exception:
            ct = ref.kw_wrap(bytes(16), ck)
        data = refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, ck,
                              [[b"", {1: via}, ct, [structure(inner, r, a, b, k, via)]]])
        nested_received(w, data, a, e, counts, "a key encryption key of %d bytes for algorithm %d" % (n, via))
        return
    given = r.randbytes(n) if c["src"] == "given" else b""
    msg = w.message([recipient(via, r, None, None, nested=recipient(inner, r, a, b, given))])
    try:
        body = cbor2.loads(msg.encode()).value
    except Exception as x:
        if e:
            raise Violation("key wrap %d with recipient %d (key %s) is refused when sending: %r" % (via, inner, c["src"], x))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if not e:
        raise Violation("key wrap %d is sent with a key encryption key of %d bytes" % (via, n))
    outer = body[-1][0]
    k = refmsg.open_recipient(outer[3][0], via, a, b)
    if k is None or len(k) != e:
        raise Violation("the recipient %d of a key wrap recipient %d gets a key of %s bytes" % (inner, via, k and len(k)))
    if given and k != given:
        raise Violation("the given key encryption key was not used")
    ck = ref.kw_unwrap(k, outer[2])
    if not refmsg.open_body(body, w.tag, ck, w.ext):
        raise Violation("the message is not protected under the content key wrapped for its recipient")
    counts["accepted"] = counts.get("accepted", 0) + 1


def nested_received(w, data, rec, e, counts, what):
    from pycose.messages import CoseMessage
    try:
        m = CoseMessage.decode(data)
        m.external_aad = w.ext
        m.recipients[0].recipients[0].key = V.pycose_key(w.r, rec)
        ok = m.decrypt(m.recipients[0]) == w.payload if w.tag == 96 else m.verify_tag(m.recipients[0]) is True
    except Exception as x:
        if e:
            raise Violation("%s is refused: %r" % (what, x))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if ok != bool(e):
        raise Violation("%s is %s" % (what, "accepted" if ok else "not accepted"))
    counts["accepted"] = counts.get("accepted", 0) + 1


def case(c, e, r, counts):
    {"obj": obj, "gen": gen, "use": use, "cek": cek, "kek": kek}[c["t"]](c, e, r, counts)


def replay_case(rep):
    import table
    return table.replay(rep, case)
