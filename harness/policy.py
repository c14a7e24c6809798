"""Driver for specs/Policy.tla: every case is one operation of the library with one key."""
import cbor2
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, padding, utils as autils, x25519, x448
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
from cryptography.hazmat.primitives.keywrap import aes_key_wrap

import cborx
import ref
import values as V
from common import Violation

SUPPORTED = {4: {3, 4, 5, 6, 9, 10}, 2: {1, 2, 7, 8}, 1: {1, 2, 7, 8}, 3: {1, 2, 3, 4, 5, 6}}
OPS = {1: "SignOp", 2: "VerifyOp", 3: "EncryptOp", 4: "DecryptOp", 5: "WrapOp", 6: "UnwrapOp", 7: "DeriveKeyOp", 8: "DeriveBitsOp",
       9: "MacCreateOp", 10: "MacVerifyOp"}
OPNAMES = {1: "SIGN", 2: "VERIFY", 3: "ENCRYPT", 4: "DECRYPT", 5: "WRAP", 6: "UNWRAP", 7: "DERIVE_KEY", 8: "DERIVE_BITS", 9: "MAC_CREATE",
           10: "MAC_VERIFY"}


def material(kind, r):
    if kind in ref.CURVES:
        return ref.ec_key(kind, r)
    if kind in ref.ED:
        return ref.ed_key(kind, r)
    if kind in ("X25519", "X448"):
        cls, n, crv = (x25519.X25519PrivateKey, 32, 4) if kind == "X25519" else (x448.X448PrivateKey, 56, 5)
        d = r.randbytes(n)
        x = cls.from_private_bytes(d).public_key().public_bytes(serialization.Encoding.Raw, serialization.PublicFormat.Raw)
        return {"kty": 1, "curve": kind, "crv": crv, "d": d, "x": x}
    if kind == "RSA":
        return r.choice([k for k in ref.rsa_pool() if 1500 < len(k["n"]) * 8 <= 2048])
    return {"kty": 4, "k": r.randbytes(int(kind[1:]))}


def spell_op(r, o):
    from pycose.keys import keyops
    return r.choice([getattr(keyops, OPS[o]), o, OPNAMES[o]])


def build(r, rec, priv, kalg, ops):
    """a key of the library with the given policy, which got there in one of many ways"""
    from pycose.keys.keyparam import KpAlg, KpKeyOps
    ops = list(ops)
    r.shuffle(ops)
    oplist = [spell_op(r, o) for o in ops]
    alg = V.spell_alg(r, kalg) if kalg else None
    route = r.randrange(4) if set(ops) <= SUPPORTED[rec["kty"]] else 0
    if route == 0:
        return V.pycose_key(r, rec, priv, None if alg is None else spell_raw(r, kalg), [o if isinstance(o, (int, str)) else o.identifier for o in oplist]
                            if ops or r.random() < 0.3 else None)
    first = V.pycose_key(r, rec, priv)
    if route == 3:
        # another policy first
        first.alg = V.spell_alg(r, r.choice(sorted(V.ALG_NAMES)))
        first.key_ops = r.sample(sorted(SUPPORTED[rec["kty"]]), r.randrange(1, 4))
        if alg is None:
            del first[r.choice([KpAlg, 3, "ALG"])]
        if not ops:
            if r.random() < 0.5:
                del first[r.choice([KpKeyOps, 4, "KEY_OPS"])]
            else:
                first.key_ops = []
    if alg is not None:
        if route == 2 or r.random() < 0.5:
            first[r.choice([KpAlg, 3, "ALG"])] = alg
        else:
            first.alg = alg
    if ops:
        if route == 2 or r.random() < 0.5:
            first[r.choice([KpKeyOps, 4, "KEY_OPS"])] = oplist
        else:
            first.key_ops = oplist
    return first


def spell_raw(r, ident):
    return r.choice([ident, V.ALG_NAMES[ident]])


# ---------------------------------------------- what a careless implementation would accept
def forge_signature(alg, k, data):
    if k["kty"] == 2:
        size = ref.CURVES[k["curve"]][1]
        h = ref.ECDSA[alg][1]() if alg in ref.ECDSA else hashes.SHA256()
        a, b = autils.decode_dss_signature(k["sk"].sign(data, ec.ECDSA(h)))
        return a.to_bytes(size, "big") + b.to_bytes(size, "big")
    if k["kty"] == 1 and "sk" in k:
        return k["sk"].sign(data)
    if k["kty"] == 3:
        return ref.sign(alg if alg in ref.PSS or alg in ref.PKCS1 else -257, k, data)
    return bytes(64)


def forge_mac(alg, k, data):
    if k["kty"] != 4:
        return bytes(32)
    if alg in ref.AESMAC:
        data += bytes(-len(data) % 16)
        e = Cipher(algorithms.AES(k["k"]), modes.CBC(bytes(16))).encryptor()
        return e.update(data)[-16:][:ref.AESMAC[alg][1]]
    return ref.mac(alg if alg in ref.HMACS else 5, k["k"], data)


def forge_encryption(alg, k, nonce, data, aad):
    if k["kty"] != 4:
        return bytes(len(data) + 16)
    c = AESCCM(k["k"], tag_length=ref.CCM[alg][1]) if alg in ref.CCM else AESGCM(k["k"])
    return c.encrypt(nonce, data, aad)


def forge_wrap(alg, k, cek):
    if k["kty"] == 3:
        h = ref.OAEP.get(alg, hashes.SHA1)
        return k["sk"].public_key().encrypt(cek, padding.OAEP(mgf=padding.MGF1(h()), algorithm=h(), label=None))
    if k["kty"] == 4:
        return aes_key_wrap(k["k"], cek)
    return bytes(40)


class Scene:
    """one operation, on one message object; attach(key) gives it the key"""

    def __init__(self, c, r, rec, good):
        self.c, self.r, self.rec, self.good = c, r, rec, good
        self.alg, self.loc = c["alg"], c["loc"]
        self.ext = r.choice([b"", b"ext aad"])
        self.payload = r.choice([b"payload", b"x" * 100, b"\0"])
        self.nonce = r.randbytes(ref.enc_nonce_len(self.alg) if self.alg in ref.ENC_ALGS else 12)
        self.msg = None

    # the layer's header maps
    def hdr(self, p=None, u=None):
        p, u = dict(p or {}), dict(u or {})
        if self.loc == "p":
            p[1] = self.alg
        elif self.loc == "u":
            u[1] = self.alg
        return p, u

    @staticmethod
    def enc_p(p):
        return cborx.enc(p) if p else b""

    def spell(self, h):
        return V.spell_header(self.r, h)


class Sign1(Scene):
    def setup(self):
        from pycose.messages import Sign1Message
        p, u = self.hdr(u={4: b"k"})
        if self.c["op"] == "sign1":
            self.msg = Sign1Message(phdr=self.spell(p), uhdr=self.spell(u), payload=self.payload, external_aad=self.ext)
        else:
            pe = self.enc_p(p)
            tbs = cborx.enc(["Signature1", pe, self.ext, self.payload])
            sig = forge_signature(self.alg, self.rec, tbs)
            self.msg = Sign1Message.decode(cborx.enc(cborx.Tag(18, [pe, u, self.payload, sig])))
            self.msg.external_aad = self.ext

    def attach(self, key, rec):
        self.msg.key = key

    def run(self):
        if self.c["op"] == "verify1":
            return self.msg.verify_signature()
        if self.r.random() < 0.5:
            return cbor2.loads(self.msg.encode()).value[3]
        return self.msg.compute_signature()

    def check(self, out, rec):
        if self.c["op"] == "verify1":
            return out is True
        return ref.verify(self.alg, rec, cborx.enc(["Signature1", self.msg.phdr_encoded, self.ext, self.payload]), out)


class SignS(Scene):
    def setup(self):
        from pycose.messages import SignMessage
        from pycose.messages.signer import CoseSignature
        p, u = self.hdr(u={4: b"k"})
        if self.c["op"] == "signS":
            self.s = CoseSignature(phdr=self.spell(p), uhdr=self.spell(u), external_aad=self.ext)
            self.msg = SignMessage(phdr={}, uhdr={}, payload=self.payload, signers=[self.s])
        else:
            pe = self.enc_p(p)
            tbs = cborx.enc(["Signature", b"", pe, self.ext, self.payload])
            sig = forge_signature(self.alg, self.rec, tbs)
            self.msg = SignMessage.decode(cborx.enc(cborx.Tag(98, [b"", {}, self.payload, [[pe, u, sig]]])))
            self.s = self.msg.signers[0]
            self.s.external_aad = self.ext

    def attach(self, key, rec):
        self.s.key = key

    def run(self):
        if self.c["op"] == "verifyS":
            return self.s.verify_signature()
        if self.r.random() < 0.5:
            return cbor2.loads(self.msg.encode()).value[3][0][2]
        return self.s.compute_signature()

    def check(self, out, rec):
        if self.c["op"] == "verifyS":
            return out is True
        return ref.verify(self.alg, rec, cborx.enc(["Signature", b"", self.s.phdr_encoded, self.ext, self.payload]), out)


class Mac(Scene):
    def setup(self):
        from pycose.messages import Mac0Message, MacMessage
        from pycose.messages.recipient import DirectEncryption
        self.multi = self.c["op"] in ("macC", "macV")
        self.create = self.c["op"] in ("mac0C", "macC")
        self.ctx = "MAC" if self.multi else "MAC0"
        p, u = self.hdr(u={4: b"k"})
        if self.create:
            kw = dict(phdr=self.spell(p), uhdr=self.spell(u), payload=self.payload, external_aad=self.ext)
            if self.multi:
                kw["recipients"] = [DirectEncryption(uhdr=self.spell({1: -6, 4: b"r"}))]
            self.msg = (MacMessage if self.multi else Mac0Message)(**kw)
        else:
            pe = self.enc_p(p)
            tag = forge_mac(self.alg, self.rec, cborx.enc([self.ctx, pe, self.ext, self.payload]))
            body = [pe, u, self.payload, tag] + ([[[b"", {1: -6, 4: b"r"}, b""]]] if self.multi else [])
            self.msg = (MacMessage if self.multi else Mac0Message).decode(cborx.enc(cborx.Tag(97 if self.multi else 17, body)))
            self.msg.external_aad = self.ext

    def attach(self, key, rec):
        self.msg.key = key

    def run(self):
        if not self.create:
            return self.msg.verify_tag(*([self.msg.recipients[0]] if self.multi and self.r.random() < 0.5 else []))
        if self.r.random() < 0.5:
            return cbor2.loads(self.msg.encode()).value[3]
        return self.msg.compute_tag()

    def check(self, out, rec):
        if not self.create:
            return out is True
        return out == ref.mac(self.alg, rec["k"], cborx.enc([self.ctx, self.msg.phdr_encoded, self.ext, self.payload]))


class Enc(Scene):
    def setup(self):
        from pycose.messages import Enc0Message, EncMessage
        from pycose.messages.recipient import DirectEncryption
        self.multi = self.c["op"] in ("encE", "encD")
        self.create = self.c["op"] in ("enc0E", "encE")
        self.ctx = "Encrypt" if self.multi else "Encrypt0"
        p, u = self.hdr(u={5: self.nonce})
        if self.create:
            kw = dict(phdr=self.spell(p), uhdr=self.spell(u), payload=self.payload, external_aad=self.ext)
            if self.multi:
                kw["recipients"] = [DirectEncryption(uhdr=self.spell({1: -6, 4: b"r"}))]
            self.msg = (EncMessage if self.multi else Enc0Message)(**kw)
        else:
            pe = self.enc_p(p)
            ct = forge_encryption(self.alg, self.rec, self.nonce, self.payload, cborx.enc([self.ctx, pe, self.ext]))
            body = [pe, u, ct] + ([[[b"", {1: -6, 4: b"r"}, b""]]] if self.multi else [])
            self.msg = (EncMessage if self.multi else Enc0Message).decode(cborx.enc(cborx.Tag(96 if self.multi else 16, body)))
            self.msg.external_aad = self.ext

    def attach(self, key, rec):
        self.msg.key = key

    def run(self):
        if not self.create:
            return self.msg.decrypt(*([self.msg.recipients[0]] if self.multi else []))
        if self.r.random() < 0.5:
            return cbor2.loads(self.msg.encode()).value[2]
        return self.msg.encrypt()

    def check(self, out, rec):
        if not self.create:
            return out == self.payload
        return out == ref.encrypt(self.alg, rec["k"], self.nonce, self.payload, cborx.enc([self.ctx, self.msg.phdr_encoded, self.ext]))


class Rec(Scene):
    """a COSE_Encrypt or COSE_Mac message with one recipient"""
    HOSTS = {"enc": (1, 16), "enc3": (3, 32), "mac": (5, 32)}

    def host(self):
        self.h = self.r.choice(sorted(self.HOSTS))
        self.halg, self.clen = self.HOSTS[self.h]
        self.iv = self.r.randbytes(12)

    def host_headers(self):
        return {1: self.halg}, ({5: self.iv} if self.h != "mac" else {4: b""})

    def message(self, recipient):
        from pycose.messages import EncMessage, MacMessage
        p, u = self.host_headers()
        return (MacMessage if self.h == "mac" else EncMessage)(phdr=self.spell(p), uhdr=self.spell(u), payload=self.payload,
                                                              external_aad=self.ext, recipients=[recipient])

    def open(self, body, cek):
        """is the body protected under this content key"""
        if self.h == "mac":
            return cek is not None and len(cek) == 32 and body[3] == ref.mac(5, cek, cborx.enc(["MAC", body[0], self.ext, self.payload]))
        return cek is not None and len(cek) == self.clen and \
            ref.decrypt(self.halg, cek, self.iv, body[2], cborx.enc(["Encrypt", body[0], self.ext])) == self.payload

    def wire(self, cek, recipient):
        from pycose.messages import CoseMessage
        p, u = self.host_headers()
        pe = cborx.enc(p)
        if self.h == "mac":
            data = cborx.Tag(97, [pe, u, self.payload, ref.mac(5, cek, cborx.enc(["MAC", pe, self.ext, self.payload])), [recipient]])
        else:
            data = cborx.Tag(96, [pe, u, ref.encrypt(self.halg, cek, self.iv, self.payload, cborx.enc(["Encrypt", pe, self.ext])), [recipient]])
        self.msg = CoseMessage.decode(cborx.enc(data))
        self.msg.external_aad = self.ext
        self.rcpt = self.msg.recipients[0]

    def receive(self):
        if self.h == "mac":
            return self.msg.verify_tag(self.rcpt)
        return self.msg.decrypt(self.rcpt)

    def received(self, out):
        return out is True if self.h == "mac" else out == self.payload


class Wrap(Rec):
    def setup(self):
        from pycose.messages.recipient import KeyWrap
        self.host()
        self.send = self.c["op"] in ("kwW", "oaepW")
        p, u = self.hdr(u={4: b"r"})
        if self.send:
            self.rcpt = KeyWrap(phdr=self.spell(p), uhdr=self.spell(u))
            self.msg = self.message(self.rcpt)
        else:
            cek = self.r.randbytes(self.clen)
            self.wire(cek, [self.enc_p(p), u, forge_wrap(self.alg, self.rec, cek)])

    def attach(self, key, rec):
        self.rcpt.key = key

    def run(self):
        return cbor2.loads(self.msg.encode()).value if self.send else self.receive()

    def check(self, out, rec):
        if not self.send:
            return self.received(out)
        ct = out[-1][0][2]
        if self.alg in ref.KW:
            cek = ref.kw_unwrap(rec["k"], ct)
        else:
            cek = rec["sk"].decrypt(ct, ref.oaep(self.alg))
        return self.open(out, cek)


class Agree(Rec):
    def setup(self):
        from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap
        r, rec = self.r, self.rec
        self.host()
        op = self.c["op"]
        self.send, self.local = op[3] == "S", op[4] == "L"
        self.kw = op[:3] == "kaw"
        self.es = self.alg not in ref.ECDH or ref.ECDH[self.alg][1]
        self.lab = -1 if self.es else -2
        curve = rec["curve"] if rec.get("curve") in ref.CURVES else "P-256"
        self.other = ref.ec_key(curve, r)
        p, u = self.hdr(u={4: b"r"})
        if self.send:
            cls = KeyAgreementWithKeyWrap if self.kw else DirectKeyAgreement
            self.rcpt = cls(phdr=self.spell(p), uhdr=self.spell(u))
            self.msg = self.message(self.rcpt)
            if self.local:
                self.rcpt.local_attrs = {V.hdr_class(-2): V.pycose_key(r, self.other, r.random() < 0.2)}
            elif not self.es or r.random() < 0.5:
                self.give(V.pycose_key(r, self.other), self.other)
            return
        self.pe = self.enc_p(p)
        # the public key of the sender: the key under test, or another one
        if self.local:
            u[self.lab] = self.public(self.other)
        elif self.c["kind"] != "-":
            u[self.lab] = self.mapped(self.rec, self.c)
        if curve == rec.get("curve"):
            cek = self.derive(rec, self.other)
        else:
            cek = r.randbytes(self.clen)
        ct = b""
        if self.kw:
            kek, cek = cek, r.randbytes(self.clen)
            ct = ref.kw_wrap(kek[:16] if self.alg not in ref.ECDH else kek, cek)
        if len(cek) != self.clen:
            cek = r.randbytes(self.clen)
        self.wire(cek, [self.pe, u, ct])
        if not self.local:
            self.rcpt.key = V.pycose_key(r, self.other)

    def public(self, rec):
        return {1: 2, -1: rec["crv"], -2: rec["x"], -3: rec["y"]}

    def mapped(self, rec, c):
        """the key under test as a map in a header"""
        key = build(self.r, rec, c["priv"], c["kalg"], c["ops"])
        return cbor2.loads(key.encode())

    def derive(self, a, b):
        alg = self.alg if self.alg in ref.ECDH else -25
        h, _, kw = ref.ECDH[alg]
        target, bits = (kw, ref.KW[kw] * 8) if kw else (self.halg, self.clen * 8)
        info = ref.kdf_context(target, [None] * 3, [None] * 3, bits, self.pe)
        return ref.hkdf(h, ref.ecdh(a, b), b"", info, bits // 8)

    def give(self, key, rec):
        """the sender's own key"""
        self.rcpt.key = key
        if self.es:
            self.rcpt.uhdr_update({self.lab: self.public(rec if rec.get("curve") in ref.CURVES else self.other)})

    def attach(self, key, rec):
        if self.send:
            if self.local:
                if key is not None:
                    self.give(key, rec)
            elif key is not None:
                self.rcpt.local_attrs = {V.hdr_class(-2): key}
        elif self.local:
            self.rcpt.key = key
        elif key is not None:
            self.rcpt.uhdr_update({V.spell_label(self.r, self.lab): cbor2.loads(key.encode())})

    def run(self):
        return cbor2.loads(self.msg.encode()).value if self.send else self.receive()

    def check(self, out, rec):
        if not self.send:
            return self.received(out)
        rc = out[-1][0]
        self.pe = rc[0]
        if self.local:
            if rec is None:
                eph = rc[1][-1]
                rec = {"curve": ref.CURVE_BY_ID[eph[-1]], "x": eph[-2], "y": eph[-3]}
            pair = (self.other, rec)
        elif self.es:
            eph = rc[1][-1]
            pair = (rec, {"curve": ref.CURVE_BY_ID[eph[-1]], "x": eph[-2], "y": eph[-3]})
        else:
            pair = (rec, self.other)
        k = self.derive(*pair)
        return self.open(out, ref.kw_unwrap(k, rc[2]) if self.kw else k)


SCENES = {"sign1": Sign1, "verify1": Sign1, "signS": SignS, "verifyS": SignS, "mac0C": Mac, "mac0V": Mac, "macC": Mac, "macV": Mac,
          "enc0E": Enc, "enc0D": Enc, "encE": Enc, "encD": Enc, "kwW": Wrap, "kwU": Wrap, "oaepW": Wrap, "oaepU": Wrap,
          "kadSL": Agree, "kadSP": Agree, "kadRL": Agree, "kadRP": Agree, "kawSL": Agree, "kawSP": Agree, "kawRL": Agree, "kawRP": Agree}
FIT = {-7: ["P-256"], -35: ["P-384"], -36: ["P-521"], -8: ["Ed25519", "Ed448"]}


def fitting(alg, r):
    if alg in FIT:
        return r.choice(FIT[alg])
    if alg in ref.PSS or alg in ref.PKCS1 or alg in ref.OAEP:
        return "RSA"
    if alg in ref.HMACS:
        return r.choice(["S16", "S24", "S32"])
    if alg in ref.AESMAC:
        return "S%d" % ref.AESMAC[alg][0]
    if alg in ref.ENC_ALGS:
        return "S%d" % ref.enc_key_len(alg)
    if alg in ref.KW:
        return "S%d" % ref.KW[alg]
    if alg in ref.ECDH:
        return r.choice(["P-256", "P-384", "P-521"])
    return None


def case(c, faults, r, counts):
    accepted = not faults
    none = c["kind"] == "-"
    rec = material(c["kind"], r) if not none else material(fitting(c["alg"], r) or "S16", r)
    s = SCENES[c["op"]](c, r, rec, None)
    try:
        s.setup()
        key = None if none else build(r, rec, c["priv"], c["kalg"], c["ops"])
    except Exception as e:
        if accepted:
            raise Violation("%s with %s refused before the operation: %r" % (c["op"], describe(c), e))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    # the same object may have served before, with another key
    if not none and fitting(c["alg"], r) and c["alg"] in family(c["op"]) and r.random() < 0.4:
        counts["reused objects"] = counts.get("reused objects", 0) + 1
        same = r.random() < 0.5 and rec["kty"] == material_kty(c["alg"], r)
        kind0 = c["kind"] if c["alg"] in ref.ECDH and c["kind"] in ref.CURVES else fitting(c["alg"], r)
        rec0 = rec if same else material(kind0, r)
        try:
            s.attach(V.pycose_key(r, rec0), rec0)
            s.run()
        except Exception:
            pass
    try:
        s.attach(key, rec)
        out = s.run()
    except Exception as e:
        if accepted:
            raise Violation("%s refused with %s: %r" % (c["op"], describe(c), e))
        counts["refused"] = counts.get("refused", 0) + 1
        counts["%s refused" % c["op"]] = counts.get("%s refused" % c["op"], 0) + 1
        return
    if not accepted:
        raise Violation("%s proceeds with %s although: %s" % (c["op"], describe(c), ", ".join(sorted(faults))), {"result": repr(out)[:200]})
    if not s.check(out, None if none else rec):
        raise Violation("%s with %s yields something else than the standard says" % (c["op"], describe(c)), {"result": repr(out)[:200]})
    counts["accepted"] = counts.get("accepted", 0) + 1
    counts["%s accepted" % c["op"]] = counts.get("%s accepted" % c["op"], 0) + 1


def family(op):
    f = {"s": ref.SIGN_ALGS, "v": ref.SIGN_ALGS, "m": ref.MAC_ALGS, "e": ref.ENC_ALGS, "k": list(ref.KW) + list(ref.ECDH), "o": list(ref.OAEP)}[op[0]]
    if op[:2] == "kw":
        return list(ref.KW)
    if op[:3] == "kad":
        return [a for a in ref.ECDH if not ref.ECDH[a][2]]
    if op[:3] == "kaw":
        return [a for a in ref.ECDH if ref.ECDH[a][2]]
    return f


def material_kty(alg, r):
    k = fitting(alg, r)
    return {"P": 2, "E": 1, "R": 3, "S": 4}[k[0]]


def describe(c):
    return "algorithm %s (%s), key %s%s, key alg %s, key_ops %s" % (
        c["alg"], {"p": "protected", "u": "unprotected", "-": "missing"}[c["loc"]], c["kind"], "" if c["priv"] else " public",
        c["kalg"] or "absent", sorted(c["ops"]) or "absent")


def replay_case(rep):
    import table
    return table.replay(rep, case)


# ---------------------------------------------- specs/PolicyM.tla
def scene_ops(op):
    return {"sign1": {1}, "verify1": {2}, "signS": {1}, "verifyS": {2}, "mac0C": {9}, "mac0V": {10}, "macC": {9}, "macV": {10},
            "enc0E": {3}, "enc0D": {4}, "encE": {3}, "encD": {4}, "kwW": {3, 5}, "kwU": {4, 6}, "oaepW": {3, 5}, "oaepU": {4, 6}}.get(op, {7, 8})


# the peer's key of a receiver is a copy in a header
CHANGING = [o for o in SCENES if o not in ("kadRP", "kawRP")]
KINDS = ["P-256", "P-384", "P-521", "Ed25519", "Ed448", "RSA", "S16", "S24", "S32"]


def scenes_of(kind):
    """the (operation, algorithm) pairs that work with a key of this kind"""
    import random
    out = []
    for op in CHANGING:
        for a in family(op):
            if a in ref.ECDH:
                ok = kind in ("P-256", "P-384", "P-521")
            elif a in ref.HMACS:
                ok = kind[0] == "S"
            else:
                ok = fitting(a, random.Random(1)) == kind or (a == -8 and kind in FIT[-8])
            if ok:
                out.append((op, a))
    return out


class PolicyM:
    probe_ops = ("use",)
    max_steps = 120

    def __init__(self, consts, rnd):
        self.rnd, self.consts, self.counters, self.last_error = rnd, consts, {}, None

    def fits(self, x, y):
        (op1, a1), (op2, a2) = x, y
        o1, o2 = scene_ops(op1), scene_ops(op2)
        if (a1 == a2) != self.consts["SameAlg"]:
            return False
        if self.consts["Detach"] and ("ka" in op1 or "ka" in op2):
            return False
        return o1 == o2 if self.consts["SameOp"] else bool(o1 - o2) and bool(o2 - o1)

    def start(self, s):
        r = self.rnd
        while True:
            self.kind = r.choice(KINDS)
            pairs = SCENE_PAIRS.setdefault((self.kind, self.consts["SameOp"], self.consts["SameAlg"], self.consts["Detach"]),
                                           [(x, y) for x in scenes_of(self.kind) for y in scenes_of(self.kind) if self.fits(x, y)])
            if pairs:
                break
        x, y = r.choice(pairs)
        self.rec = material(self.kind, r)
        self.algs = {"a": x[1], "b": y[1] if x[1] != y[1] else r.choice([a for a in sorted(V.ALG_NAMES) if a != x[1]])}
        self.sc = {}
        for i, (op, a) in (("1", x), ("2", y)):
            loc = "u" if op[:2] in ("kw", "oa") else r.choice("pu")
            c = {"op": op, "loc": loc, "alg": a, "kind": self.kind, "priv": True, "kalg": 0, "ops": []}
            self.sc[i] = SCENES[op](c, r, self.rec, True)
            self.sc[i].setup()
        o1, o2 = scene_ops(x[0]), scene_ops(y[0])
        sup = SUPPORTED[self.rec["kty"]]
        one, two = (o1, sup - o1) if self.consts["SameOp"] else (o1 - o2, o2 - o1)
        self.opsets = {"1": one & sup, "2": two & sup}
        if not self.opsets["1"] or not self.opsets["2"]:
            # operations the key type cannot state
            from walk import EndSegment
            raise EndSegment()
        self.keys = {}
        for k in "KL":
            kalg = self.algs.get(s[k]["alg"], 0)
            self.keys[k] = build(r, self.rec, True, kalg, self.some(s[k]["ops"]))
        for i in "12":
            self.give(i, s["h"][i])

    def some(self, v):
        r = self.rnd
        if v == "-":
            return []
        out = set()
        for x in v:
            out |= set(r.sample(sorted(self.opsets[x]), r.randrange(1, len(self.opsets[x]) + 1)))
        return sorted(out, key=lambda _: r.random())

    def give(self, i, k):
        self.sc[i].attach(None if k == "-" else self.keys[k], self.rec)

    def describe(self):
        return {"kind": self.kind, "scenes": {i: (s.c["op"], s.alg, s.loc) for i, s in self.sc.items()}, "algs": self.algs,
                "ops": {k: sorted(v) for k, v in self.opsets.items()}}

    def step(self, op, s, t, res):
        from pycose.keys.keyparam import KpAlg, KpKeyOps
        r, n = self.rnd, op["name"]
        if n == "alg":
            key = self.keys[op["k"]]
            if op["v"] == "-":
                lab = r.choice([KpAlg, 3, "ALG"])
                if s[op["k"]]["alg"] != "-":
                    del key[lab]
            elif r.random() < 0.5:
                key.alg = V.spell_alg(r, self.algs[op["v"]])
            else:
                key[r.choice([KpAlg, 3, "ALG"])] = V.spell_alg(r, self.algs[op["v"]])
            return "ok"
        if n == "ops":
            key = self.keys[op["k"]]
            vals = [spell_op(r, o) for o in self.some(op["v"])]
            how = r.randrange(3)
            if not vals and how == 0 and s[op["k"]]["ops"] != "-" and KpKeyOps in key:
                del key[r.choice([KpKeyOps, 4, "KEY_OPS"])]
            elif how == 1 and vals:
                key[r.choice([KpKeyOps, 4, "KEY_OPS"])] = vals
            else:
                key.key_ops = vals
            return "ok"
        if n == "give":
            self.give(op["i"], op["v"])
            return "ok"
        sc = self.sc[op["i"]]
        try:
            out = sc.run()
        except Exception as e:
            self.last_error = repr(e)
            return "refused"
        self.last_error = "result %r" % (repr(out)[:100],)
        if res == "ok":
            if not sc.check(out, self.rec):
                raise Violation("%s yields something else than the standard says" % sc.c["op"], {"result": repr(out)[:200]})
            n = "%s used" % sc.c["op"]
            self.counters[n] = self.counters.get(n, 0) + 1
        return "ok"

    def observe(self, t):
        for k in "KL":
            alg = self.keys[k].alg
            want = self.algs.get(t[k]["alg"])
            if (alg.identifier if alg is not None else None) != want:
                raise Violation("the key's algorithm is %r, not %r" % (alg, want))
            have = {o.identifier for o in self.keys[k].key_ops}
            ok = have == set() if t[k]["ops"] == "-" else \
                have <= set().union(*[self.opsets[x] for x in t[k]["ops"]]) and all(have & self.opsets[x] for x in t[k]["ops"])
            if not ok:
                raise Violation("the key's operations are %r" % sorted(have))


SCENE_PAIRS = {}
