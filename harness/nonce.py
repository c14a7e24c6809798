"""Drivers for specs/Nonce.tla (decision table) and specs/NonceM.tla (machine)."""
import cbor2

import cborx
import ref
import values as V
from common import Violation

ALGS = {12: sorted(ref.GCM), 13: [a for a in ref.CCM if ref.CCM[a][2] == 13], 7: [a for a in ref.CCM if ref.CCM[a][2] == 7]}


def pat(p, n):
    return bytes({"zero": lambda i: 0, "ff": lambda i: 255, "ramp": lambda i: i, "top": lambda i: 128 if i == 1 else 0,
                  "low": lambda i: 1 if i == n else 0, "mix": lambda i: (i * 89 + n * 37 + 165) % 256}[p](i) for i in range(1, n + 1))


def aad_of(ctx, protected, ext):
    return cborx.enc([ctx, b"" if protected in (b"", b"\xa0") else protected, ext])


class Setup:
    """one message object of the given type, its key and what an independent implementation needs to know"""

    def __init__(self, typ, length, r):
        self.typ, self.r = typ, r
        self.alg = r.choice(ALGS[length])
        self.klen = ref.enc_key_len(self.alg)
        self.k = r.randbytes(self.klen)
        self.ext = r.choice([b"", b"ext"])
        self.payload = V.some_bytes(r, 0)[:1000] or b"x"
        self.algb = r.choice("pu")
        self.ctx = {"Enc0": "Encrypt0", "Enc": "Encrypt"}[typ]

    def key(self, base):
        return V.pycose_key(self.r, {"kty": 4, "k": self.k}, extra=None if base is None else {5: base})

    def headers(self, p, u):
        p, u = dict(p), dict(u)
        (p if self.algb == "p" else u)[1] = self.alg
        return p, u

    def make(self, p, u):
        from pycose.messages import Enc0Message, EncMessage
        from pycose.messages.recipient import DirectEncryption
        r = self.r
        p, u = self.headers(p, u)
        if self.typ == "Enc0":
            m = Enc0Message(phdr=V.spell_header(r, p), uhdr=V.spell_header(r, u), payload=self.payload, external_aad=self.ext)
        else:
            m = EncMessage(phdr=V.spell_header(r, p), uhdr=V.spell_header(r, u), payload=self.payload, external_aad=self.ext,
                           recipients=[DirectEncryption(uhdr={1: -6, 4: b"r"})])
        return m

    def wire(self, p, u, ct):
        p, u = self.headers(p, u)
        pe = cborx.enc(p) if p else b""
        body = [pe, u, ct] + ([[[b"", {1: -6, 4: b"r"}, b""]]] if self.typ == "Enc" else [])
        return cborx.enc(cborx.Tag(16 if self.typ == "Enc0" else 96, body)), pe

    def protected(self, p, u):
        p, u = self.headers(p, u)
        return cborx.enc(p) if p else b""

    def seal(self, protected, nonce):
        return ref.encrypt(self.alg, self.k, nonce, self.payload, aad_of(self.ctx, protected, self.ext))

    def decrypt(self, m):
        return m.decrypt() if self.typ == "Enc0" else m.decrypt(m.recipients[0])


def case(c, expected, r, counts):
    s = Setup(c["type"], c["len"], r)
    p, u = {}, {}
    for lab, where, v in ((5, c["iv"], pat(c["ip"], c["il"])), (6, c["piv"], pat(c["pp"], c["pl"]))):
        if where in ("p", "both"):
            p[lab] = v
        if where in ("u", "both"):
            u[lab] = v
    base = None if c["base"] == "-" else pat(c["base"], c["len"])
    nonce = bytes(expected["n"])
    if c["side"] == "enc":
        m = s.make(p, u)
        m.key = s.key(base)
        try:
            ct = cbor2.loads(m.encode()).value[2] if r.random() < 0.6 else m.encrypt()
        except Exception as e:
            if expected["ok"] and not expected["lax"]:
                raise Violation("encryption refuses IV %r, Partial IV %r, Base IV %r: %r" % (p.get(5, u.get(5)), p.get(6, u.get(6)), base, e))
            return
        if not expected["ok"]:
            raise Violation("encryption succeeds with IV %s, Partial IV %s, Base IV %r" % (c["iv"], c["piv"], base), {"ciphertext": ct.hex()})
        if ct != s.seal(m.phdr_encoded, nonce):
            raise Violation("encryption did not use the nonce %s" % nonce.hex(), {"p": repr(p), "u": repr(u), "base": repr(base)})
        counts["encrypted"] = counts.get("encrypted", 0) + 1
        return
    cands = [nonce] if expected["ok"] else [x for x in candidates(c["len"], [p.get(5), u.get(5), base], [p.get(6), u.get(6)])]
    pe = s.protected(p, u)
    for n in cands:
        ct = s.seal(pe, n)
        data, pe2 = s.wire(p, u, ct)
        try:
            m = type(s.make({}, {})).decode(data)
            m.external_aad = s.ext
            m.key = s.key(base)
            pt = s.decrypt(m)
        except Exception as e:
            if expected["ok"] and not expected["lax"]:
                raise Violation("decryption refuses IV %r, Partial IV %r, Base IV %r: %r" % (p.get(5, u.get(5)), p.get(6, u.get(6)), base, e))
            continue
        if not expected["ok"]:
            raise Violation("decryption succeeds with IV %s, Partial IV %s, Base IV %r (nonce %s)" % (c["iv"], c["piv"], base, n.hex()))
        if pt != s.payload:
            raise Violation("decryption yields another plaintext")
        counts["decrypted"] = counts.get("decrypted", 0) + 1


def candidates(n, whole, partial):
    """nonces a wrong implementation might form"""
    out = []
    for w in whole:
        if w and len(w) == n:
            out.append(w)
    for p in partial:
        if p is not None:
            for b in whole + [bytes(n)]:
                b = b or bytes(n)
                for q in ((bytes(n) + p)[-n:], (p + bytes(n))[:n]):
                    out.append(bytes(x ^ y for x, y in zip(b, q)))
    out.append(bytes(n))
    return list(dict.fromkeys(out))


def replay_case(rep):
    import table
    return table.replay(rep, case)


class NonceM:
    """specs/NonceM.tla"""

    def __init__(self, consts, rnd):
        self.rnd = r = rnd
        self.counters = {}
        self.last_error = None
        self.n = r.choice(sorted(ALGS))
        self.s = Setup(r.choice(["Enc0", "Enc"]), self.n, r)
        n = self.n
        self.iv = dict(zip("ab", (r.randbytes(n), r.randbytes(n))))
        self.base = dict(zip("ab", (r.randbytes(n), r.choice([bytes(n), b"\xff" * n, b"\0" * (n - 1) + b"\1"]))))
        self.piv = {"short": r.randbytes(r.randrange(1, 4)), "full": b"\x01" + r.randbytes(n - 1), "long": b"\x01" + r.randbytes(n)}
        if r.random() < 0.2:
            self.piv["short"] = r.choice([b"\x00\x07", b"\xff", b"\x80"])

    def describe(self):
        return {"type": self.s.typ, "alg": self.s.alg}

    def hdr(self, h):
        out = {}
        if h["iv"] != "-":
            out[5] = self.iv[h["iv"]]
        if h["piv"] != "-":
            out[6] = self.piv[h["piv"]]
        return out

    def start(self, s):
        self.obj = self.s.make({}, {})
        self.obj.key = self.s.key(None if s["base"] == "-" else self.base[s["base"]])
        if s["base"] == "-" and self.rnd.random() < 0.3:
            self.obj.key.base_iv = b""

    def nonce(self, r):
        if r[0] == "bad":
            return None
        if r[0] == "iv":
            return self.iv[r[1]]
        b, p = self.base[r[1]], self.piv[r[2]]
        p = bytes(self.n - len(p)) + p
        return bytes(x ^ y for x, y in zip(b, p))

    def step(self, op, s, t, r):
        k, m, rnd = op["k"], self.obj, self.rnd
        if k in ("assign", "update"):
            h = self.hdr(op["h"])
            if k == "assign" and (op["b"] == self.s.algb):
                h[1] = self.s.alg
            h = V.spell_header(rnd, h)
            if k == "assign":
                setattr(m, op["b"] + "hdr", h)
            else:
                getattr(m, op["b"] + "hdr_update")(h)
            return ["ok"]
        if k == "base":
            from pycose.keys.keyparam import KpBaseIV
            how = rnd.randrange(3)
            if op["v"] == "-":
                if how == 0:
                    m.key.base_iv = b""
                elif KpBaseIV in m.key:
                    del m.key[rnd.choice([KpBaseIV, 5, "BASE_IV"])]
            elif how == 0:
                m.key[rnd.choice([KpBaseIV, 5, "BASE_IV"])] = self.base[op["v"]]
            else:
                m.key.base_iv = self.base[op["v"]]
            return ["ok"]
        if k == "key":
            m.key = self.s.key(None if op["v"] == "-" else self.base[op["v"]])
            return ["ok"]
        if k == "transport":
            key = m.key
            if s["p"]["iv"] != "-" or s["u"]["iv"] != "-" or rnd.random() < 0.5:
                data = m.encode(encrypt=False) if self.s.typ == "Enc0" else self.s.wire(self.hdr(s["p"]), self.hdr(s["u"]), self.s.payload)[0]
            else:
                data = self.s.wire(self.hdr(s["p"]), self.hdr(s["u"]), self.s.payload)[0]
            self.obj = type(m).decode(data)
            self.obj.key = key
            self.obj.external_aad = self.s.ext
            return ["ok"]
        want = self.nonce(r)
        if k == "encrypt":
            try:
                ct = cbor2.loads(m.encode()).value[2] if rnd.random() < 0.5 else m.encrypt()
            except Exception as e:
                if want is not None:
                    raise Violation("encryption is refused: %r" % e)
                return ["bad"]
            if want is None:
                return ["encrypted"]
            if ct != self.s.seal(m.phdr_encoded, want):
                raise Violation("encryption did not use the current nonce")
            return r
        for n in [want] if want is not None else candidates(self.n, list(self.base.values()) + list(self.iv.values()), list(self.piv.values()))[:12]:
            m.payload = self.s.seal(m.phdr_encoded, n)
            try:
                pt = self.s.decrypt(m)
            except Exception as e:
                if want is not None:
                    raise Violation("decryption is refused: %r" % e)
                continue
            if want is None:
                return ["decrypted"]
            if pt != self.s.payload:
                raise Violation("decryption yields another plaintext")
        m.payload = self.s.payload
        return r

    def observe(self, t):
        for b in "pu":
            h = V.unspell(getattr(self.obj, b + "hdr"))
            h.pop(1, None)
            if not V.same_map(h, self.hdr(t[b])):
                raise Violation("the %s bucket holds %r" % (b, h))
        if self.obj.key.base_iv != (b"" if t["base"] == "-" else self.base[t["base"]]):
            raise Violation("the key's Base IV is %r" % self.obj.key.base_iv)
