"""Driver for specs/Kdf.tla."""
import cbor2

import cborx
import keylen
import ref
import refmsg
import values as V
from common import Violation

LABEL = {"salt": -20, "uid": -21, "unonce": -22, "uother": -23, "vid": -24, "vnonce": -25, "vother": -26}


class Case:
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.alg = c["alg"]
        self.host = c["target"] or r.choice(ref.ENC_ALGS + [4, 5] + sorted(ref.AESMAC))
        self.agree = self.alg >= -28
        self.nest = r.choice([-3, -4, -5]) if self.agree and not c["target"] and r.random() < 0.25 else None
        self.w = keylen.World(self.host, r)
        # what the derived key is for
        self.target = self.nest or self.host
        curve = r.choice(["P-256", "P-384", "P-521"])
        self.rec, self.static = ref.ec_key(curve, r), ref.ec_key(curve, r)
        self.val = {}
        for f in list(LABEL) + ["pub", "priv"]:
            a = V.some_bytes(r, 0)[:300]
            b = V.near(r, a)
            if f.endswith("nonce") and r.random() < 0.2:
                a, b = r.choice([0, 1, 2 ** 33, -1]), r.choice([5, b"\0", 2 ** 34])
            if f == "salt" and isinstance(b, bytes) and (len({a.rstrip(b"\0"), b.rstrip(b"\0"), b""}) < 3 or len(a) > 60 or len(b) > 60):
                a, b = b"salt", b"Salt"                    # HMAC pads its key with zeros and hashes long ones
            self.val[f] = {"a": a, "b": b, "e": b""}
        self.place()

    def place(self):
        """headers as on the wire"""
        r, c = self.r, self.c
        self.p, self.u = {}, {4: b"r"}
        if c["form"] != "empty":
            if r.random() < 0.5:
                self.p[1] = self.alg
            else:
                self.p[3] = r.choice([0, 60, "text/plain"])
        if 1 not in self.p:
            self.u[1] = self.alg
        for f, lab in LABEL.items():
            v = c["f"][f]
            if v != "-":
                (self.p if c["form"] != "empty" and r.random() < 0.5 else self.u)[lab] = self.val[f][v]
        self.lab = -1 if ref.ECDH[self.alg][1] else -2
        if c["form"] == "empty":
            self.pe = b""
        elif c["form"] == "canonical":
            self.pe = cborx.enc(self.p)
        else:
            self.pe = cborx.enc_map_noncanonical(self.p, r.choice([0, 1, 2, 3, 5]))
            if self.pe == cborx.enc(self.p):
                self.pe = cborx.enc_map_noncanonical(self.p, 0)
        self.supp = {f: self.val[f][c["f"][f]] for f in ("pub", "priv") if c["f"][f] != "-"}

    def spell_supp(self):
        from pycose import headers
        out = {}
        for f, v in self.supp.items():
            out[headers.SuppPubOther if f == "pub" else headers.SuppPrivOther] = v
        return out

    def evaluate(self, e, pe=None, f=None, target=None, bits=None, hash_=None):
        """the key the specification's term stands for"""
        tgt = ref.ECDH[self.alg][2] or self.target
        n = refmsg.key_len(tgt)

        def ev(x):
            if x == ["nil", "-"]:
                return None
            if isinstance(x, list) and len(x) == 2 and x[0] == "protected":
                return self.pe if pe is None else pe
            if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
                return self.val[x[0]][x[1]]
            return [ev(y) for y in x] if isinstance(x, list) else x

        info = ev(e["info"])
        info[0] = tgt if target is None else target
        info[3][0] = (n * 8) if bits is None else bits
        salt = ev(e["salt"])
        z = ref.ecdh(self.static, self.rec)
        return ref.hkdf(hash_ or e["hash"], z, salt or b"", cborx.enc(info), n)

    def describe(self):
        return {"alg": V.ALG_NAMES[self.alg], "target": V.ALG_NAMES[self.target], "fields": {f: v for f, v in self.c["f"].items() if v != "-"},
                "protected": self.pe.hex()}


def case(c, e, r, counts):
    x = Case(c, r)
    (send if c["way"] == "send" else receive)(x, c, e, r, counts)


def send(x, c, e, r, counts):
    from pycose.messages import recipient as R
    w = x.w
    own = x.lab == -2 or r.random() < 0.5
    u = dict(x.u)
    if own:
        u[x.lab] = refmsg.public(x.static)
    cls = R.DirectKeyAgreement if x.agree else R.KeyAgreementWithKeyWrap
    before = r.random() < 0.3                              # the recipient was used before, with other inputs
    alt = {lab: b"before" for f, lab in LABEL.items() if before and r.random() < 0.5}
    rc = cls(phdr=V.spell_header(r, {k: alt.get(k, v) for k, v in x.p.items()}), uhdr=V.spell_header(r, {k: alt.get(k, v) for k, v in u.items()}))
    static = {V.hdr_class(-2): V.pycose_key(r, x.rec, False)}
    rc.local_attrs = {**static, **x.spell_supp()}
    if own:
        rc.key = V.pycose_key(r, x.static)
    msg = w.message([R.KeyWrap(uhdr={1: x.nest}, recipients=[rc])] if x.nest else [rc])
    try:
        if before:
            if r.random() < 0.5:
                rc.local_attrs = static
            msg.encode()
            rc.local_attrs = {**static, **x.spell_supp()}
            rc.phdr = V.spell_header(r, x.p)
            rc.uhdr_update(V.spell_header(r, u))
        body = cbor2.loads(msg.encode()).value
    except Exception as z:
        raise Violation("a key agreement recipient is refused when sending: %r" % z, x.describe())
    en = body[-1][0]
    outer = None
    if x.nest:
        outer, en = en[2], en[3][0]
    if en[0] != x.pe:
        got = cbor2.loads(en[0]) if en[0] else {}
        if not V.same_map(got, x.p):
            raise Violation("the protected header of the recipient is sent as %r" % en[0], x.describe())
    h = refmsg.headers_of(en)
    for lab in LABEL.values():
        if h.get(lab) != {**x.p, **x.u}.get(lab):
            raise Violation("header parameter %d of the recipient is sent as %r" % (lab, h.get(lab)), x.describe())
    if not own:
        # the ephemeral key is the library's: derive from the receiver's side
        x.static, x.rec = x.rec, refmsg.point(h[-1])
    k = x.evaluate(e, pe=en[0])
    if not x.agree:
        k = ref.kw_unwrap(k, en[2])
    if outer:
        k = k and ref.kw_unwrap(k, outer)
    if k is None or refmsg.open_body(body, w.tag, k, w.ext) not in ((w.payload,) if w.tag == 96 else (True,)):
        raise Violation("the key derived by the sender is not the one of the KDF context", x.describe())
    counts["derived when sending"] = counts.get("derived when sending", 0) + 1


def receive(x, c, e, r, counts):
    from pycose.messages import CoseMessage
    w = x.w
    d = c["diff"]
    kw = {}
    e2 = e
    tgt = ref.ECDH[x.alg][2] or x.target
    if d == "form":
        kw["pe"] = {"empty": b"", "canonical": cborx.enc(x.p), "other form": cborx.enc_map_noncanonical(x.p, 0)}[c["to"]]
        if kw["pe"] == x.pe:
            kw["pe"] = b"\xa0"
    elif d == "target":
        n = refmsg.key_len(tgt)
        kw["target"] = r.choice([a for a in ref.ENC_ALGS + list(ref.KW) + list(ref.AESMAC) + [x.alg, x.host] if a != tgt and
                                 (a in ref.ECDH or refmsg.key_len(a) == n)])
    elif d == "bits":
        n = refmsg.key_len(tgt)
        kw["bits"] = r.choice([n, n * 8 - 1, n * 8 + 8, 0, None]) or 7
    elif d == "hash":
        kw["hash_"] = "sha512" if e["hash"] == "sha256" else "sha256"
    elif d != "-":
        e2 = replaced(e, d, c["to"])
    k = x.evaluate(e2, **kw)
    n = refmsg.key_len(x.target)
    ct = b""
    if not x.agree:
        cek = r.randbytes(n)
        ct, k = ref.kw_wrap(k, cek), cek
    entry = [x.pe, {**x.u, x.lab: refmsg.public(x.static)}, ct]
    if x.nest:
        cek = r.randbytes(refmsg.key_len(x.host))
        entry = [b"", {1: x.nest}, ref.kw_wrap(k, cek), [entry]]
        k = cek
    data = refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, k, [entry])
    try:
        m = CoseMessage.decode(data)
        m.external_aad = w.ext
        rc = m.recipients[0].recipients[0] if x.nest else m.recipients[0]
        rc.key = V.pycose_key(r, x.rec)
        if x.supp and r.random() < 0.2:                    # an attempt with other inputs before
            rc.local_attrs = {k: b"other inputs" for k in x.spell_supp()}
            try:
                if w.tag == 96:
                    m.decrypt(m.recipients[0])
                    raise Violation("the message opens with other supplementary information", x.describe())
                elif m.verify_tag(m.recipients[0]):
                    raise Violation("the message opens with other supplementary information", x.describe())
            except Violation:
                raise
            except Exception:
                pass
        rc.local_attrs = x.spell_supp()
        ok = m.decrypt(m.recipients[0]) == w.payload if w.tag == 96 else m.verify_tag(m.recipients[0]) is True
    except Violation:
        raise
    except Exception as z:
        if c["t"] == "same":
            raise Violation("a key agreement recipient with this KDF context does not open the message: %r" % z, x.describe())
        counts["rejected"] = counts.get("rejected", 0) + 1
        return
    if ok and c["t"] != "same":
        raise Violation("the message opens although '%s' of the KDF context differs" % d, x.describe())
    if not ok and c["t"] == "same":
        raise Violation("the message does not open under the key of the KDF context", x.describe())
    counts["derived when receiving"] = counts.get("derived when receiving", 0) + (c["t"] == "same")


def replaced(e, f, to):
    """the specification's term with one input replaced"""
    import copy
    e = copy.deepcopy(e)
    v = ["nil", "-"] if to == "-" else [f, to]
    if f == "salt":
        e["salt"] = v
    elif f == "priv":
        e["info"] = e["info"][:4] + ([] if to == "-" else [v])
    elif f == "pub":
        e["info"][3] = e["info"][3][:2] + ([] if to == "-" else [v])
    else:
        e["info"][1 if f[0] == "u" else 2][{"id": 0, "nonce": 1, "other": 2}[f[1:]]] = v
    return e


def replay_case(rep):
    import table
    return table.replay(rep, case)
