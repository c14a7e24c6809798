"""Driver for specs/Isolation.tla: several messages, keys and dictionaries that live at the same time."""
import multiprocessing
import os
import random
import sys
import threading
import time

import cbor2
import cborx
import common
import ref
import values as V
import walk
from common import Violation

KINDS = {"sign": ("Sign1Message", "SignMessage"), "mac": ("Mac0Message", "MacMessage"), "enc": ("Enc0Message", "EncMessage")}
TAGS = {"sign": (18, 98), "mac": (17, 97), "enc": (16, 96)}
FIT = {"sign": [1, 2], "mac": [9, 10], "enc": [3, 4]}
UNFIT = {"sign": [[7], [8], [7, 8]], "mac": [[3, 4], [5], [5, 6]], "enc": [[9, 10], [5], [6, 9]]}


def freeze(v):
    """contents of something the caller owns, kept for comparison"""
    if isinstance(v, dict):
        return ("dict", [(k if isinstance(k, (int, str, bytes)) else id(k), type(k).__name__, freeze(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x) for x in v])
    if isinstance(v, (bytes, str, int, float, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, bytearray):
        return ("bytearray", bytes(v))
    return ("object", id(v))


_MATERIALS = None


class Isolation:
    def __init__(self, consts, rnd):
        self.c, self.rnd = consts, rnd
        self.fam = consts["Family"]
        self.counters = {}
        self.last_error = None
        r = rnd
        if self.fam == "sign":
            self.alg = r.choice([ref.EDDSA, ref.EDDSA, -7, -35, -36])
            self.keys = V.sign_keys(r, self.alg)
        elif self.fam == "mac":
            self.alg = r.choice(ref.MAC_ALGS)
            n = r.choice([16, 24, 32]) if self.alg in ref.HMACS else ref.AESMAC[self.alg][0]
            self.keys = V.sym_keys(r, n)
        else:
            self.alg = r.choice(ref.ENC_ALGS)
            self.keys = V.sym_keys(r, ref.enc_key_len(self.alg))
        a = V.some_bytes(r, big=0)[:30000]
        self.pay = {"a": a, "b": V.near(r, a)[:30001]}
        if self.pay["b"] == a:
            self.pay["b"] = a + b"\0"
        self.aad = {"-": b"", "a": V.some_bytes(r, big=0) or b"aad"}
        base = {1: self.alg}
        if self.fam == "enc":
            base[5] = r.randbytes(ref.enc_nonce_len(self.alg))
        n = r.choice([1, 2, 3])
        pa, pb = V.header_pair(r, n=n, first=base, taken={1, 5, 6})
        self.p = {"-": {}, "n": base, "a": pa, "b": {k: pb[k] for k in pa}}
        self.p["b"].update(base)
        ua, ub = V.header_pair(r, n=r.choice([1, 2, 3]), taken=set(pa) | {1, 5, 6})
        self.u = {"-": {}, "a": ua, "b": {k: ub[k] for k in ua}}
        self.kids = {"a": b"kid-a", "b": b"kid-b"}
        self.order = sorted(consts["Msgs"])

    def describe(self):
        return {"family": self.fam, "alg": V.ALG_NAMES[self.alg], "p_a": repr(self.p["a"])[:120], "u_a": repr(self.u["a"])[:120]}

    def layered(self, m):
        return m in self.c["Layered"]

    def cls(self, m):
        from pycose import messages
        return getattr(messages, KINDS[self.fam][self.layered(m)])

    # ------------------------------------------------------------- the world
    def start(self, s):
        r = self.rnd
        self.k = {}
        for n in sorted(s["k"]):
            self.k[n] = V.pycose_key(r, self.keys[int(s["k"][n]["mat"]) - 1])
        self.pd = {n: V.spell_header(r, self.p[v]) for n, v in s["p"].items()}
        self.ud = {n: V.spell_header(r, self.u[v]) for n, v in s["u"].items()}
        self.w = {n: None for n in s["w"]}
        self.m, self.keep, self.lists = {}, {}, []
        self.keyname = {}
        self.locals = {}
        for n in self.order:
            x = s["m"][n]
            if x["p"] == "-":
                self.m[n] = self.cls(n)(payload=self.pay["a"])
            else:
                self.m[n] = self.cls(n)(phdr=V.spell_header(r, self.p[x["p"]]), payload=self.pay["a"])
                if self.layered(n):
                    self.add_child(n, None, {})
            self.keyname[n] = None
            if x["key"] != "-":
                self.holder(n).key = self.k[x["key"]]
                self.keyname[n] = x["key"]
        self.freeze_all()

    def freeze_all(self):
        self.frozen = {id(d): (d, freeze(d)) for d in list(self.pd.values()) + list(self.ud.values()) + self.lists}

    def kids_of(self, n):
        if not self.layered(n):
            return None
        return self.m[n].signers if self.fam == "sign" else self.m[n].recipients

    def holder(self, n):
        return self.m[n].signers[0] if self.layered(n) and self.fam == "sign" else self.m[n]

    def make_child(self, ud):
        from pycose.messages.recipient import DirectEncryption
        from pycose.messages.signer import CoseSignature
        r = self.rnd
        kw = {"uhdr": ud} if ud is not None and (ud or r.random() < 0.5) else {}
        if self.fam == "sign":
            return CoseSignature(phdr=V.spell_header(r, {1: self.alg}), **kw)
        o = DirectEncryption(**kw)
        o.uhdr_update(V.spell_header(r, {1: -6}))
        return o

    def add_child(self, n, ud, _):
        self.kids_of(n).append(self.make_child(ud))

    def note(self, n):
        """local attributes of a new object and what it contains"""
        for o in [self.m[n]] + list(self.kids_of(n) or []):
            if self.rnd.random() < 0.3:
                self.locals = {i: x for i, x in self.locals.items() if any(x[0] is y or x[0] in (getattr(y, "signers", None) or getattr(y, "recipients", None) or [])
                                                                          for y in self.m.values())}
                v = {V.hdr_class(self.rnd.choice([-2, 4])): self.rnd.randbytes(4)}
                o.local_attrs = self.own(v)
                self.locals[id(o)] = (o, dict(v))

    def obs_local(self, what, o):
        want = self.locals.get(id(o), (o, {}))
        want = want[1] if want[0] is o else {}
        if dict(o.local_attrs) != want:
            raise Violation("local attributes of %s are %r instead of %r" % (what, o.local_attrs, want))

    # ------------------------------------------------------------ observation
    def observe(self, t):
        for n in self.order:
            self.obs_message(n, t["m"][n])
        for n, k in self.k.items():
            self.obs_key(n, k, t["k"][n])
        for d, was in self.frozen.values():
            if freeze(d) != was:
                raise Violation("something the caller owns has changed: %r" % (d,), {"was": repr(was)})

    def bucket(self, what, h, want):
        got = V.unspell(h)
        if not V.same_map(got, want):
            raise Violation("%s is %r instead of %r" % (what, got, want))

    def obs_message(self, n, x):
        o = self.m[n]
        if type(o) is not self.cls(n):
            raise Violation("message %s has become a %s" % (n, type(o).__name__))
        self.obs_local(n, o)
        self.bucket("protected header of %s" % n, o.phdr, self.p[x["p"]])
        if cbor2.loads(o.phdr_encoded or b"\xa0") != cbor2.loads(cbor2.dumps(self.p[x["p"]])):
            raise Violation("protected header of %s is serialized as %s" % (n, o.phdr_encoded.hex()))
        self.bucket("unprotected header of %s" % n, o.uhdr, self.u[x["u"]])
        if x["src"] == "own":
            if o.payload != self.pay[x["pay"]]:
                raise Violation("payload of %s is %r instead of %r" % (n, o.payload, self.pay[x["pay"]]))
        elif self.seen(n) != self.keep[n]:
            raise Violation("contents of the received message %s changed: %r instead of %r" % (n, self.seen(n), self.keep[n]))
        h = self.holder(n) if not self.layered(n) or x["n"] else o
        if h.external_aad != self.aad[x["aad"]] and (h is not o or not self.layered(n) or self.fam != "sign"):
            raise Violation("external AAD of %s is %r" % (n, h.external_aad))
        want = self.k[x["key"]] if x["key"] != "-" else None
        if h.key is not want:
            raise Violation("key of %s is %r" % (n, h.key))
        if self.layered(n):
            cs = self.kids_of(n)
            if len(cs) != x["n"]:
                raise Violation("%s has %d recipients or signers instead of %d" % (n, len(cs), x["n"]))
            for c in cs:
                self.obs_local("recipient or signer of %s" % n, c)
                u = dict(self.u[x["c"]])
                if self.fam == "sign":
                    self.bucket("protected header of the signer of %s" % n, c.phdr, {1: self.alg})
                else:
                    u[1] = -6
                    self.bucket("protected header of the recipient of %s" % n, c.phdr, {})
                    if len(c.recipients or []):
                        raise Violation("the recipient of %s has recipients" % n)
                self.bucket("unprotected header of the recipient or signer of %s" % n, c.uhdr, u)

    def seen(self, n):
        o = self.m[n]
        out = [o.payload]
        if self.fam == "mac":
            out.append(o.auth_tag)
        elif self.fam == "sign":
            out.append(o.signers[0].signature if self.layered(n) else o.signature)
        return out

    def key_contents(self, x):
        k = self.keys[int(x["mat"]) - 1]
        if self.fam == "sign":
            out = {"x": k["x"], "d": k["d"]}
            if "y" in k and k.get("kty") != "OKP" and self.alg != ref.EDDSA:
                out["y"] = k["y"]
        else:
            out = {"k": k["k"]}
        return out

    def obs_key(self, n, o, x):
        for f, v in self.key_contents(x).items():
            if getattr(o, f) != v:
                raise Violation("key %s: %s is %r" % (n, f, getattr(o, f)))
        want = [] if x["ops"] == "-" else self.opsval[n]
        got = sorted(getattr(q, "identifier", q) for q in o.key_ops or [])
        if got != sorted(want):
            raise Violation("operations of key %s are %r instead of %r" % (n, got, want))
        if ("KID" in o) != (x["kid"] != "-") or (x["kid"] != "-" and o.kid != self.kids[x["kid"]]):
            raise Violation("KID of key %s is %r" % (n, o.kid))
        if len(o) != 1 + len(self.key_contents(x)) + (self.fam == "sign") + (x["ops"] != "-") + (x["kid"] != "-"):
            raise Violation("key %s has the parameters %r" % (n, list(o)))

    opsval = None

    # -------------------------------------------------------------- operations
    def attempt(self, f):
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:
            self.last_error = "%s: %s" % (type(e).__name__, e)
            return "bad", None

    def step(self, op, s, t, r):
        self.last_error = None
        if self.opsval is None:
            self.opsval = {}
        self.s = s
        self.counters[op["name"]] = self.counters.get(op["name"], 0) + 1
        return getattr(self, "do_" + op["name"])(op, s, t)

    @staticmethod
    def materials():
        """constructors of keys of every type, with the same key material again and again"""
        global _MATERIALS
        if _MATERIALS is None:
            from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
            from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat, PublicFormat
            from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
            e, o, w = ec.generate_private_key(ec.SECP256R1()), ed25519.Ed25519PrivateKey.generate(), rsa.generate_private_key(65537, 1024)

            def pem(k):
                b = k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()).decode()
                return lambda d: CoseKey.from_pem_private_key(b, optional_params=d)

            def pub(k):
                b = k.public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode()
                return lambda d: CoseKey.from_pem_public_key(b, optional_params=d)
            n, x = e.private_numbers(), o.private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption())
            xs, ys, ds = [v.to_bytes(32, "big") for v in (n.public_numbers.x, n.public_numbers.y, n.private_value)]
            q = w.private_numbers()
            nums = {a: v.to_bytes((v.bit_length() + 7) // 8, "big") for a, v in (("n", q.public_numbers.n), ("e", q.public_numbers.e), ("d", q.d), ("p", q.p),
                                                 ("q", q.q), ("dp", q.dmp1), ("dq", q.dmq1), ("qinv", q.iqmp))}
            _MATERIALS = [pem(e), pem(o), pem(w), pub(e), pub(o), pub(w),
                          lambda d: EC2Key(crv="P_256", x=xs, y=ys, optional_params=d),
                          lambda d: EC2Key(crv="P_256", d=ds, optional_params=d),
                          lambda d: EC2Key.generate_key("P_521", optional_params=d),
                          lambda d: OKPKey(crv="ED25519", d=x, optional_params=d),
                          lambda d: OKPKey(crv="ED448", x=bytes(57), optional_params=d),
                          lambda d: OKPKey.generate_key("X25519", optional_params=d),
                          lambda d: RSAKey(n=nums["n"], e=nums["e"], optional_params=d),
                          lambda d: RSAKey(**nums, optional_params=d),
                          lambda d: SymmetricKey(k=bytes(range(24)), optional_params=d),
                          lambda d: SymmetricKey.generate_key(32, optional_params=d)]
        return _MATERIALS

    def own(self, v):
        """the caller keeps v, the library must leave it alone"""
        self.lists.append(v)
        del self.lists[:-40]
        self.frozen[id(v)] = (v, freeze(v))
        for i in set(self.frozen) - {id(x) for x in list(self.pd.values()) + list(self.ud.values()) + self.lists}:
            del self.frozen[i]
        return v

    def do_new(self, op, s, t):
        r, n = self.rnd, op["m"]

        def f():
            kw = {}
            if self.layered(n):
                kw["signers" if self.fam == "sign" else "recipients"] = self.own([self.make_child(self.ud[op["u"]])])
            self.m[n] = self.cls(n)(phdr=self.pd[op["p"]], uhdr=self.ud[op["u"]], payload=self.pay["a"], **kw)
            self.note(n)
        return self.attempt(f)[0]

    def do_default(self, op, s, t):
        r, n = self.rnd, op["m"]

        def f():
            o = self.cls(n)()
            o.payload = self.pay["a"]
            self.m[n] = o
            self.note(n)
        return self.attempt(f)[0]

    def do_setp(self, op, s, t):
        return self.attempt(lambda: setattr(self.m[op["m"]], "phdr", self.pd[op["p"]]))[0]

    def do_updp(self, op, s, t):
        return self.attempt(lambda: self.m[op["m"]].phdr_update(self.pd[op["p"]]))[0]

    def do_setu(self, op, s, t):
        return self.attempt(lambda: setattr(self.m[op["m"]], "uhdr", self.ud[op["u"]]))[0]

    def do_updu(self, op, s, t):
        return self.attempt(lambda: self.m[op["m"]].uhdr_update(self.ud[op["u"]]))[0]

    def do_setc(self, op, s, t):
        def f():
            c = self.kids_of(op["m"])[0]
            c.uhdr = self.ud[op["u"]]
            if self.fam != "sign":
                c.uhdr_update(V.spell_header(self.rnd, {1: -6}))
        return self.attempt(f)[0]

    def do_child(self, op, s, t):
        n = op["m"]

        def f():
            c = self.make_child(self.ud[op["u"]])
            if self.rnd.random() < 0.6:
                self.kids_of(n).append(c)
            else:
                setattr(self.m[n], "signers" if self.fam == "sign" else "recipients", self.own([c]))
            if self.fam == "sign":
                c.external_aad = self.aad[s["m"][n]["aad"]]
        return self.attempt(f)[0]

    def do_pay(self, op, s, t):
        return self.attempt(lambda: setattr(self.m[op["m"]], "payload", self.pay[op["v"]]))[0]

    def do_aad(self, op, s, t):
        n = op["m"]
        if self.layered(n) and self.fam == "sign" and s["m"][n]["n"] == 0:
            return "ok"                                   # given to the signer when there is one
        return self.attempt(lambda: setattr(self.holder(n), "external_aad", self.aad[op["v"]]))[0]

    def do_key(self, op, s, t):
        return self.attempt(lambda: setattr(self.holder(op["m"]), "key", self.k[op["k"]]))[0]

    def do_protect(self, op, s, t):
        n = op["m"]
        tag = self.rnd.random() < 0.8
        out, w = self.attempt(lambda: self.m[n].encode() if tag else self.m[n].encode(tag=False))
        if out == "ok":
            if not isinstance(w, bytes):
                raise Violation("encode returned %r" % (w,))
            self.w[n] = (w if tag else cborx.head(6, TAGS[self.fam][self.layered(n)]) + w)
        return out

    def load(self, n, x):
        from pycose.messages import CoseMessage
        o = (self.cls(n) if self.rnd.random() < 0.5 else CoseMessage).decode(self.w[x])
        self.m[n] = o
        self.keep[n] = self.seen(n)
        self.note(n)

    def do_load(self, op, s, t):
        return self.attempt(lambda: self.load(op["m"], op["x"]))[0]

    def do_verify(self, op, s, t):
        o = self.m[op["m"]]
        pay = self.pay[s["m"][op["m"]]["tag"]["pay"]]
        return self.verify(op["m"], o, pay)

    def verify(self, n, o, pay):
        if self.fam == "sign":
            out, v = self.attempt(lambda: self.holder(n).verify_signature())
        elif self.fam == "mac":
            out, v = self.attempt(lambda: o.verify_tag(o.recipients[0]) if self.layered(n) else o.verify_tag())
        else:
            out, v = self.attempt(lambda: o.decrypt(o.recipients[0]) if self.layered(n) else o.decrypt())
            if out == "ok" and v != pay:
                raise Violation("decryption returned %r instead of %r" % (v, pay))
            return out
        return "ok" if out == "ok" and v is True else "bad"

    def do_open(self, op, s, t):
        n = op["m"]
        out, _ = self.attempt(lambda: self.load(n, op["x"]))
        if out != "ok":
            raise Violation("a message that was sent cannot be decoded: %s" % self.last_error)
        self.holder(n).key = self.k[op["k"]]
        self.holder(n).external_aad = self.aad[op["v"]]
        return self.verify(n, self.m[n], self.pay[t["m"][n]["tag"]["pay"]])

    def do_touchp(self, op, s, t):
        self.touch(self.pd[op["p"]], self.p[op["v"]])
        return "ok"

    def do_touchu(self, op, s, t):
        self.touch(self.ud[op["u"]], self.u[op["v"]])
        return "ok"

    def touch(self, d, content):
        """the caller changes a dictionary it gave to the library earlier"""
        d.clear()
        d.update(V.spell_header(self.rnd, content))
        self.frozen[id(d)] = (d, freeze(d))

    def do_mat(self, op, s, t):
        o = self.k[op["k"]]

        def f():
            for a, v in self.key_contents({"mat": op["v"]}).items():
                if self.rnd.random() < 0.5:
                    setattr(o, a, v)
                else:
                    o[a.upper()] = v
        return self.attempt(f)[0]

    def do_kid(self, op, s, t):
        o = self.k[op["k"]]
        if op["v"] == "-":
            if "KID" in o:
                del o["KID"]
            return "ok"
        return self.attempt(lambda: setattr(o, "kid", self.kids[op["v"]]))[0]

    def do_kops(self, op, s, t):
        import keys_m
        o = self.k[op["k"]]
        if op["v"] == "-":
            if "KEY_OPS" in o:
                del o["KEY_OPS"]
            return "ok"
        v = FIT[self.fam] if op["v"] == "fit" else self.rnd.choice(UNFIT[self.fam])
        l = self.own([keys_m.spell_op(self.rnd, i) for i in v])
        self.opsval[op["k"]] = v
        return self.attempt(lambda: setattr(o, "key_ops", l))[0]

    def name_of(self, k):
        return [n for n, x in self.k.items() if x is k][0]

    # ------------------------------------------ operations that must not matter
    def do_fail(self, op, s, t):
        """something that is refused"""
        from pycose.keys import CoseKey
        from pycose.messages import CoseMessage
        r, n = self.rnd, op["m"]
        o, x = self.m[n], s["m"][n]
        k = self.k[r.choice(sorted(self.k))]
        cls = self.cls(n)
        w = [v for v in self.w.values() if v]
        bad = self.own({"ALG": "NOALG", "KID": b"x", 77: b"y"})
        bad2 = self.own({"KID": 5, 78: [1]})
        bkey = self.own({"KTY": "SYMMETRIC", "K": b"short", 99: [1]})
        which = r.choice([
            lambda: CoseMessage.decode(b"\xd2\x84\x43\xa1\x01\x00"), lambda: CoseMessage.decode(r.randbytes(20)[1:] + b"\xff"),
            lambda: CoseMessage.decode(r.choice(w)[:-1]) if w else CoseMessage.decode(b""),
            lambda: CoseMessage.decode(r.choice(w).replace(b"\x01", b"\x1f", 1)[:-2]) if w else CoseMessage.decode(b"\x80"),
            lambda: setattr(o, "phdr", bad), lambda: setattr(o, "uhdr", bad2), lambda: o.phdr_update(bad), lambda: o.uhdr_update(bad2),
            lambda: setattr(o, "phdr", r.choice([None, 5, b"x", [1]])),
            lambda: cls(phdr=bad), lambda: cls(uhdr=bad2), lambda: cls(uhdr=bad),
            lambda: setattr(o, "payload", "text"), lambda: setattr(o, "external_aad", "text"), lambda: setattr(self.holder(n), "key", b"raw")
            if not (self.layered(n) and x["n"] == 0) else setattr(o, "payload", 5),
            lambda: CoseKey.from_dict(bkey), lambda: CoseKey.decode(b"\xa1\x01\x63\x61\x62\x63"), lambda: CoseKey.decode(b""),
            lambda: setattr(k, "k" if self.fam != "sign" else "crv", b"short"), lambda: setattr(k, "key_ops", ["NOOP"]),
            lambda: setattr(k, "alg", "NOALG"), lambda: k.__delitem__("KTY"), lambda: k.__delitem__("NOSUCH"),
            lambda: setattr(k, "kid", 5)])
        out, _ = self.attempt(which)
        return out

    def do_tmp(self, op, s, t):
        """another object is created, used and forgotten"""
        from pycose.keys import CoseKey, SymmetricKey
        from pycose.keys import keyparam as P
        from pycose.messages import CoseMessage
        r, n = self.rnd, op["m"]
        cls, k = self.cls(n), self.k[r.choice(sorted(self.k))]
        pd, ud = self.pd[r.choice(sorted(self.pd))], self.ud[r.choice(sorted(self.ud))]
        w = [v for v in self.w.values() if v]

        def edit(o):
            o.phdr_update({"KID": b"tmp", -70070: [1]})
            o.uhdr_update({-70071: b"tmp"})
            o.phdr[-70072] = 1
            o.uhdr[-70073] = 1
            o.phdr.pop(-70070, None)
            o.external_aad = b"tmp"
            o.payload = b"tmp"
            for name in ("recipients", "signers"):
                if hasattr(o, name):
                    for c in getattr(o, name):
                        c.uhdr_update({-70074: 1})
                        c.uhdr[-70075] = 1
                        c.external_aad = b"tmp"
                    getattr(o, name).append(self.make_child({-70076: 1}))
                    getattr(o, name).append(self.make_child(None))

        def scramble(v, top=True):
            """change everything that is inside, in place"""
            if isinstance(v, dict):
                for x in v.values():
                    scramble(x, False)
                if not top:
                    v[-70079] = 1
            elif isinstance(v, list):
                for x in v:
                    scramble(x, False)
                v.append(-70079)

        def defaults():
            o = cls()
            edit(o)
            c = self.make_child(None)
            c.uhdr[-70077] = 2
            c.phdr[-70078] = 2
            if hasattr(c, "recipients"):
                c.recipients.append(self.make_child(None))

        def dicts():
            edit(cls(phdr=pd, uhdr=ud))
            c = self.make_child(ud)
            c.uhdr_update({-70074: 1})

        def setters():
            o = cls()
            o.phdr, o.uhdr = pd, ud
            edit(o)

        def received():
            o = CoseMessage.decode(r.choice(w)) if w else cls()
            edit(o)
            for c in [o] + list(getattr(o, "recipients", [])) + list(getattr(o, "signers", [])):
                scramble(c.phdr)
                scramble(c.uhdr)

        def inside():
            """what is inside the headers of a received message belongs to this message"""
            def hdr(crit):
                return {1: r.choice([1, -7, 5]), -70110: [1, {2: [3]}], -70111: {1: [b"x"]}, 4: b"kid", **({2: [-70110]} if crit else {})}
            ps, us = hdr(True), hdr(False)
            child = [cbor2.dumps({1: -7}), {-70112: [[1]]}, b"sig"]
            body = [cbor2.dumps(ps), us, b"x"]
            arr = {18: body + [b"s"], 98: body + [[child, child]], 17: body + [b"t"], 16: body,
                   97: body + [b"t", [[b"", {1: -3, -70112: [[1]]}, bytes(24)]]], 96: body + [[[b"", {1: -3, -70112: [[1]]}, bytes(24)]]]}
            tag = r.choice(sorted(arr))
            e = cbor2.dumps(cbor2.CBORTag(tag, arr[tag]))

            def contents(o):
                cs = [o] + list(getattr(o, "recipients", [])) + list(getattr(o, "signers", []))
                return [[freeze(x.phdr), freeze(x.uhdr), x.phdr_encoded] for x in cs], cs
            a, b = CoseMessage.decode(e), CoseMessage.decode(e)
            first, _ = contents(b)
            for x in contents(a)[1]:
                scramble(x.phdr)
                scramble(x.uhdr)
            if contents(b)[0] != first or contents(CoseMessage.decode(e))[0] != first:
                raise Violation("the headers of a received message have changed with those of another one")

        def use(o):
            o.phdr = V.spell_header(r, self.p["b"])
            o.payload = b"other payload"
            h = o
            if self.layered(n):
                c = self.make_child(V.spell_header(r, self.u["b"]))
                (o.signers if self.fam == "sign" else o.recipients).append(c)
                h = c if self.fam == "sign" else o
            h.key = k
            h.external_aad = b"other aad"
            o.encode()

        def keycopy():
            how = r.randrange(4)
            if how == 0:
                c = CoseKey.decode(k.encode())
            elif how == 1:
                c = CoseKey.from_dict({(p.identifier if hasattr(p, "identifier") else p): k[p] for p in k})
            elif how == 2:
                d = self.own({"KID": b"opt", "KEY_OPS": ["WRAP"], -70080: [1]})
                c = SymmetricKey(k=b"0123456789abcdef", optional_params=d)
            elif r.random() < 0.7:
                # every way to make a key with optional parameters that the caller keeps
                m = self.materials()
                f = r.choice(m)
                spell = r.random() < 0.5
                d = {("KID" if spell else P.KpKid): b"g"}
                if r.random() < 0.3:
                    d[-70083] = {"list": [1]}
                if r.random() < 0.2:
                    d = {}
                c = f(self.own(d))
            else:
                c = SymmetricKey.generate_key(16)
            c.kid = b"tmp"
            c[-70081] = 5
            if self.fam == "sign" or how >= 2:
                pass
            else:
                c.k = bytes(len(c.k))
            del c["KID"]

        def keydict():
            own = {"KID": b"d", "KEY_OPS": ["WRAP", 6], -70082: {1: [2]}}
            if r.random() < 0.6:
                d = self.own({"KTY": "SYMMETRIC", "K": bytes(16), **own})
            else:
                # the parameters of a key of any type, in a dictionary of the caller
                k2 = r.choice(self.materials())(None)
                d = {p: k2[p] for p in k2}
                d.update({"KID": b"d", "KEY_OPS": ["SIGN", 2] if not isinstance(k2, SymmetricKey) else ["WRAP"], -70082: {1: [2]}})
                d = self.own(d)
            c = CoseKey.from_dict(d)
            c.kid = b"e"
            c.key_ops = [5] if isinstance(c, SymmetricKey) else [1]
            del c["KEY_OPS"]
            del c[-70082]

        def kdf():
            from pycose.algorithms import A128GCM
            from pycose.messages.context import CoseKDFContext, PartyInfo, SuppPubInfo
            h = self.own({"KID": b"kdf"}) if r.random() < 0.3 else {}
            base = None
            for _ in range(2):
                a = CoseKDFContext(A128GCM, SuppPubInfo(16, h) if h else SuppPubInfo(16))
                if a.party_u_info.identity is not None or a.party_v_info.nonce is not None or a.supp_pub_info.protected != h:
                    raise Violation("a fresh KDF context is not empty")
                if not h:
                    base = base or a.encode()
                    if a.encode() != base:
                        raise Violation("a fresh KDF context depends on an earlier one")
                    a.supp_pub_info.protected[5] = b"tmp"
                a.party_u_info.identity = b"tmp"
                a.party_v_info.nonce = b"tmp"
                a.supp_pub_info.other = b"tmp"
                p = PartyInfo()
                p.identity = b"x"

        def recipients():
            """the other recipient classes with keys and dictionaries of the caller"""
            from pycose import messages
            from pycose.keys import EC2Key
            from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
            mac = self.fam == "mac"
            o = (messages.MacMessage if mac else messages.EncMessage)(phdr=self.own(V.spell_header(r, {1: 5} if mac else {1: 3, 5: bytes(12)})),
                                                                     payload=b"payload")
            rc = []
            statics = [EC2Key.generate_key(r.choice(["P_256", "P_384"])) for _ in range(2)]
            pubs = [EC2Key(crv=x.crv, x=x.x, y=x.y) for x in statics]
            was = [x.encode() for x in statics + pubs]
            peer = []
            for n, how in enumerate(r.choice([["kw"], ["es"], ["kw", "es"], ["es", "kw", "es"], ["direct"]])):
                static, pub = statics[n % 2], pubs[n % 2]
                peer.append(static)
                if how == "kw":
                    kek = k if self.fam != "sign" and self.s["k"][self.name_of(k)]["ops"] == "-" and len(k.k) in (16, 24, 32) else SymmetricKey(k=bytes(32))
                    c = KeyWrap(uhdr=self.own(V.spell_header(r, {1: {16: -3, 24: -4, 32: -5}[len(kek.k)], 4: b"kw"})))
                    c.key = kek
                elif how == "es":
                    c = KeyAgreementWithKeyWrap(phdr=self.own(V.spell_header(r, {1: -29})), uhdr=self.own({"KID": b"es"}))
                    c.local_attrs = self.own({V.hdr_class(-2): pub})
                else:
                    c = DirectKeyAgreement(phdr=self.own(V.spell_header(r, {1: -25})))
                    c.local_attrs = self.own({V.hdr_class(-2): pub})
                rc.append(c)
            if r.random() < 0.3:
                rc[0].external_aad = b"tmp"
            o.recipients = self.own(rc)
            w = o.encode()
            d = CoseMessage.decode(w)
            for how, c, static in zip(rc, d.recipients, peer):
                c.key = how.key if type(how).__name__ == "KeyWrap" else static
                if (d.verify_tag(c) if mac else d.decrypt(c) == b"payload") is not True:
                    raise Violation("a recipient does not recover the message")
            o.recipients[0].uhdr[-70090] = 1
            if [x.encode() for x in statics + pubs] != was:
                raise Violation("keys of the caller changed while they were used")

        def ephemeral():
            """two messages never share generated keys"""
            from pycose import messages
            from pycose.keys import EC2Key
            from pycose.messages.recipient import DirectKeyAgreement
            pub = EC2Key.generate_key("P_256")
            pub = EC2Key(crv="P_256", x=pub.x, y=pub.y)
            u = self.own({"KID": b"same"})
            seen = []
            for _ in range(2):
                o = messages.EncMessage(phdr={"ALG": "A128GCM"}, uhdr={"IV": bytes(12)}, payload=b"payload")
                c = DirectKeyAgreement(phdr={"ALG": "ECDH_ES_HKDF_256"}, uhdr=u)
                c.local_attrs = {V.hdr_class(-2): pub}
                o.recipients.append(c)
                w = cbor2.loads(o.encode()).value
                seen.append(repr(w[3][0][1]))
                if len(o.recipients) != 1:
                    raise Violation("a fresh message has recipients already")
            if seen[0] == seen[1]:
                raise Violation("two messages share one ephemeral key")

        def fresh():
            """an object made without arguments is empty, whatever was done to another one"""
            from pycose import messages
            from pycose.messages import recipient as R
            from pycose.messages.signer import CoseSignature
            makers = [getattr(messages, m) for m in ("Sign1Message", "SignMessage", "Mac0Message", "MacMessage", "Enc0Message", "EncMessage")]
            makers += [R.DirectEncryption, R.DirectKeyAgreement, R.KeyWrap, R.KeyAgreementWithKeyWrap, CoseSignature]
            for make in r.sample(makers, 3):
                for _ in range(2):
                    o = make()
                    for a, e in (("phdr", {}), ("uhdr", {}), ("local_attrs", {}), ("recipients", []), ("signers", []), ("external_aad", b""), ("key", None)):
                        if hasattr(o, a) and getattr(o, a) != e:
                            raise Violation("a new %s has %s %r" % (make.__name__, a, getattr(o, a)))
                    for a in ("phdr", "uhdr", "local_attrs"):
                        getattr(o, a)[-70100] = 1
                        getattr(o, a)[V.hdr_class(4)] = b"tmp"
                    for a in ("recipients", "signers"):
                        if hasattr(o, a):
                            getattr(o, a).append(self.make_child(None))
                    o.key = k
                    o.external_aad = b"tmp"

        def peers():
            """recipients with keys of their own"""
            from pycose.keys import EC2Key
            from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap
            cs = [r.choice([DirectKeyAgreement, KeyAgreementWithKeyWrap])() for _ in range(3)]
            ks = [EC2Key.generate_key("P_256") for _ in cs]
            order = list(zip(cs, ks))
            r.shuffle(order)
            for c, x in order:
                c.local_attrs = {V.hdr_class(-2): x}
                c.local_attrs = {V.hdr_class(4): x.x}
            for c, x in zip(cs, ks):
                if c.local_attrs.get(V.hdr_class(-2)) is not x or c.local_attrs.get(V.hdr_class(4)) != x.x:
                    raise Violation("the local attributes of a recipient are those of another one")

        jobs = [fresh, peers, defaults, dicts, setters, received, inside, lambda: use(cls()), keycopy, keydict, kdf, recipients, ephemeral]
        job = r.choice(jobs)
        out, _ = self.attempt(job)
        self.counters["tmp_%s_%s" % (job.__name__.strip("<>"), out + ("" if out == "ok" else self.last_error[:100] if os.environ.get("VERIF_VERBOSE") else ""))] = self.counters.get("tmp_%s_%s" % (job.__name__.strip("<>"), out + ("" if out == "ok" else self.last_error[:100] if os.environ.get("VERIF_VERBOSE") else "")), 0) + 1
        return "ok"


# --------------------------------------------------------------- behaviours
def replay_one(consts, seed, lines, limits=True):
    """one behaviour on the implementation; (Violation, step) or None"""
    if limits:
        try:
            drv = walk.make_driver(Isolation, consts, seed, lines[0]["t"])
        except Violation as v:
            return v, 0, None
    else:
        drv = Isolation(consts, random.Random(repr(seed)))
        drv.start(lines[0]["t"])
    n = 0
    try:
        for n in range(1, len(lines)):
            o, r, t = lines[n]["o"], lines[n]["r"], lines[n]["t"]
            if limits:
                walk.call_step(drv, o, lines[n - 1]["t"], t, r)
            else:
                seen = drv.step(o, lines[n - 1]["t"], t, r)
                if seen != r:
                    raise Violation("outcome: the specification says %r, the library says %r" % (r, seen), {"error": drv.last_error})
                drv.observe(t)
    except Violation as v:
        return v, n, drv
    return None, n, drv


def describe(consts, seed, lines, v, n, kind):
    return {"machine": "isolation", "module": "isolation", "consts": walk.consts_json(consts), "world_seed": list(seed),
            "init": lines[0]["t"], "lines": lines[:n + 1], "what": v.what, "detail": v.detail, "kind": kind,
            "key": "isolation:%s:%s" % (walk.key(lines[n]["o"]), v.what)}


_LINES = None


def _job(args):
    consts, name, n, deadline = args
    common.arm()
    seed = (common.SEED, name, n)
    if time.time() > deadline:
        return None
    v, i, drv = replay_one(consts, seed, _LINES[n])
    return seed, (v.what, describe(consts, seed, _LINES[n], v, i, "alone")) if v else None, i, drv.counters if drv else {}


def warm_up():
    """modules that the CBOR library imports when it first needs them: importing is not what is examined here"""
    import datetime
    import decimal
    import fractions
    import ipaddress
    import re
    import uuid
    import email.message
    import email.parser
    for v in (decimal.Decimal("1.5"), fractions.Fraction(1, 3), datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), re.compile("x"),
              uuid.UUID(int=5), ipaddress.ip_address("127.0.0.1"), ipaddress.ip_network("10.0.0.0/8"), {1, 2}, 2 ** 80, 1.5, cbor2.undefined,
              cbor2.CBORTag(4000, 1), cbor2.CBORSimpleValue(50)):
        cbor2.loads(cbor2.dumps(v))


def _threads(args):
    """several behaviours at the same time"""
    consts, name, ns, deadline = args
    if time.time() > deadline:
        return None
    out = {}

    def one(n):
        seed = (common.SEED, name, n)
        try:
            v, i, drv = replay_one(consts, seed, _LINES[n], limits=False)
            out[n] = (v, i, drv.counters)
        except BaseException as e:
            try:
                out[n] = (common.unexpected(e), 0, {})
            except BaseException as e2:
                out[n] = e2
    warm_up()
    if not getattr(_threads, "warm", False):
        replay_one(consts, (common.SEED, name, "warm"), _LINES[ns[0]], limits=False)
        _threads.warm = True
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=one, args=(n,), daemon=True) for n in ns]
        for t in ts:
            t.start()
        for t in ts:
            t.join(240)
    finally:
        sys.setswitchinterval(old)
    viol, steps = [], 0
    for n in ns:
        if n not in out:
            viol.append(("interleaved operations did not return", describe(consts, (common.SEED, name, n), _LINES[n], Violation("hang"), 0, "threads")))
        elif isinstance(out[n], BaseException):
            raise out[n]
        else:
            v, i, _ = out[n]
            steps += i
            if v:
                viol.append((v.what, describe(consts, (common.SEED, name, n), _LINES[n], v, i, "threads")))
    return viol, steps


def behaviours(report, name, consts, world, num, length, budget, threads=True):
    global _LINES
    t0 = time.time()
    deadline = t0 + budget
    c = dict(consts, Length=length)
    res = common.run_tlc("IsolationRun", c, spec="RunSpec", invariants=["TypeOK", "Trail"], simulate="num=%d" % max(1, num // 8),
                         extra=["-depth", str(length + 5), "-seed", str(common.SEED)], workers=8, timeout=600)
    lines = res.pop("lines")
    if not lines:
        raise SystemExit("the specification printed no behaviour")
    res["states"] = res["generated"] = sum(map(len, lines))
    report.tlc(name + ": random behaviours", res)
    _LINES = sorted(lines, key=walk.key)
    consts = dict(consts, **world)
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    steps = done = 0
    with ctx.Pool(common.WORKERS) as pool:
        for r in pool.imap_unordered(_job, [(consts, name, n, deadline) for n in range(len(_LINES))], chunksize=4):
            if r is None:
                continue
            seed, v, i, counters = r
            done += 1
            steps += i
            if v:
                report.violation("%s: %s" % (name, v[0]), v[1])
            for k, x in counters.items():
                report.count("op_" + k, x)
        report.traces(done)
        rep = {"model": name, "behaviours": done, "steps_executed": steps, "wall_s": round(time.time() - t0, 1)}
        if threads and not report.violations:
            groups = [(consts, name + "/t", list(range(i, min(i + 4, len(_LINES)))), deadline) for i in range(0, len(_LINES), 4)]
            tsteps = n = 0
            for r in pool.imap_unordered(_threads, groups):
                if r is None:
                    continue
                n += 1
                tsteps += r[1]
                for what, d in r[0]:
                    report.violation("%s, concurrently: %s" % (name, what), d)
            rep["concurrent_groups"], rep["concurrent_steps"] = n, tsteps
    report.extra.setdefault("replays", []).append(rep)
    if os.environ.get("VERIF_VERBOSE"):
        print(rep, time.time() - t0, flush=True)
    if not report.violations and steps == 0:
        raise SystemExit("no behaviour was executed")


def replay_isolation(rep):
    consts = {k: set(v) if isinstance(v, list) else v for k, v in rep["consts"].items()}
    common.arm()
    v, n, drv = replay_one(consts, tuple(rep["world_seed"]), rep["lines"])
    if drv:
        print("world:", drv.describe())
    for l in rep["lines"][1:n + 1]:
        print(" ", l["o"], "expected:", l["r"])
    if v:
        print("REPRODUCED: %s %s" % (v.what, v.detail))
        return 1
    print("not reproduced" + (" (it happened between threads)" if rep.get("kind") == "threads" else ""))
    return 0
