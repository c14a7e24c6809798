"""Driver for specs/Fresh.tla: what the library generates, in this process and in forked ones."""
import os
import pickle
import random

import cbor2

import keylen
import keys_m as K
import recips
import ref
import refmsg
import values as V
from common import Violation

KINDS = ["Sym16", "Sym24", "Sym32", "P-256", "P-384", "P-521", "secp256k1", "Ed25519", "Ed448", "X25519", "X448", "RSA"]
ECDSA = {"P-256": -7, "P-384": -35, "P-521": -36}
SEEN = {}                  # every secret drawn in this process, across worlds
STAT = {}


def in_child(f):
    """f() executed in a forked process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(wr, "wb") as h:
                try:
                    pickle.dump(("ok", f()), h)
                except Violation as v:
                    pickle.dump(("violation", (v.what, v.detail)), h)
                except BaseException as e:
                    pickle.dump(("error", repr(e)), h)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("a forked process ends while it generates a key")
    k, v = pickle.loads(data)
    if k == "violation":
        raise Violation(*v)
    if k == "error":
        raise Violation("generating in a forked process fails: " + v)
    return v


class Fresh:
    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.counters, self.last_error = {}, None
        self.kind = {k: r.choice(KINDS[:-1] if r.random() < 0.95 else KINDS) for k in sorted(consts["Keys"])}
        if r.random() < 0.5:
            self.kind = {k: r.choice(sorted(ECDSA)) for k in self.kind}
        a = V.some_bytes(r)[:2000]
        self.content = dict(zip(sorted(consts["Contents"]), [a, a + b"." if r.random() < 0.5 or not a else V.near(r, a)]))
        self.host = r.choice([h for h in recips.HOSTS])
        self.rsa = r.choice([k for k in ref.rsa_pool() if len(k["n"]) >= 192])
        self.cek = r.randbytes(refmsg.key_len(self.host))
        self.sealed = []
        self.value, self.obj = {}, {}
        random.seed(1)

    def describe(self):
        return {"keys": self.kind, "alg": V.ALG_NAMES[self.host]}

    def start(self, s):
        self.value, self.obj, self.r_of = {}, {}, {}

    def draw(self, atom, value, what):
        """a new atom is a value never seen before"""
        self.counters[what] = self.counters.get(what, 0) + 1
        if value in SEEN:
            raise Violation("a %s was generated before, as %s" % (what, SEEN[value]), {"value": value.hex()})
        SEEN[value] = what
        self.value[atom] = value
        n = len(value)
        if n > 8 and value[:n // 2] == value[n - n // 2:]:
            raise Violation("the halves of a %s are equal" % what, {"value": value.hex()})
        q = STAT.setdefault((what, n), [])
        q.append(value)
        if len(q) == 16:
            # the first byte of the coordinates of P-521 has only one bit
            const = [i for i in range(1 if n == 66 else 0, n) if len({v[i] for v in q}) == 1]
            STAT[what, n] = []
            if const:
                raise Violation("byte %d of %d generated values (%s) is always the same" % (const[0], len(q), what), {"values": [v.hex() for v in q]})

    # ------------------------------------------------------------------- keys
    def generate(self, kind):
        from pycose import keys
        r = self.rnd
        if kind.startswith("Sym"):
            k = keys.SymmetricKey.generate_key(int(kind[3:]))
            return k.encode(), k.k
        if kind == "RSA":
            k = keys.RSAKey.generate_key(1024)
            return k.encode(), k.p
        ident = next(i for i, c in K.CURVE_NAME.items() if c == kind)
        cls = keys.EC2Key if kind in ref.CURVES else keys.OKPKey
        k = cls.generate_key(K.spell_curve(r, ident))
        return k.encode(), k.d

    # --------------------------------------------------------------- messages
    def protect(self, c):
        """a new message with new recipients; the secrets as an independent receiver sees them"""
        r = self.rnd
        w = keylen.World(self.host, r)
        w.payload = r.randbytes(12)
        msg = w.message(None)
        if c == "directkey":
            sl = [recips.Slot(r, "direct", 1)]
            msg.key = V.pycose_key(r, {"kty": 4, "k": self.cek})
        else:
            sl = [recips.Slot(r, "agree" if c == "agree" else "wrap", 1)]
            while not self.suits(sl[0], c):
                sl = [recips.Slot(r, "agree" if c == "agree" else "wrap", 1)]
        x = sl[0]
        o = x.build()
        while getattr(x, "own_ephemeral", False):           # the caller's own ephemeral key
            o = x.build()
        if c == "given":
            o.payload = self.cek
        msg.recipients = [o]
        data = msg.encode()
        body = cbor2.loads(data).value
        k = recips.examine(w, sl, data, {"k": self.cek}, sl)
        e = body[-1][0]
        out = {}
        if c in ("given", "directkey"):
            if k != self.cek:
                raise Violation("the content key given by the caller is not used")
            return {}
        if c != "agree":
            out["cek"] = k
        if c == "nested":
            out["kek"] = x.inner[0].open(e[3][0], x.alg)[0]
        if c in ("agree", "agreewrap"):
            out["eph"] = refmsg.headers_of(e)[-1][-2]
        return out

    @staticmethod
    def suits(x, c):
        if c in ("agree", "agreewrap"):
            if x.inner or x.alg not in ref.ECDH or not ref.ECDH[x.alg][1]:
                return False
            return True
        if c == "nested":
            return bool(x.inner) and x.inner[0].kind == "wrap"
        return x.kind == "wrap" and not x.inner and not (x.alg in ref.ECDH and ref.ECDH[x.alg][1])

    def seal(self):
        """the same content key for the same RSA key"""
        r = self.rnd
        w = keylen.World(self.host, r)
        w.payload = b"p"
        msg = w.message(None)
        from pycose.messages import recipient as R
        o = R.KeyWrap(uhdr={V.hdr_class(1): V.alg_class(-40)})
        o.key = V.pycose_key(r, self.rsa, True)
        o.payload = self.cek
        msg.recipients = [o]
        e = cbor2.loads(msg.encode()).value[-1][0]
        if refmsg.raw_unwrap(-40, self.rsa, e[2]) != self.cek:
            raise Violation("the content key given by the caller is not the one sent")
        return e[2]

    def nonce(self, k, x):
        """the point of an ECDSA signature"""
        from pycose.messages import Sign1Message
        kind = self.kind[k]
        if kind not in ECDSA:
            return None
        m = Sign1Message(phdr={V.hdr_class(1): V.alg_class(ECDSA[kind])}, payload=self.content[x])
        m.key = self.obj[k]
        sig = cbor2.loads(m.encode()).value[3]
        return sig[:len(sig) // 2]

    def step(self, op, s, t, want):
        o = op["o"]
        run = in_child if op.get("via") == "fork" else lambda f: f()
        if o == "seed":
            random.seed(self.rnd.choice([0, 1, 7]))
        elif o == "gen":
            from pycose.keys import CoseKey
            enc, secret = run(lambda: self.generate(self.kind[op["k"]]))
            self.obj[op["k"]] = CoseKey.decode(enc)
            self.draw(want["key"], secret, self.kind[op["k"]] + " key")
        elif o == "build":
            got = run(lambda: self.protect(op["c"]))
            if set(got) != set(want or {}):
                raise Violation("protecting with %s draws %s" % (op["c"], sorted(got)))
            for role, atom in (want or {}).items():
                self.draw(atom, got[role], {"cek": "content key", "kek": "key encryption key", "eph": "ephemeral key"}[role])
        elif o == "seal":
            self.draw(want["seal"], self.seal(), "RSA-OAEP ciphertext")
        elif o == "sign":
            n = self.nonce(op["k"], op["x"])
            if n is not None:
                term = repr(want["nonce"])
                for other, v in self.r_of.items():
                    if v == n and other != term:
                        raise Violation("two signatures of different contents or keys share their nonce", {"terms": [term, other]})
                self.r_of[term] = n
                self.counters["nonce"] = self.counters.get("nonce", 0) + 1
        return want

    def observe(self, t):
        if len(set(self.value.values())) != len(self.value):
            raise Violation("two secrets are equal")
