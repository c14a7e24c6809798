"""Drivers for specs/Thumb.tla."""
import hashlib

import cbor2

import cborx
import values as V
from common import Violation

HASHES = [-14, -15, -16, -17, -18, -43, -44, -45]


def digest(f, n, data):
    if f.startswith("shake"):
        return {hashlib.new(f, data).digest(n)}
    if f == "sha512_256":
        out = {hashlib.sha512(data).digest()[:n]}
        try:
            out.add(hashlib.new(f, data).digest())
        except ValueError:
            pass
        return out
    return {hashlib.new(f, data).digest()[:n]}


def hash_case(c, expected, r, counts):
    n = c["len"]
    data = r.choice([r.randbytes(n), bytes(n), b"\xff" * n])
    alg = V.alg_class(c["a"])
    got = alg.compute_hash(data)
    if type(got) is not bytes or got not in digest(expected["f"], expected["n"], data):
        raise Violation("algorithm %d hashes %d bytes to %r" % (c["a"], n, got))


def replay_hash_case(rep):
    import table
    return table.replay(rep, hash_case)


class Thumb:
    def __init__(self, consts, rnd):
        self.rnd = r = rnd
        self.counters, self.last_error = {}, None
        algs = sorted(consts["Algs"])
        self.alg = dict(zip(algs, r.sample(HASHES, len(algs))))
        c = r.choice([b"\x30\x82" + r.randbytes(300), r.randbytes(r.choice([1, 32, 64, 200])), bytes(40), r.randbytes(2)])
        self.cert = {}
        for x in sorted(consts["Certs"]):
            while c in self.cert.values() or self.is_wrapped(c):
                c = V.near(r, c)
            self.cert[x] = c
        self.near = {}
        for x, c in self.cert.items():
            n = V.near(r, c)
            while n in self.cert.values() or n in [cborx.enc(y) for y in self.cert.values()]:
                n = r.randbytes(30)
            self.near[x] = n
        self.obj = {}

        def flip(d, n=r.randrange(8 * 8)):
            d = bytearray(d)
            d[n // 8] ^= 1 << n % 8
            return bytes(d)
        self.spoil = {"longer": r.choice([lambda d: d + b"\0", lambda d: d + d, lambda d: b"\0" + d, lambda d: d + d[:8]]),
                      "shorter": r.choice([lambda d: d[:-1], lambda d: d[1:], lambda d: d[:4], lambda d: d[:7]]), "flipped": flip}

    @staticmethod
    def is_wrapped(c):
        try:
            return type(cbor2.loads(c)) is bytes
        except Exception:
            return False

    def describe(self):
        return {"algs": self.alg, "certs": {k: v.hex()[:40] for k, v in self.cert.items()}}

    def thing(self, x):
        x = list(x)
        if x[0] == "w":
            c = self.cert[x[1]]
            w = self.rnd.choice([None, None, 4, 8])
            return cborx.head(2, len(c), w) + c if w else cborx.enc(c)
        if x[0] == "n":
            return self.near[x[1]]
        return self.cert[x[0]]

    def stored(self, x):
        """what a digest term was computed from: the wrapped form in its plain serialization"""
        x = list(x)
        return cborx.enc(self.cert[x[1]]) if x[0] == "w" else self.cert[x[0]]

    def start(self, s):
        pass

    def step(self, op, s, t, r):
        from pycose.extensions.x509 import X5T
        from pycose.headers import X5t
        from pycose.messages import CoseMessage, Enc0Message
        k, rnd = op["k"], self.rnd
        if k == "make":
            x = self.stored(op["x"]) if not op["cbor"] else self.thing(op["x"])
            self.obj[op["s"]] = X5T.from_certificate(V.alg_class(self.alg[op["a"]]), x, op["cbor"]) if op["cbor"] or rnd.random() < 0.5 else \
                X5T.from_certificate(V.alg_class(self.alg[op["a"]]), x)
            return "ok"
        o = self.obj[op["s"]] if k != "copy" else None
        if k == "alg":
            o.alg = V.alg_class(self.alg[op["a"]])
        elif k == "odd":
            o.thumbprint = None if op["d"][0] == "none" else b""
        elif k == "spoil":
            d = o.thumbprint
            d = self.spoil[op["how"]](d)
            o.thumbprint = bytes(d)
        elif k == "copy":
            u = self.obj[op["u"]]
            self.obj[op["s"]] = X5T(u.alg, u.thumbprint)
        elif k == "item":
            e = o.encode()
            e = list(e)
            if rnd.random() < 0.5:
                e[0] = V.spell_alg(rnd, e[0].identifier if hasattr(e[0], "identifier") else e[0])
            self.obj[op["s"]] = X5T.decode(e)
        elif k == "wire":
            e = list(o.encode())
            e[0] = e[0].identifier if hasattr(e[0], "identifier") else e[0]
            self.obj[op["s"]] = X5T.decode(cbor2.loads(cborx.enc(e)))
        elif k == "header":
            b = rnd.choice("pu")
            m = Enc0Message(**{b + "hdr": {X5t: o.encode()}}, payload=b"p")
            got = CoseMessage.decode(m.encode(encrypt=False))
            self.obj[op["s"]] = X5T.decode(getattr(got, b + "hdr")[X5t])
        elif k == "match":
            try:
                res = o.matches(self.thing(op["x"]) if op["cbor"] or op["x"][0] == "n" else self.stored(op["x"]), op["cbor"])
            except Exception:
                return "no"
            if res is not True and res is not False:
                raise Violation("matches() returns %r" % (res,))
            return "yes" if res else "no"
        elif k == "equal":
            res = o == self.obj[op["u"]]
            return "yes" if res else "no"
        return "ok"

    def observe(self, t):
        for s, v in t.items():
            if v["alg"] == "-":
                continue
            o = self.obj[s]
            alg = self.alg[v["alg"]]
            if o.alg is not V.alg_class(alg):
                raise Violation("the thumbprint's algorithm is %r" % (o.alg,))
            d = v["d"]
            if d[0] == "none" and o.thumbprint is not None or d[0] == "empty" and o.thumbprint != b"":
                raise Violation("the thumbprint is %r" % (o.thumbprint,))
            if d[0] == "H":
                a = self.alg[d[1]]
                f, n = FUNC[a]
                if o.thumbprint not in digest(f, n, self.stored(d[2])):
                    raise Violation("the thumbprint is %r" % (o.thumbprint,))
            e = o.encode()
            if len(e) != 2 or (e[0].identifier if hasattr(e[0], "identifier") else e[0]) != alg or e[1] != o.thumbprint:
                raise Violation("the thumbprint encodes to %r" % (e,))


FUNC = {-14: ("sha1", 20), -15: ("sha256", 8), -16: ("sha256", 32), -17: ("sha512_256", 32), -18: ("shake_128", 32), -43: ("sha384", 48),
        -44: ("sha512", 64), -45: ("shake_256", 64)}
