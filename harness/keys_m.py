"""Driver for specs/Keys.tla: key objects under sequences of changes."""
import cbor2
import cborx
import common
import ref
import values as V
from common import Violation

KTY = {"EC2": 2, "OKP": 1, "RSA": 3, "Sym": 4}
KTY_NAMES = {1: "OKP", 2: "EC2", 3: "RSA", 4: "SYMMETRIC"}
KTY_CLASSES = {1: "KtyOKP", 2: "KtyEC2", 3: "KtyRSA", 4: "KtySymmetric"}
COMMON = {"kty": (1, "KTY", "KpKty", "kty"), "kid": (2, "KID", "KpKid", "kid"), "alg": (3, "ALG", "KpAlg", "alg"),
          "ops": (4, "KEY_OPS", "KpKeyOps", "key_ops"), "biv": (5, "BASE_IV", "KpBaseIV", "base_iv")}
OWN = {
    "EC2": {"crv": (-1, "CURVE", "EC2KpCurve", "crv"), "x": (-2, "X", "EC2KpX", "x"), "y": (-3, "Y", "EC2KpY", "y"), "d": (-4, "D", "EC2KpD", "d")},
    "OKP": {"crv": (-1, "CURVE", "OKPKpCurve", "crv"), "x": (-2, "X", "OKPKpX", "x"), "d": (-4, "D", "OKPKpD", "d")},
    "Sym": {"k": (-1, "K", "SymKpK", "k")},
    "RSA": {n: (-i - 1, f, "RSAKp" + c, n) for i, (n, f, c) in enumerate(
        [("n", "N", "N"), ("e", "E", "E"), ("d", "D", "D"), ("p", "P", "P"), ("q", "Q", "Q"), ("dp", "DP", "DP"), ("dq", "DQ", "DQ"),
         ("qinv", "QINV", "QInv"), ("other", "OTHER", "Other"), ("r_i", "R_I", "Ri"), ("d_i", "D_I", "Di"), ("t_i", "T_I", "Ti")])}}
OPS = {1: "SIGN", 2: "VERIFY", 3: "ENCRYPT", 4: "DECRYPT", 5: "WRAP", 6: "UNWRAP", 7: "DERIVE_KEY", 8: "DERIVE_BITS", 9: "MAC_CREATE", 10: "MAC_VERIFY"}
OPS_CLASSES = {1: "SignOp", 2: "VerifyOp", 3: "EncryptOp", 4: "DecryptOp", 5: "WrapOp", 6: "UnwrapOp", 7: "DeriveKeyOp", 8: "DeriveBitsOp",
               9: "MacCreateOp", 10: "MacVerifyOp"}
SUPPORTED = {"EC2": [1, 2, 7, 8], "OKP": [1, 2, 7, 8], "RSA": [1, 2, 3, 4, 5, 6, 7, 8], "Sym": [3, 4, 5, 6, 9, 10]}
CURVES = {1: "P_256", 2: "P_384", 3: "P_521", 4: "X25519", 5: "X448", 6: "ED25519", 7: "ED448", 8: "SECP256K1"}
CURVE_CLASSES = {1: "P256", 2: "P384", 3: "P521", 4: "X25519", 5: "X448", 6: "Ed25519", 7: "Ed448", 8: "SECP256K1"}
CURVE_TYPE = {"EC2": [1, 2, 3, 8], "OKP": [4, 5, 6, 7]}
CURVE_NAME = {1: "P-256", 2: "P-384", 3: "P-521", 8: "secp256k1", 4: "X25519", 5: "X448", 6: "Ed25519", 7: "Ed448"}
KEY_CLASS = {"EC2": "EC2Key", "OKP": "OKPKey", "RSA": "RSAKey", "Sym": "SymmetricKey"}


def kp(kty, p):
    return COMMON.get(p) or OWN[kty][p]


def spell_param(rnd, kty, p, exact=False):
    """a parameter under its class, number or name"""
    from pycose.keys import keyparam
    i, name, cls, _ = kp(kty, p)
    return rnd.choice([getattr(keyparam, cls), i, name if exact else V.case(rnd, name)])


def all_spellings(rnd, kty, p):
    from pycose.keys import keyparam
    i, name, cls, _ = kp(kty, p)
    return [getattr(keyparam, cls), i, name, V.case(rnd, name)]


def spell_kty(rnd, i):
    from pycose.keys import keytype
    return rnd.choice([getattr(keytype, KTY_CLASSES[i]), i, V.case(rnd, KTY_NAMES[i])])


def spell_curve(rnd, i):
    from pycose.keys import curves
    return rnd.choice([getattr(curves, CURVE_CLASSES[i]), i, V.case(rnd, CURVES[i])])


def spell_op(rnd, i):
    from pycose.keys import keyops
    return rnd.choice([getattr(keyops, OPS_CLASSES[i]), i, OPS[i]])


def bad_bytes(r):
    return r.choice(["text", "", 1, 0, -5, None, 1.5, [], [b"x"], {}, {1: b"x"}, bytearray(b"x" * 16), bytearray(b""), memoryview(b"x" * 32)])


def bad_value(r, kty, p):
    if p == "crv":
        wrong = [c for c in CURVES if c not in CURVE_TYPE[kty]]
        c = r.choice(wrong)
        return r.choice([spell_curve(r, c), spell_curve(r, c), 0, "RESERVED", 9, 99, -1, "P-256", "Curve", "", None, b"", 1.5, {}, [CURVE_TYPE[kty][0]]])
    if p == "alg":
        return r.choice([0, 8, 9, 34, 999, -1, -2, -9, -46, -66000, "NOALG", "", "ES25", b"", b"ES256", None, 1.5, {}])
    if p == "ops":
        sup = SUPPORTED[kty]
        wrong = [o for o in OPS if o not in sup]
        l = [spell_op(r, r.choice(sup)) for _ in range(r.randrange(3))]
        l.insert(r.randrange(len(l) + 1), spell_op(r, r.choice(wrong)))
        good = spell_op(r, sup[0])
        return r.choice([l, l, l, [spell_op(r, r.choice(wrong))], [0], [11], [good, 99], ["NOOP"], [None], [good, "x"], [float(o) for o in r.sample(sup, r.randrange(1, 3))], [good, float(sup[-1])], good, OPS[sup[0]], None, 1, 1.5, (good,),
                         {good: 1}, {}, [[good]], [good, [good]], b""])
    if p == "k" and r.random() < 0.7:
        return r.randbytes(r.choice([0, 1, 8, 12, 15, 17, 20, 23, 25, 31, 33, 40, 48, 64, 128]))
    if p == "other":
        return r.choice([b"bytes", "text", 1, None, {}, {1: b""}])
    return bad_bytes(r)


def good_ops(r, kty):
    return r.sample(SUPPORTED[kty], r.choice([1, 1, 2, 3, len(SUPPORTED[kty])]))


def check_key(r, k, o, have, unk=None):
    """the key object is of this type and has exactly these parameters, in every notation"""
    from pycose import keys
    from pycose.keys import keyparam
    want = {1: KTY[k]}
    for p, v in have.items():
        want[unk if p == "unk" else kp(k, p)[0]] = v
    if type(o) is not getattr(keys, KEY_CLASS[k]):
        raise Violation("the key is a %s" % type(o).__name__)
    if getattr(o.kty, "identifier", None) != KTY[k]:
        raise Violation("the key type is %r" % (o.kty,))
    try:
        enc = o.encode()
    except Exception as e:
        raise Violation("the key cannot be encoded: %s: %s" % (type(e).__name__, e))
    got = cbor2.loads(enc)
    if type(got) is not dict or not V.same_map(got, want):
        raise Violation("the key is encoded as %s instead of %r" % (enc.hex()[:600], want))
    if not V.same_map({a: V.plain(b) for a, b in V.unspell(o).items()}, want):
        raise Violation("the parameters are %r instead of %r" % (V.unspell(o), want))
    if len(o) != len(want):
        raise Violation("the key has %d parameters instead of %d" % (len(o), len(want)))
    for p in sorted(set(COMMON) - {"kty"} | set(OWN[k]) | ({"unk"} if unk is not None else set())):
        names = [unk] if p == "unk" else all_spellings(r, k, p)
        for n in names:
            if (n in o) != (p in have):
                raise Violation("parameter %s is%s found as %r" % (p, " not" if p in have else "", n))
            if p in have:
                if not V.same(V.plain(o[n]), have[p]):
                    raise Violation("parameter %s is %r as %r, not %r" % (p, o[n], n, have[p]))
            else:
                try:
                    x = o[n]
                except KeyError:
                    continue
                raise Violation("parameter %s is absent and read as %r" % (p, x))
        if p != "unk":
            got = V.plain(getattr(o, kp(k, p)[3]))
            want_attr = have[p] if p in have else None if p == "alg" else [] if p in ("ops", "other") else b""
            if not V.same(got, want_attr):
                raise Violation("attribute %s is %r instead of %r" % (p, got, want_attr))
            if p in have and getattr(keyparam, kp(k, p)[2]) not in set(iter(o)):
                raise Violation("parameter %s is not kept under its class" % p)
    repr(o)


class Keys:
    def __init__(self, consts, rnd):
        self.c, self.rnd = consts, rnd
        self.kty = k = consts["Kty"]
        self.counters = {"kty " + k: 1}
        self.last_error = None
        r = rnd
        self.val = {}
        self.params = set(COMMON) - {"kty"} | set(OWN[k])
        # values as on the wire
        ops = good_ops(r, k), good_ops(r, k)
        while set(ops[0]) == set(ops[1]):
            ops = ops[0], good_ops(r, k)
        self.val["ops"] = ops
        self.val["alg"] = tuple(r.sample(sorted(V.ALG_CLASSES), 2))
        a = V.kid(r)
        self.val["kid"] = (a, V.near(r, a) if a else b"\x00")
        a = r.randbytes(r.choice([1, 7, 8, 12, 13]))
        self.val["biv"] = (a, r.choice([V.near(r, a), b""]))
        taken = {i for i, _, _, _ in COMMON.values()} | {i for i, _, _, _ in OWN[k].values()}
        names = {n for _, n, _, _ in COMMON.values()} | {n for _, n, _, _ in OWN[k].values()}
        labels = [x for x in [0, 6, 7, 100, -3, -4, -5, -13, -14, -70001, 2 ** 33, -2 ** 33, "note", "", "Y", "N", "K", "KIDS", "\u00fc", "QINV", "use"]
                  if x not in taken and x not in names]
        self.unk = r.choice(labels)
        while True:
            a, b = V._any(r), V._any(r)
            if not V.same(a, b):
                break
        self.val["unk"] = (a, b)
        if k == "EC2":
            c1, c2 = r.sample(CURVE_TYPE[k], 2)
            ks = [ref.ec_key(CURVE_NAME[c], r) for c in (c1, c1, c2)]
            self.val["crv"] = (c1, c2)
            for p in "xyd":
                self.val[p] = tuple(q[p] for q in ks)
        elif k == "OKP":
            c1, c2 = r.sample(CURVE_TYPE[k], 2)
            self.val["crv"] = (c1, c2)
            n = {4: 32, 5: 56, 6: 32, 7: 57}[c1]
            for p in "xd":
                self.val[p] = (r.randbytes(n), r.randbytes(n))
        elif k == "Sym":
            self.val["k"] = tuple(r.randbytes(n) for n in r.choices([16, 24, 32], k=2))
        else:
            one, two = r.sample(ref.rsa_pool(), 2)
            for p in ("n", "d", "p", "q", "dp", "dq", "qinv"):
                self.val[p] = (one[p], two[p])
            self.val["e"] = (b"\x01\x00\x01", b"\x03")
            for p in ("r_i", "d_i", "t_i"):
                self.val[p] = (r.randbytes(r.choice([1, 16, 64])),)
            self.val["other"] = ([{-10: self.val["r_i"][0], -11: self.val["d_i"][0], -12: self.val["t_i"][0]}],)

    def describe(self):
        return {"kty": self.kty, "unregistered": self.unk, "values": repr({p: v for p, v in self.val.items() if p not in ("n", "d", "p", "q")})[:300]}

    # ------------------------------------------------------------- abstraction
    def raw(self, p, v):
        return self.val[p][int(v) - 1]

    def label(self, p):
        return self.unk if p == "unk" else kp(self.kty, p)[0]

    def wire(self, s):
        m = {1: KTY[self.kty]}
        for p, v in s.items():
            if v != "-":
                m[self.label(p)] = self.raw(p, v)
        return m

    def concrete(self, p, v):
        """a value as a caller may write it"""
        r = self.rnd
        if v == "bad":
            return bad_value(r, self.kty, p)
        w = self.raw(p, v)
        if p == "alg":
            return V.spell_alg(r, w)
        if p == "crv":
            return spell_curve(r, w)
        if p == "ops":
            return [spell_op(r, o) for o in w]
        return V.clone(w)

    def spelled(self, p):
        return self.unk if p == "unk" else spell_param(self.rnd, self.kty, p)

    def known(self, p, got):
        """which abstract value this is"""
        got = V.plain(got)
        for i, w in enumerate(self.val[p]):
            if V.same(got, w):
                return str(i + 1)
        return repr(got)[:80]

    # ---------------------------------------------------------------- objects
    def start(self, s):
        from pycose import keys
        r, k = self.rnd, self.kty
        m = self.wire(s)
        how = r.randrange(3)
        if how == 0:
            self.obj = keys.CoseKey.decode(cborx.enc(m))
        elif how == 1:
            self.obj = keys.CoseKey.from_dict(self.spelled_dict(s))
        else:
            opt = {q: v for q, v in self.spelled_dict(s, skip=set(OWN[k]) | {"kty"}).items()}
            own = {("crv" if p == "crv" else p): self.concrete(p, s[p]) for p in OWN[k] if s[p] != "-"}
            self.obj = getattr(keys, KEY_CLASS[k])(optional_params=opt, **own)

    def spelled_dict(self, s, skip=()):
        """a dictionary that describes the key (names exactly as registered)"""
        r, k = self.rnd, self.kty
        d = {}
        if "kty" not in skip:
            t = spell_kty(r, KTY[k])
            d[spell_param(r, k, "kty", exact=True)] = t.upper() if isinstance(t, str) else t
        for p, v in s.items():
            if v != "-" and p not in skip:
                d[self.unk if p == "unk" else spell_param(r, k, p, exact=True)] = self.concrete(p, v)
        items = list(d.items())
        r.shuffle(items)
        return dict(items)

    # ------------------------------------------------------------- observation
    def observe(self, t, obj=None):
        have = {p: self.raw(p, v) for p, v in t.items() if v != "-"}
        try:
            check_key(self.rnd, self.kty, obj or self.obj, have, self.unk)
        except Violation as v:
            raise Violation(v.what, dict(v.detail, state=t))

    # -------------------------------------------------------------- operations
    def attempt(self, f):
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:
            self.last_error = "%s: %s" % (type(e).__name__, e)
            return "bad", None

    def step(self, op, s, t, r):
        self.last_error = None
        self.expect_open = r == "open"
        out = getattr(self, "do_" + op["name"])(op, s, t)
        return "open" if r == "open" else out

    def do_set(self, op, s, t):
        v = self.concrete(op["p"], op["v"])
        if op["via"] == "attr":
            return self.attempt(lambda: setattr(self.obj, kp(self.kty, op["p"])[3], v))[0]
        n = self.spelled(op["p"])
        if self.rnd.random() < 0.25:
            return self.attempt(lambda: self.obj.update({n: v}))[0]
        return self.attempt(lambda: self.obj.__setitem__(n, v))[0]

    def do_kty(self, op, s, t):
        r = self.rnd
        if op["v"] == "same":
            v = spell_kty(r, KTY[self.kty])
        elif op["v"] == "other":
            v = spell_kty(r, r.choice([i for i in KTY_NAMES if i != KTY[self.kty]]))
        else:
            v = r.choice([0, "RESERVED", 5, -1, "", "EC", None, b"", 1.5, [KTY[self.kty]], {}])
        if op["via"] == "attr":
            return self.attempt(lambda: setattr(self.obj, "kty", v))[0]
        n = spell_param(r, self.kty, "kty")
        return self.attempt(lambda: self.obj.__setitem__(n, v))[0]

    def do_sdef(self, op, s, t):
        v, n = self.concrete(op["p"], op["v"]), self.spelled(op["p"])
        out, got = self.attempt(lambda: self.obj.setdefault(n, v))
        if out == "bad":
            return "bad"
        if s[op["p"]] == "-":
            return op["v"] if op["v"] != "bad" else "ok"     # what setdefault returns for a new entry is not fixed
        return self.known(op["p"], got)

    def do_del(self, op, s, t):
        n = self.spelled(op["p"])
        return self.attempt(lambda: self.obj.__delitem__(n))[0]

    def do_pop(self, op, s, t):
        n = self.spelled(op["p"])
        mark = object()
        out, got = self.attempt(lambda: self.obj.pop(n) if op["d"] == "none" else self.obj.pop(n, mark))
        return out if out == "bad" else "dflt" if got is mark else self.known(op["p"], got)

    def do_get(self, op, s, t):
        n = self.spelled(op["p"])
        mark = object()
        out, got = self.attempt(lambda: self.obj[n] if op["d"] == "none" else self.obj.get(n, mark))
        return out if out == "bad" else "dflt" if got is mark else self.known(op["p"], got)

    def do_recode(self, op, s, t):
        from pycose import keys
        r, k = self.rnd, self.kty
        how = r.randrange(4)
        f = [lambda: keys.CoseKey.decode(self.obj.encode()), lambda: getattr(keys, KEY_CLASS[k]).decode(self.obj.encode()),
             lambda: keys.CoseKey.from_dict(dict(self.obj)), lambda: getattr(keys, KEY_CLASS[k]).from_dict(self.spelled_dict(s))][how]
        out, new = self.attempt(f)
        if out == "bad" or self.expect_open:
            return out
        try:
            self.observe(s, new)
        except Violation as v:
            if self.expected_completion(s, new):
                return "completed"
            raise Violation("decoded again: " + v.what, v.detail)
        if r.random() < 0.5:
            self.obj = new
        return "same"

    def expected_completion(self, s, new):
        """only coordinates were added, and they are those of the private key or a point on the curve"""
        if self.kty != "EC2":
            return False
        full = {p: v for p, v in s.items() if v != "-"}
        if s["d"] != "-":
            full["x"] = full["y"] = s["d"]
            self.observe(dict(s, **full), new)
            return True
        if s["x"] == "-" or s["y"] != "-":
            return False
        i = int(s["x"]) - 1
        x, y = self.val["x"][i], self.val["y"][i]
        p = {"P-256": 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, "P-384": 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, "P-521": 2 ** 521 - 1,
             "secp256k1": 2 ** 256 - 2 ** 32 - 977}[CURVE_NAME[self.raw("crv", s["crv"])]]
        neg = (p - int.from_bytes(y, "big")).to_bytes(len(y), "big")
        if new.y not in (y, neg):
            raise Violation("the reconstructed y coordinate %s is not that of x = %s" % (new.y.hex(), x.hex()))
        keep = self.val["y"]
        try:
            self.val["y"] = tuple(new.y if j == i else w for j, w in enumerate(keep))
            self.observe(dict(s, y=s["x"]), new)
        finally:
            self.val["y"] = keep
        return True


# ------------------------------------------------------- specs/KeysTrace.tla
RSA_PRIV, RSA_MORE = ["d", "p", "q", "dp", "dq", "qinv"], ["other", "r_i", "d_i", "t_i"]


class Client:
    """several keys of any type, every parameter"""

    def __init__(self, args, rnd):
        r = self.r = rnd
        self.d = [Keys({"Kty": r.choice(["EC2", "EC2", "OKP", "RSA", "Sym"])}, r) for _ in range(r.choice([1, 2, 3, 4]))]
        self.counters = {}

    def describe(self):
        return [d.describe() for d in self.d]

    def begin(self):
        r, out = self.r, []
        for d in self.d:
            ps = set(OWN[d.kty]) | set(COMMON) - {"kty"} | {"unk"}
            s = {p: "-" for p in ps}
            for p in ("alg", "kid", "ops", "biv", "unk"):
                if r.random() < 0.4:
                    s[p] = r.choice("12")
            if d.kty == "EC2":
                i = r.choice("123")
                s["crv"] = "2" if i == "3" else "1"
                s["x"] = s["y"] = i
                if r.random() < 0.6:
                    s["d"] = i
            elif d.kty == "OKP":
                s["crv"] = r.choice("12")
                s.update({"x": r.choice("-12"), "d": r.choice("12")} if r.random() < 0.5 else {"x": r.choice("12"), "d": r.choice("-12")})
                s["crv"] = "1"
            elif d.kty == "Sym":
                s["k"] = r.choice("12")
            else:
                s["n"] = s["e"] = "1"
                if r.random() < 0.6:
                    s.update({p: "1" for p in RSA_PRIV})
                    if r.random() < 0.4:
                        s.update({p: "1" for p in RSA_MORE})
            d.start(s)
            out.append({"kty": d.kty, "s": s})
        return out

    def event(self):
        r = self.r
        i = r.randrange(len(self.d))
        d = self.d[i]
        p = r.choice(sorted(set(OWN[d.kty]) | set(COMMON) - {"kty"} | {"unk"}))
        k = r.random()
        n = len(d.val[p])
        v = str(r.randrange(1, n + 1))
        if k < 0.35:
            via = "item" if p == "unk" else r.choice(["attr", "item"])
            op = {"name": "set", "p": p, "v": v if p == "unk" or r.random() < 0.6 else "bad", "via": via}
        elif k < 0.4:
            op = {"name": "kty", "v": r.choice(["same", "other", "bad"]), "via": r.choice(["attr", "item"])}
        elif k < 0.5:
            op = {"name": "sdef", "p": p, "v": v if p == "unk" or r.random() < 0.6 else "bad"}
        elif k < 0.65:
            op = {"name": "del", "p": r.choice([p] * 9 + ["kty"])}
        elif k < 0.75:
            op = {"name": "pop", "p": p, "d": r.choice(["none", "dflt"])}
        elif k < 0.85:
            op = {"name": "get", "p": p, "d": r.choice(["none", "dflt"])}
        else:
            op = {"name": "recode"}
        s = self.abstract(d, d.obj)
        d.expect_open = False
        d.last_error = None
        if op["name"] == "recode":
            res = self.recode(d, s)
        else:
            res = getattr(d, "do_" + op["name"])(op, s, None)
            if op["name"] == "sdef" and res == "ok":
                res = "accepted"
        op["i"] = i + 1
        look = [j for j in range(len(self.d)) if j == i or r.random() < 0.5] if r.random() < 0.8 else []
        return {"o": op, "r": res, "t": [{"i": j + 1, "s": self.full(j)} for j in look]}

    def abstract(self, d, obj):
        got = cbor2.loads(obj.encode())
        out = {p: "-" for p in set(OWN[d.kty]) | set(COMMON) - {"kty"} | {"unk"}}
        for lab, v in got.items():
            if lab == 1 and type(lab) is int:
                if v != KTY[d.kty]:
                    out["kty"] = repr(v)
                continue
            p = next((p for p in out if p != "kty" and type(d.label(p)) is type(lab) and d.label(p) == lab), None)
            if p is None:
                out["another"] = repr((lab, v))[:80]
            else:
                out[p] = d.known(p, v)
        return out

    def full(self, j):
        d = self.d[j]
        s = self.abstract(d, d.obj)
        if all(p in d.val and (v == "-" or len(v) == 1) for p, v in s.items()) and self.r.random() < 0.3:
            d.observe(s)
        return s

    def recode(self, d, s):
        from pycose import keys
        r = self.r
        f = [lambda: keys.CoseKey.decode(d.obj.encode()), lambda: getattr(keys, KEY_CLASS[d.kty]).decode(d.obj.encode()),
             lambda: keys.CoseKey.from_dict(dict(d.obj)), lambda: getattr(keys, KEY_CLASS[d.kty]).from_dict(d.spelled_dict(s))][r.randrange(4)]
        out, new = d.attempt(f)
        if out == "bad":
            return out
        t = self.abstract(d, new)
        if t == s:
            if r.random() < 0.5:
                d.obj = new
            return "same"
        try:
            if d.expected_completion(s, new):
                return "completed"
        except Violation as v:
            return "changed: " + v.what
        return "changed"
