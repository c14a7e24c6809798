"""Driver for specs/KeyForms.tla: keys from components, dictionaries, CBOR, PEM and generators."""
import copy
import functools

from cryptography.hazmat.primitives import serialization as ser
from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, ed448, x25519, x448  # noqa: F401

import cborx
import common
import keys_m as K
import ref
import table
import values as V
from common import Violation

FIELD = {"P-256": 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, "P-384": 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, "P-521": 2 ** 521 - 1,
         "secp256k1": 2 ** 256 - 2 ** 32 - 977}
OKP_MODS = {"Ed25519": (ed25519.Ed25519PrivateKey, 32), "Ed448": (ed448.Ed448PrivateKey, 57), "X25519": (x25519.X25519PrivateKey, 32),
            "X448": (x448.X448PrivateKey, 56)}


@functools.lru_cache(None)
def zero_keys(curve, part):
    """keys with leading zero bytes in one of their numbers"""
    rnd = common.rng("zero", curve, part)
    out = []
    if part == "d":
        n = ref.CURVES[curve][1]
        for k in (1, 2, n // 2, n - 1, 1):
            out.append(ref.ec_key(curve, d=rnd.randrange(1, 256 ** (n - k) // (2 if k == 1 else 1))))
        return [k for k in out if k["d"][0] == 0]
    while len(out) < 4:
        k = ref.ec_key(curve, rnd)
        if k[part][0] == 0:
            out.append(k)
    return out


def okp_key(curve, rnd):
    cls, n = OKP_MODS[curve]
    d = rnd.randbytes(n)
    sk = cls.from_private_bytes(d)
    x = sk.public_key().public_bytes(ser.Encoding.Raw, ser.PublicFormat.Raw)
    return {"kty": 1, "d": d, "x": x, "sk": sk}


def negate(curve, y):
    return (FIELD[curve] - int.from_bytes(y, "big")).to_bytes(len(y), "big")


def other_length(rnd, v):
    return v[1:] if v[0] == 0 and rnd.random() < 0.6 else bytes(rnd.choice([1, 1, 2, len(v)])) + v


def no_point(curve, rnd, x):
    n = len(x)
    k = rnd.randrange(6)
    if k == 0:
        return rnd.choice([x + b"\x00", b"\x00" + x, x[1:], x[:-1], x + x])
    if k == 1:
        return (FIELD[curve] + rnd.randrange(1, 5)).to_bytes(n, "big") if FIELD[curve].bit_length() % 8 == 0 else b"\xff" * n
    while True:
        v = rnd.randrange(FIELD[curve]).to_bytes(n, "big")
        try:
            ec.EllipticCurvePublicKey.from_encoded_point(ref.CURVES[curve][0], b"\x02" + v)
        except ValueError:
            return v


def extras(rnd, kty, some=None):
    """optional parameters: (as on the wire, label of the unregistered one)"""
    have = {}
    if some is None:
        some = rnd.random() < 0.6
    if some:
        for p, v in (("kid", V.kid(rnd)), ("alg", rnd.choice(sorted(V.ALG_CLASSES))), ("ops", K.good_ops(rnd, kty)), ("biv", rnd.randbytes(8)),
                     ("unk", V._any(rnd))):
            if rnd.random() < 0.5:
                have[p] = v
    unk = rnd.choice([-70001, "note", 100, "", -13 if kty == "RSA" else -5])
    return have, unk


def spelled(rnd, kty, have, unk):
    """the parameters as a caller may write them"""
    d = {}
    for p, v in have.items():
        lab = unk if p == "unk" else K.spell_param(rnd, kty, p, exact=True)
        if p == "alg":
            v = V.spell_alg(rnd, v)
        elif p == "ops":
            v = [K.spell_op(rnd, o) for o in v]
        else:
            v = V.clone(v)
        d[lab] = v
    return d


def kty_value(rnd, kty, kind):
    if kind == "own":
        i = K.KTY[kty]
    elif kind == "other":
        i = rnd.choice([x for x in K.KTY_NAMES if x != K.KTY[kty]])
    else:
        return rnd.choice([0, 5, 99, -1, "RESERVED", "EC", "", "OK", None, b"", b"EC2", 1.5])
    v = K.spell_kty(rnd, i)
    return v.upper() if isinstance(v, str) else v


def crv_value(rnd, kty, kind, own):
    if kind == "own":
        return K.spell_curve(rnd, own)
    if kind == "other":
        return K.spell_curve(rnd, rnd.choice([x for x in K.CURVE_TYPE[kty] if x != own]))
    if kind in ("okp", "ec2"):
        return K.spell_curve(rnd, rnd.choice(K.CURVE_TYPE["OKP" if kind == "okp" else "EC2"]))
    return rnd.choice([0, 9, 99, -1, "RESERVED", "P-256", "ED", "", None, b"", 1.5, []])


def wire_value(v):
    """classes cannot be written to CBOR, their numbers can"""
    return v.identifier if isinstance(v, type) else [wire_value(x) for x in v] if isinstance(v, list) else v


def build(rnd, kty, a, comp, unk, opt):
    """constructs the key; comp: components with spelled values, opt: optional ones"""
    from pycose import keys
    cls = getattr(keys, K.KEY_CLASS[kty])
    src = a["src"]
    if src == "ctor":
        o = spelled(rnd, kty, opt, unk)
        if a["kty"] != "-":
            o[K.spell_param(rnd, kty, "kty", exact=True)] = kty_value(rnd, kty, a["kty"])
        kw = dict(comp)
        if "crv" not in kw and kty in ("EC2", "OKP"):
            kw["crv"] = None
        if kty == "Sym" and "k" not in kw:
            kw["k"] = b""
        before = snapshot(o)
        if o or rnd.random() < 0.5:
            kw["optional_params"] = o
        k = attempt(lambda: cls(**kw))
        unchanged(o, before)
        return k
    d = spelled(rnd, kty, opt, unk)
    for p, v in comp.items():
        d[K.spell_param(rnd, kty, p, exact=True)] = v
    if a["kty"] != "-":
        d[K.spell_param(rnd, kty, "kty", exact=True)] = kty_value(rnd, kty, a["kty"])
    items = list(d.items())
    rnd.shuffle(items)
    d = dict(items)
    if src == "cbor":
        m = {}
        for lab, v in d.items():
            if isinstance(lab, type):
                lab = lab.identifier
            elif isinstance(lab, str) and lab != unk:
                lab = [i for i, n, _, _ in list(K.COMMON.values()) + list(K.OWN[kty].values()) if n == lab][0]
            m[lab] = wire_value(v)
        return attempt(lambda: keys.CoseKey.decode(cborx.enc(m)))
    before = snapshot(d)
    k = attempt(lambda: keys.CoseKey.from_dict(d) if src == "dict" else cls.from_dict(d))
    unchanged(d, before)
    return k


def snapshot(d):
    return list(d), {k: V.clone(v) for k, v in d.items()}


def unchanged(d, before):
    if list(d) != before[0] or any(type(d[k]) is not type(v) or (d[k] != v and d[k] == d[k]) for k, v in before[1].items()):
        raise Violation("the dictionary of the caller was changed to %r" % (d,))


def attempt(f):
    try:
        return f()
    except Violation:
        raise
    except Exception as e:
        return e


def again(rnd, kty, k, have, unk):
    from pycose import keys
    K.check_key(rnd, kty, k, have, unk)
    enc = k.encode()
    two = keys.CoseKey.decode(enc)
    K.check_key(rnd, kty, two, have, unk)
    three = rnd.choice([copy.deepcopy, lambda k: keys.CoseKey.from_dict(dict(k)), lambda k: type(k).decode(k.encode())])(k)
    K.check_key(rnd, kty, three, have, unk)
    if not all(V.same(*p) for p in ((V.plain(two[n]), V.plain(three[n])) for n in k)):
        raise Violation("two copies of a key differ")
    if rnd.random() < 0.3:                                    # a copy has a life of its own
        three.kid = b"a copy's own"
        three["only here"] = 1
        K.check_key(rnd, kty, k, have, unk)
    if kty == "EC2" and ("x" not in have or "y" not in have):
        raise Violation("a key without its coordinates")


def judge(rnd, kty, e, k, have, unk, what):
    if e["out"] == "open":
        return
    if e["out"] == "bad":
        if not isinstance(k, Exception):
            raise Violation("%s is accepted" % what, {"key": repr(dict(k))[:400]})
        return
    if isinstance(k, Exception):
        raise Violation("%s is refused: %s: %s" % (what, type(k).__name__, k))
    again(rnd, kty, k, have, unk)


# ------------------------------------------------------------------ components
def form_case(c, e, rnd, counts):
    t, a = c["t"], c["a"]
    counts["%s %s" % (t, e["out"])] = counts.get("%s %s" % (t, e["out"]), 0) + 1
    return {"EC2": ec2_case, "OKP": okp_case, "Sym": sym_case, "RSA": rsa_case, "pem": pem_case, "gen": gen_case, "base64": base64_case}[t](a, e, rnd)


def bad_component(rnd, a, falsy=True):
    while True:
        v = K.bad_bytes(rnd)
        if a["src"] == "cbor" and isinstance(v, (bytearray, memoryview)):
            continue
        if isinstance(v, (bytearray, memoryview)) and not len(v):
            continue
        if falsy or (v and not isinstance(v, bool)):
            return v


def ec2_case(a, e, rnd):
    curve = rnd.choice(sorted(FIELD))
    p = rnd.choice(zero_keys(curve, a["lz"])) if a["lz"] != "no" else ref.ec_key(curve, rnd)
    q = ref.ec_key(curve, rnd)
    ks = {"p": p, "q": q}
    comp = {}
    if a["x"] in ks:
        comp["x"] = ks[a["x"]]["x"]
    elif a["x"] == "len":
        comp["x"] = other_length(rnd, p["x"])
    elif a["x"] == "off":
        comp["x"] = no_point(curve, rnd, p["x"])
    elif a["x"] == "bad":
        comp["x"] = bad_component(rnd, a, falsy=False)
    owner = ks[a["x"]] if a["x"] in ks else ks[a["d"]] if a["d"] in ks else p
    if a["y"] in ks:
        comp["y"] = ks[a["y"]]["y"]
    elif a["y"] == "len":
        comp["y"] = other_length(rnd, owner["y"])
    elif a["y"] == "neg":
        comp["y"] = negate(curve, owner["y"])
    elif a["y"] in ("bit", "nbit"):
        comp["y"] = bool(owner["y"][-1] & 1) == (a["y"] == "bit")
    elif a["y"] == "bad":
        comp["y"] = bad_component(rnd, a, falsy=False)
    if a["d"] in ks:
        comp["d"] = ks[a["d"]]["d"]
    elif a["d"] == "bad":
        comp["d"] = bad_component(rnd, a, falsy=False)
    given = dict(comp)
    if a["crv"] != "-":
        comp["crv"] = crv_value(rnd, "EC2", a["crv"], p["crv"])
    opt, unk = extras(rnd, "EC2")
    k = build(rnd, "EC2", a, comp, unk, opt)
    have = None
    if e["out"] == "ok":
        have = dict(opt, crv=p["crv"])
        for n in "xyd":
            v = e[n]
            if v in ks:
                have[n] = ks[v][n]
            elif v == "neg":
                have[n] = negate(curve, owner["y"])
            elif v == "either" and not isinstance(k, Exception):
                have[n] = k.y
                if k.y not in (owner["y"], negate(curve, owner["y"])):
                    raise Violation("the reconstructed y coordinate %s does not belong to x = %s" % (k.y.hex(), owner["x"].hex()))
    judge(rnd, "EC2", e, k, have, unk, "an EC2 key with %s on %s" % (given, curve))


def okp_case(a, e, rnd):
    curve = rnd.choice(sorted(OKP_MODS))
    ident = {v: k for k, v in K.CURVE_NAME.items()}[curve]
    p = okp_key(curve, rnd)
    comp = {}
    for n in "xd":
        if a[n] == "p":
            comp[n] = p[n]
        elif a[n] == "bad":
            comp[n] = bad_component(rnd, a)
    given = dict(comp)
    if a["crv"] != "-":
        comp["crv"] = crv_value(rnd, "OKP", a["crv"], ident)
    opt, unk = extras(rnd, "OKP")
    k = build(rnd, "OKP", a, comp, unk, opt)
    have = dict(opt, crv=ident, **{n: p[n] for n in "xd" if e[n] == "p"})
    judge(rnd, "OKP", e, k, have, unk, "an OKP key with %s on %s" % (given, curve))


def sym_case(a, e, rnd):
    comp = {}
    if a["k"] in ("16", "24", "32"):
        comp["k"] = rnd.choice([rnd.randbytes, bytes])(int(a["k"]))
    elif a["k"] == "short":
        comp["k"] = rnd.randbytes(rnd.choice([0, 1, 7, 8, 12, 15, 17, 20, 23, 25, 31, 33, 48, 64, 256]))
    elif a["k"] == "bad":
        comp["k"] = bad_component(rnd, a)
    opt, unk = extras(rnd, "Sym")
    k = build(rnd, "Sym", a, comp, unk, opt)
    judge(rnd, "Sym", e, k, dict(opt, k=comp.get("k")), unk, "a symmetric key %s" % comp)


def rsa_case(a, e, rnd):
    p = rnd.choice(ref.rsa_pool())
    vals = {n: p[n] for n in ("n", "e", "d", "p", "q", "dp", "dq", "qinv")}
    if rnd.random() < 0.3:                                   # leading zeros are kept as they are given
        n = rnd.choice(sorted(vals))
        vals[n] = b"\x00" + vals[n]
    vals.update({n: rnd.randbytes(rnd.choice([1, 32, 128])) for n in ("r_i", "d_i", "t_i")})
    vals["other"] = [{-10: vals["r_i"], -11: vals["d_i"], -12: vals["t_i"]}] * rnd.choice([1, 2])
    comp = {n: V.clone(vals[n]) for n in sorted(a["have"])}
    if a["bad"] != "-":
        comp[a["bad"]] = bad_component(rnd, a) if a["bad"] != "other" else rnd.choice([b"bytes", "text", 1, None, {}, {1: b""}])
    opt, unk = extras(rnd, "RSA")
    k = build(rnd, "RSA", a, comp, unk, opt)
    judge(rnd, "RSA", e, k, dict(opt, **{n: vals[n] for n in a["have"]}), unk, "an RSA key with %s" % sorted(comp))


# ------------------------------------------------------------------------- PEM
FOREIGN = None


def foreign(rnd):
    k = rnd.randrange(5)
    if k == 0:
        return ec.generate_private_key(ec.BrainpoolP256R1())
    if k == 1:
        return ec.generate_private_key(ec.SECP224R1())
    if k == 2:
        return ec.generate_private_key(ec.BrainpoolP384R1())
    global FOREIGN
    if FOREIGN is None:
        FOREIGN = dsa.generate_private_key(1024)
    return FOREIGN


def pem_case(a, e, rnd):
    from pycose import keys
    fam = a["fam"]
    have = {}
    if fam == "EC2":
        curve = rnd.choice(sorted(FIELD))
        p = rnd.choice(zero_keys(curve, a["lz"])) if a["lz"] != "no" else ref.ec_key(curve, rnd)
        have = {"crv": p["crv"], "x": p["x"], "y": p["y"], "d": p["d"]}
    elif fam == "OKP":
        curve = rnd.choice(sorted(OKP_MODS))
        p = okp_key(curve, rnd)
        have = {"crv": {v: k for k, v in K.CURVE_NAME.items()}[curve], "x": p["x"], "d": p["d"]}
    elif fam == "RSA":
        p = rnd.choice(ref.rsa_pool())
        have = {n: p[n] for n in ("n", "e", "d", "p", "q", "dp", "dq", "qinv")}
    sk = p["sk"] if fam != "foreign" else foreign(rnd)
    password = rnd.choice([b"secret", b"x", "p\u00e4ss".encode(), b"longer password" * 3]) if a["pw"] in ("right", "wrong", "missing") else None
    if a["part"] == "priv":
        fmt = ser.PrivateFormat.TraditionalOpenSSL if a["fmt"] == "old" else ser.PrivateFormat.PKCS8
        text = sk.private_bytes(ser.Encoding.PEM, fmt, ser.BestAvailableEncryption(password) if password else ser.NoEncryption()).decode()
    else:
        fmt = ser.PublicFormat.PKCS1 if a["fmt"] == "old" else ser.PublicFormat.SubjectPublicKeyInfo
        text = sk.public_key().public_bytes(ser.Encoding.PEM, fmt).decode()
        have = {n: v for n, v in have.items() if n in ("crv", "x", "y", "n", "e")}
    given = {"right": password, "wrong": b"wrong", "missing": None, "none": None, "superfluous": b"secret"}[a["pw"]]
    kty = fam if fam != "foreign" else "EC2"
    opt, unk = extras(rnd, kty, some=a["opt"] == "some")
    o = spelled(rnd, kty, opt, unk)
    if a["opt"] == "badkty":
        o[K.spell_param(rnd, kty, "kty", exact=True)] = kty_value(rnd, kty, "other")
    before = snapshot(o)
    kw = {"optional_params": o} if o or rnd.random() < 0.3 else {}
    cls = rnd.choice([keys.CoseKey] + ([getattr(keys, K.KEY_CLASS[kty])]))
    if a["via"] == "priv":
        k = attempt(lambda: cls.from_pem_private_key(text, given, **kw) if given or rnd.random() < 0.5 else cls.from_pem_private_key(text, **kw))
    else:
        k = attempt(lambda: cls.from_pem_public_key(text, **kw))
    unchanged(o, before)
    judge(rnd, kty, e, k, dict(have, **opt), unk, "%s PEM %s" % (fam, a))
    if e["out"] == "ok":                                     # its own text is no key of another kind
        for bad in ("", "-----BEGIN X-----\n-----END X-----\n", text[:len(text) // 2]):
            if not isinstance(attempt(lambda: cls.from_pem_private_key(bad)), Exception):
                raise Violation("a key is read from %r" % bad)


# ------------------------------------------------------------------ generators
def gen_case(a, e, rnd):
    from pycose import keys
    fam = a["fam"]
    cls = getattr(keys, K.KEY_CLASS[fam])
    opt, unk = extras(rnd, fam, some=a["opt"] == "some")
    o = spelled(rnd, fam, opt, unk)
    if a["opt"] == "badkty":
        o[K.spell_param(rnd, fam, "kty", exact=True)] = kty_value(rnd, fam, "other")
    if fam in ("EC2", "OKP"):
        ident = rnd.choice(K.CURVE_TYPE[fam])
        arg = crv_value(rnd, fam, {"own": "own", "foreign": "okp" if fam == "EC2" else "ec2", "unk": "unk"}[a["arg"]], ident)
    elif fam == "Sym":
        arg = {"own": rnd.choice([16, 24, 32]), "foreign": rnd.choice([0, 1, 8, 15, 17, 23, 31, 33, 48, 64, 128, 256, -16]),
               "unk": rnd.choice([None, "16", b"16", [16], 16.5])}[a["arg"]]
    else:
        arg = {"own": rnd.choice([1024, 1024, 2048]), "foreign": rnd.choice([0, 1, 128, 256, -1024]), "unk": rnd.choice([None, "2048", b"", []])}[a["arg"]]
    n = 1 if e["out"] != "ok" or fam == "RSA" else 150 if fam == "EC2" else 20
    seen = set()
    for i in range(n):
        before = snapshot(o)
        k = attempt(lambda: cls.generate_key(arg, **({"optional_params": o} if o or i % 2 else {})))
        unchanged(o, before)
        have = dict(opt)
        if isinstance(k, Exception) or e["out"] != "ok":
            judge(rnd, fam, e, k, have, unk, "generating a key for %r" % (arg,))
            return
        if fam == "EC2":
            curve = K.CURVE_NAME[ident]
            r = ref.ec_key(curve, d=int.from_bytes(k.d, "big"))
            have.update(crv=ident, x=r["x"], y=r["y"], d=r["d"])
        elif fam == "OKP":
            mod, size = OKP_MODS[K.CURVE_NAME[ident]]
            if len(k.d) != size:
                raise Violation("a private value of %d bytes" % len(k.d))
            x = mod.from_private_bytes(k.d).public_key().public_bytes(ser.Encoding.Raw, ser.PublicFormat.Raw)
            have.update(crv=ident, x=x, d=k.d)
        elif fam == "Sym":
            if len(k.k) != arg:
                raise Violation("a key of %d bytes instead of %d" % (len(k.k), arg))
            have.update(k=k.k)
        else:
            v = {p: getattr(k, p) for p in ("n", "e", "d", "p", "q", "dp", "dq", "qinv")}
            num = {p: int.from_bytes(x, "big") for p, x in v.items()}
            if any(x[:1] in (b"", b"\x00") for x in v.values()):
                raise Violation("an RSA value is empty or has leading zeros: %r" % v)
            if num["p"] * num["q"] != num["n"] or num["n"].bit_length() != arg or pow(pow(2, num["e"], num["n"]), num["d"], num["n"]) != 2 \
                    or num["dp"] != num["d"] % (num["p"] - 1) or num["dq"] != num["d"] % (num["q"] - 1) or num["qinv"] * num["q"] % num["p"] != 1:
                raise Violation("the values of a generated RSA key do not belong together: %r" % v)
            have.update(v)
        sec = have.get("d", have.get("k"))
        if sec in seen:
            raise Violation("the same key was generated twice")
        seen.add(sec)
        if i < 5 or (fam == "EC2" and 0 in (k.x[0], k.y[0], k.d[0])):
            judge(rnd, fam, e, k, have, unk, "a generated key")
        else:
            for p, v in have.items():
                if p in K.OWN[fam] and not V.same(V.plain(getattr(k, p)), v):
                    raise Violation("%s of a generated key is %r instead of %r" % (p, getattr(k, p), v))


# ---------------------------------------------------------------------- base64
def base64_case(a, e, rnd):
    import base64
    from pycose import keys
    cls = getattr(keys, rnd.choice(sorted(K.KEY_CLASS.values()) + ["CoseKey"]))
    for b in (rnd.randbytes(a["n"]), bytes(a["n"]), b"\xff" * a["n"], bytes(rnd.choice([0xfb, 0xff, 0xfe, 0x3e, 0x3f]) for _ in range(a["n"]))):
        text = (base64.urlsafe_b64encode(b) if a["alphabet"] == "url" else base64.b64encode(b)).decode()
        if not a["padded"]:
            text = text.rstrip("=")
        got = cls.base64decode(text)
        if got != b or type(got) is not bytes:
            raise Violation("base64 %r is decoded as %r" % (text, got))
        mine = cls.base64encode(b)
        if type(mine) is not str or base64.b64decode(mine) != b or cls.base64decode(mine) != b:
            raise Violation("%d bytes are written in base64 as %r" % (len(b), mine))


def replay_form_case(rep):
    return table.replay(rep, form_case)
