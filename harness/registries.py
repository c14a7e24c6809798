"""Driver for specs/Registry.tla."""
import cbor2

import cborx
import ref
import values as V
from common import Violation


def modules(k):
    from pycose import algorithms, headers
    from pycose.keys import curves, keyops, keyparam, keytype
    return {"alg": (algorithms, "CoseAlgorithm"), "hdr": (headers, "CoseHeaderAttribute"), "crv": (curves, "CoseCurve"), "kty": (keytype, "KTY"), "ops": (keyops, "KeyOps"),
            "common": (keyparam, "KeyParam"), "ec2": (keyparam, "EC2KeyParam"), "okp": (keyparam, "OKPKeyParam"), "sym": (keyparam, "SymmetricKeyParam"),
            "rsa": (keyparam, "RSAKeyParam")}[k]


def odd(k, s, r):
    names = {"alg": list(V.ALG_NAMES.values()), "hdr": list(V.NAMES.values()), "crv": ["P_256", "ED25519"], "kty": ["EC2", "OKP"], "ops": ["SIGN", "WRAP"],
             "common": ["KTY", "ALG"], "ec2": ["CURVE", "X"], "okp": ["CURVE", "X"], "sym": ["K"], "rsa": ["QINV", "R_I"]}[k]
    n = r.choice(names)
    return {"longer": lambda: n + "X", "shorter": lambda: n[:-1] + "\u00df", "space": lambda: r.choice([" " + n, n + " ", n + "\0"]),
            "of others": lambda: r.choice(["MAC_CREATE_", "P-256", "HMAC 256/64", "EdDSA ", "COSE", "RESERVED_"]), "empty": lambda: "", "bytes": lambda: n.encode(),
            "none": lambda: None, "digits": lambda: "1", "class name": lambda: r.choice(["CoseAlgorithm", "SymKpKx", "_AesGcm", "EC2KpX_"]),
            "float": lambda: 1.5}[s]()


def near(c, e, r):
    """a name close to the one of an entry, which is no entry's name"""
    n, cls = e["near"]
    for _ in range(8):
        x = {"squashed": lambda: "".join(ch for ch in n if ch not in "_-/"),
             "separators": lambda: r.choice([n.replace("_", r.choice("-/. ")), n.replace("-", r.choice(["_", "", " "])), n.replace("/", r.choice("_-"))]),
             "padded": lambda: r.choice([" " + n, n + " ", "\t" + n, n + "\n", "_" + n, n + "_", "'" + n + "'", n + "\0"]),
             "clipped": lambda: r.choice([n[:-1], n[1:], n.split("_")[0], n.split("_")[-1], n[:len(n) // 2]]),
             "extended": lambda: r.choice([n + n[-1], n + "_128", "COSE_" + n, n + "S", n + "." + n]),
             "decimal": lambda: r.choice([str(c["i"]), "+%d" % c["i"], "0%d" % c["i"], "%d.0" % c["i"], hex(c["i"])]),
             "class text": lambda: r.choice(["<class %s>" % cls, "pycose.algorithms.%s" % cls, cls + "()", "%s: %s" % (n, c["i"])])}[c["s"]]()
        x = V.case(r, x) if r.random() < 0.5 else x
        if x.upper() not in e["all"]:
            return x
    return None


def case(c, expected, r, counts):
    mod, base = modules(c["k"])
    base = getattr(mod, base)
    want = None if expected["cls"] == "none" else getattr(mod, expected["cls"])
    n = expected["name"]
    s, i = c["s"], c["i"]
    if s == "class":
        x = want
    elif s == "id":
        x = i
    elif expected["near"]:
        x = near(c, expected, r)
        if x is None:
            return
        i = None
    elif n == "none":
        x = odd(c["k"], s, r)
    else:
        x = {"name": n, "lower": n.lower(), "upper": n.upper(), "swap": "".join(ch.lower() if r.random() < 0.5 else ch.upper() for ch in n)}[s]
    try:
        got = base.from_id(x) if r.random() < 0.5 else base.from_id(x, False)
    except Exception as e:
        if want is not None:
            raise Violation("%s: %r does not resolve: %r" % (c["k"], x, e))
        through_use(c, x, None, r, None)
        counts["unknown"] = counts.get("unknown", 0) + 1
        return
    if want is None:
        raise Violation("%s: the unknown %r resolves to %r" % (c["k"], x, got))
    if got is not want:
        raise Violation("%s: %r resolves to %r instead of %r" % (c["k"], x, got, want))
    if got.identifier != i or type(got.identifier) is not int or got.fullname != n:
        raise Violation("%s: %r has identifier %r and name %r" % (c["k"], got, got.identifier, got.fullname))
    through_use(c, x, i, r, want)


def value_of(label):
    return {1: -7, 2: [4], 3: 0, 4: b"k", 5: b"iv", 6: b"p", 9: b"c", 10: b"x", -1: {1: 1, -1: 4, -2: bytes(32)}, -2: {1: 1, -1: 6, -2: bytes(32)}}.get(label, b"value")


EC = None


def through_use(c, x, i, r, want):
    """on the wire it is the identifier; what is unknown is refused where it would be used"""
    global EC
    from pycose.keys import CoseKey, EC2Key, OKPKey, SymmetricKey
    from pycose.messages import CoseMessage, Enc0Message
    if EC is None:
        EC = ref.ec_key("P-256", r), ref.rsa_pool()[0]
    k = c["k"]
    if c["s"] in ("bytes", "none", "float"):
        if k in ("alg",):
            refuse(lambda: Enc0Message(phdr={1: x}, payload=b""), k, x)
        return
    if k == "hdr":
        if i is None:
            return
        b = r.choice("pu")
        m = Enc0Message(**{b + "hdr": {x: value_of(i)}}, payload=b"x")
        body = cbor2.loads(m.encode(encrypt=False)).value
        w = cbor2.loads(body[0]) if b == "p" else body[1]
        if list(w) != [i]:
            raise Violation("header parameter %r appears as %r" % (x, list(w)))
        m = CoseMessage.decode(cborx.enc(cborx.Tag(16, [cborx.enc({i: value_of(i)}), {}, b""])))
        if list(m.phdr) != [want]:
            raise Violation("header label %d is received as %r" % (i, list(m.phdr)))
    elif k == "alg":
        def f():
            return Enc0Message(uhdr={r.choice([1, "ALG", V.hdr_class(1)]): x}, payload=b"x")
        if i is None:
            refuse(f, k, x)
            refuse(lambda: SymmetricKey(bytes(16), optional_params={"ALG": x}), k, x)
            if isinstance(x, (int, str)):
                refuse(lambda: CoseMessage.decode(cborx.enc(cborx.Tag(16, [b"", {1: x}, b""]))), k, x)
            return
        body = cbor2.loads(f().encode(encrypt=False)).value
        if body[1] != {1: i}:
            raise Violation("algorithm %r appears as %r" % (x, body[1]))
        key = SymmetricKey(bytes(16), optional_params={r.choice([3, "ALG"]): x})
        if cbor2.loads(key.encode()).get(3) != i or key.alg is not V.alg_class(i):
            raise Violation("algorithm %r in a key appears as %r" % (x, cbor2.loads(key.encode())))
        m = CoseMessage.decode(cborx.enc(cborx.Tag(16, [cborx.enc({1: x if isinstance(x, str) else i}), {}, b""])))
        if m.phdr != {V.hdr_class(1): V.alg_class(i)}:
            raise Violation("algorithm %r is received as %r" % (i, m.phdr))
    elif k == "crv":
        def f(y):
            if i in (1, 2, 3, 8) or i is None and r.random() < 0.5:
                kr = ref.ec_key({1: "P-256", 2: "P-384", 3: "P-521", 8: "secp256k1"}.get(i, "P-256"), r)
                return EC2Key(crv=y, x=kr["x"], y=kr["y"])
            return OKPKey(crv=y, x=bytes({5: 56, 7: 57}.get(i, 32)))
        if i is None or i == 0:
            return refuse(lambda: f(x), k, x)
        key = f(x)
        w = cbor2.loads(key.encode())
        if w.get(-1) != i:
            raise Violation("curve %r appears as %r" % (x, w))
        if r.random() < 0.3:
            key = type(key).generate_key(x)
            w = cbor2.loads(key.encode())
        back = CoseKey.decode(cborx.enc(w))
        if cbor2.loads(back.encode()).get(-1) != i or back.crv is not key.crv:
            raise Violation("curve %r does not survive transport" % (x,))
    elif k == "ops":
        kinds = {1: "ec", 2: "ec", 7: "ec", 8: "ec"}
        def f():
            if kinds.get(i) == "ec":
                kr = EC[0]
                key = EC2Key(crv=1, x=kr["x"], y=kr["y"], d=kr["d"], optional_params={r.choice([4, "KEY_OPS"]): [x]})
            else:
                key = SymmetricKey(bytes(16), optional_params={r.choice([4, "KEY_OPS"]): [x]})
            return key
        if i is None:
            return refuse(f, k, x)
        w = cbor2.loads(f().encode())
        if w.get(4) != [i]:
            raise Violation("key operation %r appears as %r" % (x, w))
    elif k == "kty" and isinstance(x, str) and x != x.upper():
        pass
    elif k == "kty":
        data = {1: {-1: 6, -2: bytes(32)}, 2: {-1: 1, -2: EC[0]["x"], -3: EC[0]["y"]}, 3: {-1: EC[1]["n"], -2: EC[1]["e"]}, 4: {-1: bytes(16)}}.get(i, {-1: bytes(16)})
        def f():
            return CoseKey.from_dict({1: x, **data})
        if i is None or i == 0:
            return refuse(f, k, x)
        w = cbor2.loads(f().encode())
        if w.get(1) != i:
            raise Violation("key type %r appears as %r" % (x, w))
    elif k in ("ec2", "okp", "sym", "rsa"):
        if i is None or isinstance(x, str) and x != x.upper():
            return
        parts = {"ec2": {1: 2, -1: 1, -2: EC[0]["x"], -3: EC[0]["y"], -4: EC[0]["d"]}, "okp": {1: 1, -1: 6, -2: bytes(32)}, "sym": {1: 4, -1: bytes(16)},
                 "rsa": {1: 3, -1: EC[1]["n"], -2: EC[1]["e"]}}[k]
        parts = dict(parts)
        if i not in parts:
            parts[i] = {2: b"kid", 3: -7, 4: [1] if k != "sym" else [3], 5: b"iv"}.get(i)
            if parts[i] is None:
                return
        full = cbor2.loads(CoseKey.from_dict(dict(parts)).encode())
        v = parts.pop(i)
        parts[x] = v
        got = cbor2.loads(CoseKey.from_dict(parts).encode())
        if not V.same_map(got, full) or i not in got:
            raise Violation("key parameter %r of %s: %r instead of %r" % (x, k, got, full))


def refuse(f, k, x):
    try:
        o = f()
    except Exception:
        return
    raise Violation("%s: the unknown %r is accepted: %r" % (k, x, o))


def replay_case(rep):
    import table
    return table.replay(rep, case)


def size_case(c, e, r, counts):
    from pycose.keys import EC2Key, OKPKey, SymmetricKey, curves
    k, i = c["k"], c["i"]

    def eq(what, a, b):
        if a != b:
            raise Violation("%s of %s %d is %r instead of %r" % (what, k, i, a, b))
    if k == "aead":
        a = V.alg_class(i)
        eq("the key length", a.get_key_length(), e[0])
        key = SymmetricKey(r.randbytes(e[0]))
        n = r.randrange(60)
        ct = a.encrypt(key=key, nonce=r.randbytes(e[2]), data=bytes(n), aad=b"aad")
        eq("the tag length", len(ct) - n, e[1])
    elif k == "mac":
        a = V.alg_class(i)
        eq("the key length", a.get_key_length(), e[0])
        eq("the tag length", a.get_digest_length(), e[1])
        for n in (1, 15, 16, 17, 64, 300):
            eq("the tag", len(a.compute_tag(SymmetricKey(bytes(e[0] if e[0] <= 32 else 32)), bytes(n))), e[1])
    elif k == "kw":
        a = V.alg_class(i)
        eq("the key length", a.get_key_length(), e[0])
        for n in (16, 24, 32):
            eq("the wrapped key", len(a.key_wrap(SymmetricKey(bytes(e[0])), bytes(n))), n + 8)
    elif k == "crv":
        crv = curves.CoseCurve.from_id(i)
        eq("the coordinate size", crv.size, e[1])
        eq("the key type", crv.key_type.identifier, e[0])
        key = (EC2Key if e[0] == 2 else OKPKey).generate_key(crv)
        eq("the x coordinate", len(key.x), e[1])
        eq("the private key", len(key.d), e[1])
        if e[0] == 2:
            eq("the y coordinate", len(key.y), e[1])
    elif k == "ecdsa":
        a = V.alg_class(i)
        key = EC2Key.generate_key(e[0])
        s = a.sign(key, b"data")
        eq("the signature", len(s), e[1])
        eq("verification", a.verify(key, b"data", s), True)
    elif k == "eddsa":
        a = V.alg_class(-8)
        key = OKPKey.generate_key(i)
        s = a.sign(key, b"data")
        eq("the signature", len(s), e[0])
    elif k == "ecdh":
        a = V.alg_class(i)
        eq("the hash", a.get_hash_func().digest_size, e[0])
        eq("the key wrap algorithm", a.get_key_wrap_func().identifier, e[1])
        if e[1] != -6:
            eq("the key length", a.get_key_length(), {-3: 16, -4: 24, -5: 32}[e[1]])
    elif k == "hash":
        eq("the digest", len(V.alg_class(i).compute_hash(bytes(r.randrange(200)))), e[0])


def replay_size_case(rep):
    import table
    return table.replay(rep, size_case)
