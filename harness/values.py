"""Concrete values for the abstract ones of the specifications, chosen per segment ("world")."""
import os
import sys

import common

sys.dont_write_bytecode = True

import cborx  # noqa: E402
import ref  # noqa: E402

LENGTHS = [1, 2, 3, 5, 6, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 55, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 1000,
           1024, 4095, 4096]
BIG = [5000, 16384, 65535, 65536, 70000]


def some_bytes(rnd, big=0.03):
    n = rnd.choice(BIG) if rnd.random() < big else rnd.choice(LENGTHS)
    kind = rnd.random()
    if kind < 0.1:
        return bytes(n)
    if kind < 0.2:
        return b"\xff" * n
    if kind < 0.25:
        return (b"\xa1\x04\x41\x00\xf6\x40\x80" * n)[:n]
    return rnd.randbytes(n)


def near(rnd, a):
    """something different from a that is easily confused with it"""
    kind = rnd.randrange(8)
    if kind == 0:
        return a + b"\x00"
    if kind == 1:
        return b"\x00" + a
    if kind == 2 and len(a) > 1:
        return a[:-1]
    if kind == 3 and len(a) > 1:
        return a[1:]
    if kind == 4:
        b = bytearray(a)
        b[-1] ^= 1 << rnd.randrange(8)
        return bytes(b)
    if kind == 5:
        b = bytearray(a)
        b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        return bytes(b)
    if kind == 6:
        return a + a
    b = some_bytes(rnd)
    return b if b != a else a + b"\x01"


def kid(rnd):
    return rnd.choice([b"", b"\x00", b"1", b"kid", rnd.randbytes(rnd.choice([1, 4, 8, 16, 23, 24, 40, 256]))])


# ----------------------------------------------------------- header parameters
# labels with a predictable value domain that do not influence cryptography
def _kid(r):
    return kid(r)


def _ctype(r):
    return r.choice([0, 1, 23, 24, 255, 65535, 65536, 2 ** 32, "text/plain", "", "application/cose; cose-type=\"x\""])


def _crit(r):
    return r.choice([[4], [1], ["x"], [4, "abc"], [-70001, 4], [1, 3, 4]])


def _any(r):
    return r.choice([0, 1, -1, 23, 24, -24, -25, 255, 256, 65536, -65537, 2 ** 32, 2 ** 63, -2 ** 63, 2 ** 64, 2 ** 70, "", "text", "\u00fc" * 30,
                     b"", b"bytes", bytes(300), [], [1, [2, [3]]], {}, {1: 2, "a": [b"x"]}, True, False, 1.5, -0.25,
                     {1: {2: {3: b"deep"}}}, [b"", "", None], "x" * 256])


KNOWN = [("KID", 4, _kid), ("CONTENT_TYPE", 3, _ctype), ("CRITICAL", 2, _crit), ("KID_CONTEXT", 10, _kid), ("COUNTER_SIGN0", 9, _kid),
         ("X5_U", 35, lambda r: r.choice(["http://a.b/", "urn:x"])),
         ("X5_T", 34, lambda r: [-16, r.randbytes(32)]), ("X5_BAG", 32, lambda r: r.randbytes(40)),
         ("X5_CHAIN", 33, lambda r: [r.randbytes(20), r.randbytes(30)]), ("COUNTER_SIGN", 7, lambda r: [b"", {}, r.randbytes(8)])]
UNKNOWN = [8, 11, 12, 15, 36, 100, 256, 2000, 65536, -4, -19, -27, -256, -70001, 2 ** 40, -2 ** 40, "x", "my-label", "kid-", "", "\u00e4", "alg.", "0"]


def param(rnd, taken, unknown=0.4):
    """(label on the wire, value)"""
    while True:
        if rnd.random() < unknown:
            lab = rnd.choice(UNKNOWN)
            val = _any
        else:
            _, lab, val = rnd.choice(KNOWN)
        if lab not in taken:
            return lab, val(rnd)


def header_pair(rnd, first=(), n=None, taken=()):
    """two header maps (label -> value, as on the wire) with the same labels and different contents"""
    n = rnd.choice([1, 1, 2, 2, 3, 4, 6]) if n is None else n
    a = dict(first)
    own = []
    for _ in range(n):
        lab, v = param(rnd, set(a) | set(taken))
        a[lab] = v
        own.append(lab)
    b = dict(a)
    lab = rnd.choice(own)
    for _ in range(200):
        v = value_for(rnd, lab, a[lab])
        if not same(v, a[lab]):
            b[lab] = v
            break
    else:
        b[lab] = [a[lab], 1]
    if rnd.random() < 0.3:
        for lab2 in own:
            b[lab2] = value_for(rnd, lab2, b[lab2]) if lab2 != lab else b[lab2]
    items = list(a.items())
    if rnd.random() < 0.5:
        rnd.shuffle(items)
    return dict(items), b


def value_for(rnd, lab, old):
    for _, i, val in KNOWN:
        if i == lab:
            return val(rnd)
    if isinstance(old, bytes) and rnd.random() < 0.5:
        return near(rnd, old) if old else b"\x00"
    return _any(rnd)


def same(a, b):
    """equality that keeps 1, True and 1.0 apart"""
    try:
        return cborx.enc(a) == cborx.enc(b)
    except TypeError:
        return a == b


def _registry():
    from pycose import headers
    return {c.identifier: c for c in headers.CoseHeaderAttribute.get_registered_classes().values()}


# names of the header parameters (IANA; also in specs/Registry.tla)
NAMES = {1: "ALG", 2: "CRITICAL", 3: "CONTENT_TYPE", 4: "KID", 5: "IV", 6: "PARTIAL_IV", 7: "COUNTER_SIGN", 9: "COUNTER_SIGN0",
         10: "KID_CONTEXT", 32: "X5_BAG", 33: "X5_CHAIN", 34: "X5_T", 35: "X5_U", -1: "EPHEMERAL_KEY", -2: "STATIC_KEY",
         -3: "STATIC_KEY_ID", -20: "SALT", -21: "PARTY_U_ID", -22: "PARTY_U_NONCE", -23: "PARTY_U_OTHER", -24: "PARTY_V_ID",
         -25: "PARTY_V_NONCE", -26: "PARTY_V_OTHER"}
CLASSNAMES = {1: "Algorithm", 2: "Critical", 3: "ContentType", 4: "KID", 5: "IV", 6: "PartialIV", 7: "CounterSignature",
              9: "CounterSignature0", 10: "KIDContext", 32: "X5bag", 33: "X5chain", 34: "X5t", 35: "X5u", -1: "EphemeralKey",
              -2: "StaticKey", -3: "StaticKeyID", -20: "Salt", -21: "PartyUID", -22: "PartyUNonce", -23: "PartyUOther",
              -24: "PartyVID", -25: "PartyVNonce", -26: "PartyVOther"}


def hdr_class(label):
    from pycose import headers
    return getattr(headers, CLASSNAMES[label])


ALG_CLASSES = {-65535: "RsaPkcs1Sha1", -259: "RsaPkcs1Sha512", -258: "RsaPkcs1Sha384", -257: "RsaPkcs1Sha256", -45: "Shake256", -44: "Sha512",
               -43: "Sha384", -42: "RsaesOaepSha512", -41: "RsaesOaepSha256", -40: "RsaesOaepSha1", -39: "Ps512", -38: "Ps384", -37: "Ps256",
               -36: "Es512", -35: "Es384", -34: "EcdhSsA256KW", -33: "EcdhSsA192KW", -32: "EcdhSsA128KW", -31: "EcdhEsA256KW",
               -30: "EcdhEsA192KW", -29: "EcdhEsA128KW", -28: "EcdhSsHKDF512", -27: "EcdhSsHKDF256", -26: "EcdhEsHKDF512",
               -25: "EcdhEsHKDF256", -18: "Shake128", -17: "Sha512Trunc256", -16: "Sha256", -15: "Sha256Trunc64", -14: "Sha1",
               -13: "DirectHKDFAES256", -12: "DirectHKDFAES128", -11: "DirecHKDFSHA512", -10: "DirectHKDFSHA256", -8: "EdDSA", -7: "Es256",
               -6: "Direct", -5: "A256KW", -4: "A192KW", -3: "A128KW", 1: "A128GCM", 2: "A192GCM", 3: "A256GCM", 4: "HMAC25664",
               5: "HMAC256", 6: "HMAC384", 7: "HMAC512", 10: "AESCCM1664128", 11: "AESCCM1664256", 12: "AESCCM6464128",
               13: "AESCCM6464256", 14: "AESMAC12864", 15: "AESMAC25664", 25: "AESMAC128128", 26: "AESMAC256128", 30: "AESCCM16128128",
               31: "AESCCM16128256", 32: "AESCCM64128128", 33: "AESCCM64128256"}
ALG_NAMES = {-65535: "RS1", -259: "RS512", -258: "RS384", -257: "RS256", -45: "SHAKE-256", -44: "SHA-512", -43: "SHA-384",
             -42: "RSAES_OAEP_SHA_512", -41: "RSAES_OAEP_SHA_256", -40: "RSAES_OAEP_SHA_1", -39: "PS512", -38: "PS384", -37: "PS256",
             -36: "ES512", -35: "ES384", -34: "ECDH_SS_A256KW", -33: "ECDH_SS_A192KW", -32: "ECDH_SS_A128KW",
             -31: "ECDH_ES_A256KW", -30: "ECDH_ES_A192KW", -29: "ECDH_ES_A128KW", -28: "ECDH_SS_HKDF_512", -27: "ECDH_SS_HKDF_256",
             -26: "ECDH_ES_HKDF_512", -25: "ECDH_ES_HKDF_256", -18: "SHAKE-128", -17: "SHA-512/256", -16: "SHA-256", -15: "SHA-256/64",
             -14: "SHA-1", -13: "DIRECT_HKDF_AES_256", -12: "DIRECT_HKDF_AES_128", -11: "DIRECT_HKDF_SHA_512",
             -10: "DIRECT_HKDF_SHA_256", -8: "EDDSA", -7: "ES256", -6: "DIRECT", -5: "A256KW", -4: "A192KW", -3: "A128KW", 1: "A128GCM",
             2: "A192GCM", 3: "A256GCM", 4: "HMAC_256_64", 5: "HMAC_256", 6: "HMAC_384", 7: "HMAC_512", 10: "AES_CCM_16_64_128",
             11: "AES_CCM_16_64_256", 12: "AES_CCM_64_64_128", 13: "AES_CCM_64_64_256", 14: "AES_MAC_128_64", 15: "AES_MAC_256_64",
             25: "AES_MAC_128_128", 26: "AES_MAC_256_128", 30: "AES_CCM_16_128_128", 31: "AES_CCM_16_128_256",
             32: "AES_CCM_64_128_128", 33: "AES_CCM_64_128_256"}


def alg_class(ident):
    from pycose import algorithms
    return getattr(algorithms, ALG_CLASSES[ident])


def case(rnd, s):
    k = rnd.randrange(4)
    if k == 0:
        return s
    if k == 1:
        return s.lower()
    if k == 2:
        return s.title()
    return "".join(c.upper() if rnd.random() < 0.5 else c.lower() for c in s)


def spell_label(rnd, label):
    """one of the spellings of a header label"""
    if label not in CLASSNAMES or (isinstance(label, bool)):
        return label
    k = rnd.randrange(3)
    return hdr_class(label) if k == 0 else label if k == 1 else case(rnd, NAMES[label])


def spell_alg(rnd, ident):
    k = rnd.randrange(3)
    return alg_class(ident) if k == 0 else ident if k == 1 else case(rnd, ALG_NAMES[ident])


def spell_header(rnd, wire):
    """wire map -> map as a caller would write it"""
    out = {}
    for lab, v in wire.items():
        out[spell_label(rnd, lab)] = spell_alg(rnd, v) if lab == 1 and type(v) is int and v in ALG_NAMES else clone(v)
    return out


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def in_place(hdr, spelled):
    """writes entries directly into the dictionary of an object, under the names the library itself uses there"""
    for k, v in spelled.items():
        lab = label_of(k)
        k = hdr_class(lab) if lab in CLASSNAMES else lab
        if lab == 1 and not isinstance(v, type):
            v = alg_class(v if type(v) is int else next(i for i, n in ALG_NAMES.items() if n.upper() == v.upper()))
        hdr[k] = v


def label_of(k):
    """the integer (or unknown) label behind a spelling"""
    if hasattr(k, "identifier"):
        return k.identifier
    if isinstance(k, str):
        for lab, names in CLASSNAMES.items():
            if hdr_class(lab).fullname.upper() == k.upper():
                return lab
    return k


def unspell(hdr):
    """a header dictionary of the library -> wire map"""
    out = {}
    for k, v in hdr.items():
        lab = k.identifier if hasattr(k, "identifier") else k
        if lab in out:
            raise common.Violation("header label %r appears twice in the dictionary" % (lab,))
        out[lab] = v.identifier if hasattr(v, "identifier") else v
    return out


def same_map(a, b):
    return len(a) == len(b) and all(k in b and same(plain(v), plain(b[k])) for k, v in a.items()) and \
        sorted(map(repr, a)) == sorted(map(repr, b))


def plain(v):
    """COSE keys in headers become plain maps"""
    if hasattr(v, "kty") and hasattr(v, "key_ops"):
        return {k.identifier if hasattr(k, "identifier") else k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, type) and hasattr(v, "identifier"):
        return v.identifier
    return v


# ------------------------------------------------------------------------ keys
def pycose_key(rnd, k, private=True, alg=None, ops=None, extra=None):
    """builds the library's key object for a reference key record, through one of its constructors"""
    from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
    import cbor2
    opt = {}
    if alg is not None:
        opt[3] = alg
    if ops is not None:
        opt[4] = list(ops)
    if extra:
        opt.update(extra)
    if k["kty"] == 4:
        m = {1: 4, -1: k["k"]}
    elif k["kty"] == 2:
        m = {1: 2, -1: k["crv"], -2: k["x"], -3: k["y"]}
        if private:
            m[-4] = k["d"]
    elif k["kty"] == 1:
        m = {1: 1, -1: k["crv"], -2: k["x"]}
        if private:
            m[-4] = k["d"]
    else:
        m = {1: 3, -1: k["n"], -2: k["e"]}
        if private:
            m.update({-3: k["d"], -4: k["p"], -5: k["q"], -6: k["dp"], -7: k["dq"], -8: k["qinv"]})
    m.update(opt)
    how = rnd.randrange(3)
    if how == 0:
        return CoseKey.decode(cborx.enc(m))
    if how == 1:
        return CoseKey.from_dict(clone(m))
    opt = clone(opt)
    if k["kty"] == 4:
        return SymmetricKey(k["k"], optional_params=opt)
    if k["kty"] == 2:
        return EC2Key(k["crv"], x=k["x"], y=k["y"], d=k["d"] if private else b"", optional_params=opt)
    if k["kty"] == 1:
        return OKPKey(k["crv"], x=k["x"], d=k["d"] if private else b"", optional_params=opt)
    if private:
        return RSAKey(n=k["n"], e=k["e"], d=k["d"], p=k["p"], q=k["q"], dp=k["dp"], dq=k["dq"], qinv=k["qinv"], optional_params=opt)
    return RSAKey(n=k["n"], e=k["e"], optional_params=opt)


def rekey(rnd, old, new, chance=0.3):
    """a key object like `new`: sometimes the object in use, with its material replaced in place"""
    if old is None or new is None or old is new or type(old) is not type(new) or rnd.random() >= chance:
        return new
    material = [k for k in new if getattr(k, "identifier", 0) < 0 and k.fullname != "CURVE"]
    if {k for k in old if getattr(k, "identifier", 0) < 0 and k.fullname != "CURVE"} != set(material):
        return new                                               # not the same parts
    if getattr(new, "crv", None) is not getattr(old, "crv", None) or any(type(new[k]) is not bytes for k in material):
        return new
    names = {k: k.fullname.lower() for k in material}
    rnd.shuffle(material)
    for k in material:
        if rnd.random() < 0.5 and hasattr(old, names[k]):
            setattr(old, names[k], new[k])
        else:
            old[k if rnd.random() < 0.5 else k.identifier] = new[k]
    return old


def sign_keys(rnd, alg, n=2):
    """n distinct reference keys for the signature algorithm"""
    if alg in ref.ECDSA:
        return [ref.ec_key(ref.ECDSA[alg][0], rnd) for _ in range(n)]
    if alg == ref.EDDSA:
        c = rnd.choice(["Ed25519", "Ed448"])
        return [ref.ed_key(c, rnd) for _ in range(n)]
    pool = [k for k in ref.rsa_pool() if len(k["n"]) * 8 >= 1536 or alg not in (-39, -259)]
    big = [k for k in pool if len(k["n"]) * 8 >= 2048]
    if rnd.random() < 0.7:
        pool = [k for k in pool if len(k["n"]) * 8 <= 2048]
    ks = rnd.sample(pool if len(pool) >= n else big, n)
    return ks


def sym_keys(rnd, length, n=2):
    a = rnd.randbytes(length)
    out = [a]
    while len(out) < n:
        b = bytearray(a)
        if rnd.random() < 0.5:
            b[rnd.randrange(length)] ^= 1 << rnd.randrange(8)
        else:
            b = bytearray(rnd.randbytes(length))
        if bytes(b) not in out:
            out.append(bytes(b))
    return [{"kty": 4, "k": k} for k in out]
