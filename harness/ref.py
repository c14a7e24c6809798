"""Independent realisation of the RFC 8152 primitives, straight on the `cryptography` package.
Nothing here imports pycose.  Keys are small records of plain numbers and byte strings."""
import hashlib
import hmac as hmac_
import os

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, padding, rsa, utils as autils, x25519, x448
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
from cryptography.hazmat.primitives.keywrap import aes_key_unwrap, aes_key_wrap

import cborx

# ----------------------------------------------------------------- registries
ECDSA = {-7: ("P-256", hashes.SHA256), -35: ("P-384", hashes.SHA384), -36: ("P-521", hashes.SHA512)}
PSS = {-37: hashes.SHA256, -38: hashes.SHA384, -39: hashes.SHA512}
PKCS1 = {-65535: hashes.SHA1, -257: hashes.SHA256, -258: hashes.SHA384, -259: hashes.SHA512}
OAEP = {-40: hashes.SHA1, -41: hashes.SHA256, -42: hashes.SHA512}
EDDSA = -8
HMACS = {4: ("sha256", 8), 5: ("sha256", 32), 6: ("sha384", 48), 7: ("sha512", 64)}
AESMAC = {14: (16, 8), 15: (32, 8), 25: (16, 16), 26: (32, 16)}
GCM = {1: 16, 2: 24, 3: 32}
#      id: (key length, tag length, nonce length)
CCM = {10: (16, 8, 13), 11: (32, 8, 13), 12: (16, 8, 7), 13: (32, 8, 7),
       30: (16, 16, 13), 31: (32, 16, 13), 32: (16, 16, 7), 33: (32, 16, 7)}
KW = {-3: 16, -4: 24, -5: 32}
#       id: (hash, ephemeral, key wrap algorithm or None)
ECDH = {-25: ("sha256", True, None), -26: ("sha512", True, None),
        -27: ("sha256", False, None), -28: ("sha512", False, None),
        -29: ("sha256", True, -3), -30: ("sha256", True, -4), -31: ("sha256", True, -5),
        -32: ("sha256", False, -3), -33: ("sha256", False, -4), -34: ("sha256", False, -5)}
SIGN_ALGS = sorted(ECDSA) + sorted(PSS) + sorted(PKCS1) + [EDDSA]
MAC_ALGS = sorted(HMACS) + sorted(AESMAC)
ENC_ALGS = sorted(GCM) + sorted(CCM)
CURVES = {"P-256": (ec.SECP256R1(), 32, 1), "P-384": (ec.SECP384R1(), 48, 2), "P-521": (ec.SECP521R1(), 66, 3),
          "secp256k1": (ec.SECP256K1(), 32, 8)}
ORDER = {"P-256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
         "P-384": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
         "P-521": 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
         "secp256k1": 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141}
CURVE_BY_ID = {v[2]: k for k, v in CURVES.items()}
ED = {"Ed25519": (ed25519, 32, 6), "Ed448": (ed448, 57, 7)}


def enc_key_len(alg):
    return GCM[alg] if alg in GCM else CCM[alg][0]


def enc_nonce_len(alg):
    return 12 if alg in GCM else CCM[alg][2]


def enc_tag_len(alg):
    return 16 if alg in GCM else CCM[alg][1]


def mac_tag_len(alg):
    return HMACS[alg][1] if alg in HMACS else AESMAC[alg][1]


def mac_key_len(alg):
    """key length of the algorithm (RFC 8152 tables 7 and 8)"""
    return {"sha256": 32, "sha384": 48, "sha512": 64}[HMACS[alg][0]] if alg in HMACS else AESMAC[alg][0]


# ------------------------------------------------------------------------ keys
def ec_key(curve, rnd=None, d=None):
    c, size, ident = CURVES[curve]
    if d is None:
        d = rnd.randrange(1, ORDER[curve])
    sk = ec.derive_private_key(d, c)
    n = sk.private_numbers()
    return {"kty": 2, "curve": curve, "crv": ident, "d": n.private_value.to_bytes(size, "big"),
            "x": n.public_numbers.x.to_bytes(size, "big"), "y": n.public_numbers.y.to_bytes(size, "big"), "sk": sk}


def ed_key(curve, rnd):
    mod, size, ident = ED[curve]
    d = rnd.randbytes(size)
    cls = mod.Ed25519PrivateKey if curve == "Ed25519" else mod.Ed448PrivateKey
    sk = cls.from_private_bytes(d)
    x = sk.public_key().public_bytes(serialization.Encoding.Raw, serialization.PublicFormat.Raw)
    return {"kty": 1, "curve": curve, "crv": ident, "d": d, "x": x, "sk": sk}


def i2b(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def rsa_key(pem):
    sk = serialization.load_pem_private_key(pem.encode(), None)
    n = sk.private_numbers()
    return {"kty": 3, "n": i2b(n.public_numbers.n), "e": i2b(n.public_numbers.e), "d": i2b(n.d), "p": i2b(n.p),
            "q": i2b(n.q), "dp": i2b(n.dmp1), "dq": i2b(n.dmq1), "qinv": i2b(n.iqmp), "sk": sk}


_RSA = None


def rsa_pool():
    global _RSA
    if _RSA is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rsa_keys.pem")) as h:
            text = h.read()
        parts = [p + "-----END PRIVATE KEY-----\n" for p in text.split("-----END PRIVATE KEY-----\n") if "BEGIN" in p]
        _RSA = [rsa_key(p) for p in parts]
    return _RSA  # sizes: 2048, 2048, 1024, 3072, 2048 (e=3), 1024, 1536


# ------------------------------------------------------------------ signatures
def sign(alg, key, data):
    sk = key["sk"]
    if alg in ECDSA:
        curve, h = ECDSA[alg]
        assert key["curve"] == curve
        size = CURVES[curve][1]
        r, s = autils.decode_dss_signature(sk.sign(data, ec.ECDSA(h())))
        return r.to_bytes(size, "big") + s.to_bytes(size, "big")
    if alg == EDDSA:
        return sk.sign(data)
    if alg in PSS:
        h = PSS[alg]()
        return sk.sign(data, padding.PSS(padding.MGF1(h), h.digest_size), h)
    if alg in PKCS1:
        return sk.sign(data, padding.PKCS1v15(), PKCS1[alg]())
    raise ValueError(alg)


def verify(alg, key, data, sig):
    pk = key["sk"].public_key()
    try:
        if alg in ECDSA:
            curve, h = ECDSA[alg]
            size = CURVES[curve][1]
            if key.get("curve") != curve or len(sig) != 2 * size:
                return False
            der = autils.encode_dss_signature(int.from_bytes(sig[:size], "big"), int.from_bytes(sig[size:], "big"))
            pk.verify(der, data, ec.ECDSA(h()))
        elif alg == EDDSA:
            pk.verify(sig, data)
        elif alg in PSS:
            h = PSS[alg]()
            pk.verify(sig, data, padding.PSS(padding.MGF1(h), h.digest_size), h)
        elif alg in PKCS1:
            pk.verify(sig, data, padding.PKCS1v15(), PKCS1[alg]())
        else:
            raise ValueError(alg)
        return True
    except (InvalidSignature, ValueError):
        return False


# ------------------------------------------------------------------------ MACs
def mac(alg, k, data):
    if alg in HMACS:
        h, n = HMACS[alg]
        return hmac_.new(k, data, h).digest()[:n]
    klen, n = AESMAC[alg]
    assert len(k) == klen
    if len(data) % 16:
        data += bytes(16 - len(data) % 16)
    # RFC 8152 9.2: AES-CBC-MAC; the tag is the first n bytes of the last block
    block = bytes(16)
    e = Cipher(algorithms.AES(k), modes.ECB()).encryptor()
    for i in range(0, len(data), 16):
        block = e.update(bytes(a ^ b for a, b in zip(block, data[i:i + 16])))
    return block[:n]


# ------------------------------------------------------------------------ AEAD
def aead(alg, k):
    if alg in GCM:
        assert len(k) == GCM[alg]
        return AESGCM(k)
    assert len(k) == CCM[alg][0]
    return AESCCM(k, tag_length=CCM[alg][1])


def encrypt(alg, k, nonce, data, aad):
    return aead(alg, k).encrypt(nonce, data, aad)


def decrypt(alg, k, nonce, data, aad):
    try:
        return aead(alg, k).decrypt(nonce, data, aad)
    except (InvalidTag, ValueError):
        return None


# ----------------------------------------------------- key wrap, key agreement
def hkdf(h, ikm, salt, info, length):
    n = hashlib.new(h).digest_size
    prk = hmac_.new(salt if salt else bytes(n), ikm, h).digest()
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac_.new(prk, t + info + bytes([i]), h).digest()
        out += t
        i += 1
    return out[:length]


def ecdh(priv, pub):
    """priv: key with sk; pub: key record with curve, x, y"""
    c = CURVES[priv["curve"]][0]
    pk = ec.EllipticCurvePublicNumbers(int.from_bytes(pub["x"], "big"), int.from_bytes(pub["y"], "big"), c).public_key()
    return priv["sk"].exchange(ec.ECDH(), pk)


def kw_wrap(kek, data):
    return aes_key_wrap(kek, data)


def kw_unwrap(kek, data):
    try:
        return aes_key_unwrap(kek, data)
    except Exception:
        return None


def oaep(alg):
    h = OAEP[alg]
    return padding.OAEP(mgf=padding.MGF1(h()), algorithm=h(), label=None)


def kdf_context(alg, u, v, keylen_bits, protected, pub_other=None, priv=None):
    pubinfo = [keylen_bits, protected]
    if pub_other is not None:
        pubinfo.append(pub_other)
    ctx = [alg, list(u), list(v), pubinfo]
    if priv is not None:
        ctx.append(priv)
    return cborx.enc(ctx)
