"""COSE recipients (RFC 8152, sections 5.1, 11, 12) on the primitives of ref.py: builds and opens recipient structures.
A key is a ref key record ({"kty": ..}); headers are wire maps; nothing here imports pycose."""
import cbor2

import cborx
import ref
from common import Violation


def key_len(alg):
    """length in bytes of the key the algorithm takes (HMAC: the length RFC 8152 names)"""
    if alg in ref.KW:
        return ref.KW[alg]
    return ref.enc_key_len(alg) if alg in ref.ENC_ALGS else ref.mac_key_len(alg)


def enc_p(p):
    return cborx.enc(p) if p else b""


def public(rec):
    return {1: 2, -1: rec["crv"], -2: rec["x"], -3: rec["y"]}


def point(m):
    """public key map -> record usable by ref.ecdh"""
    if -4 in m:
        raise Violation("a header contains a private key", {"key": repr(sorted(m))})
    return {"curve": ref.CURVE_BY_ID[m[-1]], "x": m[-2], "y": m[-3]}


def derived(alg, z, target, nbytes, pe, hdr, supp_pub=None, supp_priv=None):
    """the HKDF output of a key agreement recipient"""
    info = ref.kdf_context(target, [hdr.get(-21), hdr.get(-22), hdr.get(-23)], [hdr.get(-24), hdr.get(-25), hdr.get(-26)],
                           nbytes * 8, pe, supp_pub, supp_priv)
    return ref.hkdf(ref.ECDH[alg][0], z, hdr.get(-20) or b"", info, nbytes)


def agree(alg, z, target, pe, hdr, supp_pub=None, supp_priv=None):
    """content key (direct) or key encryption key"""
    kw = ref.ECDH[alg][2]
    t = kw or target
    return derived(alg, z, t, key_len(t), pe, hdr, supp_pub, supp_priv)


def raw_wrap(alg, key, cek):
    """ciphertext of a key wrap recipient"""
    if alg in ref.KW:
        return ref.kw_wrap(key, cek)
    return key["sk"].public_key().encrypt(cek, ref.oaep(alg))


def raw_unwrap(alg, key, ct):
    if alg in ref.KW:
        return ref.kw_unwrap(key, ct)
    try:
        return key["sk"].decrypt(ct, ref.oaep(alg))
    except ValueError:
        return None


def alg_of(wire):
    p = cbor2.loads(wire[0]) if wire[0] else {}
    return p.get(1, wire[1].get(1))


def headers_of(wire):
    p = cbor2.loads(wire[0]) if wire[0] else {}
    return {**wire[1], **p}


def open_recipient(wire, target, key, static=None, supp_pub=None, supp_priv=None):
    """content key for the holder of `key`, None if it does not open. static: sender's static public key record"""
    hdr = headers_of(wire)
    alg = hdr.get(1)
    if alg in ref.KW or alg in ref.OAEP:
        return raw_unwrap(alg, key["k"] if alg in ref.KW else key, wire[2])
    if alg in ref.ECDH:
        h, es, kw = ref.ECDH[alg]
        pub = point(hdr[-1]) if es else (point(hdr[-2]) if -2 in hdr else static)
        z = ref.ecdh(key, pub)
        k = agree(alg, z, target, wire[0], hdr, supp_pub, supp_priv)
        return ref.kw_unwrap(k, wire[2]) if kw else k
    raise ValueError(alg)


def open_body(body, tag, cek, ext, payload=None):
    """plaintext of a COSE_Encrypt body, or whether the tag of a COSE_Mac body is right"""
    hdr = headers_of(body)
    alg = hdr[1]
    pe = b"" if body[0] == b"\xa0" else body[0]
    if cek is None:
        return None
    if tag == 96:
        if len(cek) != key_len(alg):
            return None
        return ref.decrypt(alg, cek, hdr[5], body[2], cborx.enc(["Encrypt", pe, ext]))
    return ref.mac(alg, cek, cborx.enc(["MAC", pe, ext, body[2]])) == body[3]


def protect(tag, p, u, payload, ext, cek, recipients):
    """the whole message"""
    pe = enc_p(p)
    alg = p.get(1, u.get(1))
    if tag == 96:
        iv = p.get(5, u.get(5))
        k = cek
        if alg in ref.CCM:
            from cryptography.hazmat.primitives.ciphers.aead import AESCCM
            ct = AESCCM(k, tag_length=ref.CCM[alg][1]).encrypt(iv, payload, cborx.enc(["Encrypt", pe, ext]))
        else:
            from cryptography.hazmat.primitives.ciphers.aead import AESGCM
            ct = AESGCM(k).encrypt(iv, payload, cborx.enc(["Encrypt", pe, ext]))
        return cborx.enc(cborx.Tag(96, [pe, u, ct, recipients]))
    data = cborx.enc(["MAC", pe, ext, payload])
    if alg in ref.AESMAC and len(cek) != ref.AESMAC[alg][0]:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
        e = Cipher(algorithms.AES(cek), modes.CBC(bytes(16))).encryptor()
        t = e.update(data + bytes(-len(data) % 16))[-16:][:ref.AESMAC[alg][1]]
    else:
        t = ref.mac(alg, cek, data)
    return cborx.enc(cborx.Tag(97, [pe, u, payload, t, recipients]))
