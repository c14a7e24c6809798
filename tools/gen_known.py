"""Writes known_findings.json: the defects found and repaired (fixed) and those recorded only (findings)."""
import json, os, subprocess
FIX = """7332b70 C06 get_attr ignored the caller's default
dc65470 C11 assigning recipients appended to the list instead of replacing it
ff98068 C11 malformed recipients were dropped silently when decoding
13ef5b5 C04 COSE_Sign signatures did not cover an empty sign_protected header as h''
16ae942 C16 the nonce lost leading zero bytes of Base IV xor Partial IV; a missing Partial IV gave an unusable nonce
69cd50c C12 the KDF context used a re-encoded protected header (and a map for an empty one) instead of the transmitted bytes
24f9442 C12 SuppPubInfo key data length was not validated; PartyInfo defaults were shared between contexts
82b8a5d C12 the salt header was not used in HKDF
54e0910 C08 ECDSA and ECDH accepted keys on curves of another algorithm
e9c1f99 C08 algorithm and key_ops of KEKs and key agreement keys were ignored
d46c12d C13 a refused key_ops assignment changed the key; an empty list could not clear them
2b14e65 C13 the last key value of an OKP key could be deleted
01c0eae C13 unregistered parameters could not be deleted
4fb86f1 C13 an EC2 key could be left with half a point; KTY, N and E of an RSA key could be deleted
5050ced C13 kty could be changed; item assignment skipped validation
4eaf061 C20 repr of a message without payload raised
8d1f567 C20 repr of an RSA key printed private values
55da218 C19 SHAKE digests raised or had the wrong length
ec049af C14 a boolean y coordinate (sign bit) was not reconstructed
5236a36 C10 COSE_Mac did not work with key wrap and key agreement recipients
1f7e8a9 C10 direct key agreement without a given ephemeral key failed
d6fa055 C11 key agreement with key wrap accepted messages without ephemeral key
6c574a0 C09 content encryption accepted keys of another length
0a32447 C09 AES-MAC accepted keys of another length
6064a82 C06 header assignments and updates were neither canonicalised nor validated
c6c1faa C10 recipients of one message were given different content keys
5711201 C17 SignMessage.encode depended on state left behind in the signers
d5a712c C05 recipients of a recipient were dropped when decoding
4250b84 C10 a key wrap recipient could not obtain its key from its own recipients
dc4ea7d C10 a KEK obtained through nested recipients was kept as the recipient's own key, so later operations ignored changed nested recipients
ec562c6 C11 direct key agreement recipients could carry recipients and a ciphertext
3a76e63 C15 decoding accepted signatures, tags, headers, recipients of the wrong CBOR type
6c3cf0d C21 the size of X448 keys was 57
2f53cad C09 item assignment of a key parameter (key['K'] = b'short', key['CURVE'] = 'X25519', ...) skipped the checks of its setter
270237b C10 the recipients of COSE_Mac were neither checked nor copied, and absent by None
66938ad C11 key wrap recipients with a nil ciphertext were accepted next to others
a8f76c7 C11 ECDH-ES key wrap recipients without ephemeral key were accepted next to others
1ff6911 C11 verify_tag() without recipient accepted forbidden combinations
6e4dfc9 C11 DirectEncryption recipients with an algorithm of another class were sent
2a34768 C14 the parameters of additional primes of RSA keys were dropped
7e18f62 C13 the key operations of RSAES-OAEP could not be set on RSA keys
e51c152 C01 an RSASSA-PSS signature without its leading zero bytes verified
947b928 C24 a certificate chain of a single certificate could not be verified"""
log = {l.split(" ", 1)[0]: l.split(" ", 1)[1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()}
out = []
for l in FIX.splitlines():
    c, p, w = l.split(" ", 2)
    assert c in log, c
    out.append("fixed: property=%s %s %s" % (p, c, w))
for c, s in log.items():
    if s.startswith("fix:"):
        assert any(c in o for o in out), (c, s)
json.dump({"fixed": out, "findings": []}, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
