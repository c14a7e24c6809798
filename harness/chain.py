"""Certificate chains on the library: specs/Chain.tla.  The roots that the system trusts are a scratch file of this check
(SSL_CERT_FILE, which the validator reads), read once and removed again."""
import datetime
import os
import tempfile

import common
from common import Violation

_PKI = None

# as in the specification: subject, issuer, key, signed by, authority, usages, valid
SIGN, CERT, NON = "digital_signature", "key_cert_sign", "non_repudiation"
CERTS = {"R": ("root", "root", "r", "r", True, {CERT}, True), "Q": ("root", "root", "q", "q", True, {SIGN, CERT}, True),
         "T": ("other", "other", "t", "t", True, {SIGN, CERT}, True), "I": ("int", "root", "i", "r", True, {SIGN, CERT}, True),
         "J": ("int", "root", "i", "r", False, {SIGN}, True), "K": ("int", "root", "k", "r", True, {SIGN, CERT}, True),
         "Z": ("int", "root", "i", "r", True, {SIGN, CERT}, False), "U": ("int", "root", "i", "q", True, {SIGN, CERT}, True),
         "L": ("sub", "int", "l", "i", True, {SIGN, CERT}, True), "E": ("leaf", "int", "e", "i", False, {SIGN}, True),
         "F": ("leaf", "int", "e", "x", False, {SIGN}, True), "N": ("leaf", "int", "e", "i", False, {NON}, True),
         "O": ("leaf", "int", "e", "i", False, {SIGN}, False), "S": ("under", "leaf", "s", "e", False, {SIGN}, True),
         "D": ("direct", "root", "d", "r", False, {SIGN, NON}, True), "M": ("deep", "sub", "m", "l", False, {SIGN}, True)}


def pki():
    """one set of certificates per process tree: name -> [DER, ...]"""
    global _PKI
    if _PKI is not None:
        return _PKI
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    from cryptography.hazmat.primitives.serialization import Encoding
    from cryptography.x509.oid import NameOID
    r = common.rng("pki")
    keys = {k: rsa.generate_private_key(65537, 2048) if r.random() < 0.2 else ec.generate_private_key(r.choice([ec.SECP256R1(), ec.SECP384R1()]))
            for k in sorted({v[i] for v in CERTS.values() for i in (2, 3)})}

    def name(s):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)])

    def make(n, past):
        subj, iss, key, by, ca, use, now = CERTS[n]
        b, e = (2001, 2045) if now else ((2001, 2005) if past else (2045, 2049))
        c = x509.CertificateBuilder().subject_name(name(subj)).issuer_name(name(iss)).public_key(keys[key].public_key())
        c = c.serial_number(x509.random_serial_number()).not_valid_before(datetime.datetime(b, 1, 1)).not_valid_after(datetime.datetime(e, 1, 1))
        c = c.add_extension(x509.BasicConstraints(ca, None), True)
        c = c.add_extension(x509.KeyUsage(SIGN in use, NON in use, False, False, False, CERT in use, CERT in use, False, False), True)
        return c.sign(keys[by], hashes.SHA256())
    out = {n: [make(n, past) for past in (True, False)] for n in CERTS}
    root = out["R"][0]
    out["R"] = [root]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "roots.pem")
        with open(f, "wb") as h:
            h.write(root.public_bytes(Encoding.PEM))
        before = os.environ.get("SSL_CERT_FILE")
        os.environ["SSL_CERT_FILE"] = f
        try:
            from oscrypto import trust_list
            roots = trust_list.get_list()
        finally:
            if before is None:
                del os.environ["SSL_CERT_FILE"]
            else:
                os.environ["SSL_CERT_FILE"] = before
    if len(roots) != 1 or roots[0][0].dump() != root.public_bytes(Encoding.DER):
        raise SystemExit("the scratch list of trusted roots is not in use")
    _PKI = {n: [c.public_bytes(Encoding.DER) for c in cs] for n, cs in out.items()}
    return _PKI


def case(c, e, r, counts):
    from pycose.extensions.x509 import X5Chain
    p = pki()
    given = [r.choice(p[n]) for n in c["q"]]
    was = list(given)
    arg = given if len(given) > 1 or r.random() < 0.5 else given[0]
    h = None
    try:
        if c["h"] == "made":
            h = X5Chain(arg, verify=True) if r.random() < 0.5 else X5Chain(cert_chain=arg, verify=True)
            out = "ok"
        elif c["h"] == "never":
            h = X5Chain(arg, verify=False) if r.random() < 0.5 else X5Chain(arg)
            out = "ok"
        else:
            h = X5Chain(arg)
            use = set(c["u"])
            for _ in range(r.choice([0, 0, 1, 2])):
                # what was asked before is of no importance
                try:
                    h.verify_chain(use if r.random() < 0.4 else r.choice([{"digital_signature"}, {"non_repudiation"}, {"key_cert_sign"}]))
                except Exception:
                    pass
            if use != set(c["u"]):
                raise Violation("the caller's set of uses has changed")
            if h.verify_chain(use) is False:
                out = "bad"
            else:
                out = "ok"
    except Violation:
        raise
    except Exception as x:
        out, err = "bad", repr(x)
        if h is None and c["h"] != "made":
            raise Violation("a chain is refused that was not to be verified: %s" % err)
    counts[out] = counts.get(out, 0) + 1
    if e != "open" and out != e:
        raise Violation("a chain of certificates %s is %s instead of %s" % ("".join(c["q"]), out, e), {"use": sorted(c["u"]), "how": c["h"]})
    if given != was or isinstance(arg, list) and len(arg) != len(was):
        raise Violation("the caller's list of certificates has changed")
    if c["h"] == "later" and use != set(c["u"]):
        raise Violation("the caller's set of uses has changed")
    if h is not None and h.encode() != (was[0] if len(was) == 1 else was):
        raise Violation("a verified chain encodes to something else")


def replay_case(rep):
    import table
    return table.replay(rep, case)
