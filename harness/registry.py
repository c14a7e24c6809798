"""Which checks decide which property."""
import os
import subprocess
import sys
import tempfile

import common
from checks import carry_checks as Y
from checks import crowd_checks as B
from checks import header_checks as H
from checks import isolation_checks as I
from checks import key_checks as K
from checks import nonce_checks as N
from checks import policy_checks as P
from checks import recipient_checks as C
from checks import registry_checks as R
from checks import repr_checks as X
from checks import session_checks as S
from checks import thumb_checks as T
from checks import wire_checks as W

CHECKS = {
    "C01": [S.channel_sign, S.signatures, S.moving_signers, S.sign_retype, S.mutate_sign, B.sign],
    "C02": [S.channel_mac, S.macs, C.groups_mac, C.reception_mac, S.mutate_mac, B.mac],
    "C03": [S.channel_enc, S.encs, C.groups_enc, C.reception_enc, S.mutate_enc, B.enc],
    "C04": [S.interop, B.wire],
    "C05": [S.roundtrip, H.recorded, H.layers, H.buckets, B.wire, Y.wire],
    "C06": [H.recorded, H.buckets, B.headers, Y.headers],
    "C07": [H.types, H.layers, H.recorded, H.buckets, Y.values],
    "C08": [P.policy_table, P.history],
    "C09": [P.lengths, C.groups_few],
    "C10": [C.groups, C.distribution, C.reception, C.changes, C.nested, B.recipients],
    "C11": [C.structures, C.groups_few, C.mixed, C.nested, B.recipients],
    "C12": [C.kdf_context, C.kdf_objects],
    "C13": [K.recorded, K.changes],
    "C14": [K.forms, Y.forms],
    "C15": [W.decoding],
    "C16": [N.cases, N.history],
    "C19": [T.hashes, T.thumbs],
    "C20": [X.texts],
    "C21": [R.names],
    "C17": [I.pairs, I.histories],
    "C18": [S.detached, B.detached],
    "C22": [T.containers, B.certificates],
    "C23": [K.fresh],
    "C24": [T.chains],
}


def setup():
    """everything the checks need is there and every specification parses"""
    for mod in ("cbor2", "cryptography", "ecdsa"):
        __import__(mod)
    bad = 0
    with tempfile.TemporaryDirectory() as tmp:
        for f in sorted(os.listdir(common.SPECS)):
            if f.endswith(".tla"):
                p = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", common.TLA_JARS, "tla2sany.SANY", f], cwd=common.SPECS,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    print(p.stdout)
                    bad = 1
                else:
                    print("parsed", f)
    sys.stdout.flush()
    return bad
