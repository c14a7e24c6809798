"""Exhaustive modification of protected messages: the concrete side of the actions AttackInTransit of
Session.tla.  A modified message may only be accepted when the authenticated contents are unchanged."""
import cbor2

import cborx
import common
import ref
import session
import values as V
from common import Violation

AUTH_AT = {("sign", "A"): 3, ("mac", "A"): 3, ("enc", "A"): 2, ("mac", "B"): 3, ("enc", "B"): 2}


def build(fam, ctx, alg, r, alg_in="p", payload=None):
    """(wire bytes, array, keys, aad, the authenticated term)"""
    from pycose.messages.signer import CoseSignature
    from pycose.messages.recipient import DirectEncryption
    if fam == "sign":
        k = V.sign_keys(r, alg)
    elif fam == "mac":
        k = V.sym_keys(r, r.choice([16, 24, 32]) if alg in ref.HMACS else ref.AESMAC[alg][0])
    else:
        k = V.sym_keys(r, ref.enc_key_len(alg))
    payload = r.choice([b"", b"p", b"payload 16 bytes", r.randbytes(40)]) if payload is None else payload
    aad = r.choice([b"", b"aad"])
    h = {1: alg} if alg_in == "p" else {}
    phdr = dict(h)
    if alg_in != "p" or r.random() < 0.5:
        phdr[4] = b"kid"
    uhdr = {} if alg_in == "p" else {1: alg}
    nonce = None
    cls = session.cls_of(fam, ctx)
    kw = {}
    if fam == "enc":
        nonce = r.randbytes(ref.enc_nonce_len(alg))
    signer = None
    if fam == "sign" and ctx == "B":
        signer = CoseSignature(phdr=V.spell_header(r, phdr), uhdr=V.spell_header(r, uhdr))
        kw["signers"] = [signer]
        body = r.choice([{}, {3: 0}])
        msg = cls(phdr=dict(body), uhdr={}, payload=payload, **kw)
    else:
        if ctx == "B":
            kw["recipients"] = [DirectEncryption(uhdr={1: -6})]
        u = dict(uhdr)
        if nonce is not None:
            u[5] = nonce
        msg = cls(phdr=V.spell_header(r, phdr), uhdr=V.spell_header(r, u), payload=payload, **kw)
    holder = signer or msg
    holder.key = V.pycose_key(r, k[0])
    holder.external_aad = aad
    try:
        with common.limit(60):
            wire = msg.encode()
    except Exception as e:
        raise Violation("protecting a message raised %r" % e, {"alg": V.ALG_NAMES[alg], "key bits": len(k[0].get("n", b"")) * 8})
    return wire, cbor2.loads(wire), k, aad, payload


def auth_of(fam, ctx, arr):
    return arr[3][0][2] if (fam, ctx) == ("sign", "B") else arr[AUTH_AT[fam, ctx]]


def put_auth(fam, ctx, arr, auth):
    arr = list(arr)
    if (fam, ctx) == ("sign", "B"):
        arr[3] = [list(arr[3][0])]
        arr[3][0][2] = auth
    else:
        arr[AUTH_AT[fam, ctx]] = auth
    return arr


def norm(b):
    return b"" if b == b"\xa0" else b


def contents(fam, ctx, wire):
    """everything the protection covers, or None when it is not a message of that type"""
    try:
        obj = cbor2.loads(wire)
    except Exception:
        return None
    if not isinstance(obj, cbor2.CBORTag) or not isinstance(obj.value, (list, tuple)):
        return None
    arr = list(obj.value)
    try:
        # the algorithm in the unprotected bucket is not authenticated and not looked at here
        if (fam, ctx) == ("sign", "B"):
            sg = arr[3][0]
            return (obj.tag, norm(arr[0]), arr[2], norm(sg[0]), sg[2], sg[1].get(1))
        return (obj.tag, norm(arr[0]), arr[2], auth_of(fam, ctx, arr), arr[1].get(5), arr[1].get(1))
    except Exception:
        return None


def receive(fam, ctx, wire, key, aad):
    """(True, value) when the library accepts the message"""
    from pycose.messages import CoseMessage
    try:
        with common.limit(30):
            m = CoseMessage.decode(wire)
            if fam == "sign" and ctx == "B":
                o = m.signers[0]
                o.key, o.external_aad = key, aad
                return o.verify_signature() is True, m.payload
            m.key, m.external_aad = key, aad
            if fam == "sign":
                return m.verify_signature() is True, m.payload
            if fam == "mac":
                return m.verify_tag() is True, m.payload
            if ctx == "B":
                return True, m.decrypt(m.recipients[0])
            return True, m.decrypt()
    except Exception:
        return False, None


CONTEXT = {("sign", "A"): "Signature1", ("mac", "A"): "MAC0"}


def edge(arg):
    """authentication data that starts or ends with zero bytes: made by the reference and by the library,
    complete, without the zeros and with more of them"""
    fam, ctx, alg, alg_in, rep, what = arg
    r = common.rng("mutate", *arg[:5])
    if fam == "sign":
        k = V.sign_keys(r, alg)[0]
        auth = ref.sign
    else:
        k = V.sym_keys(r, r.choice([16, 24, 32]) if alg in ref.HMACS else ref.AESMAC[alg][0])[0]
        auth = lambda a, k, d: ref.mac(a, k["k"], d)  # noqa: E731
    cls = session.cls_of(fam, ctx)
    phdr = {1: alg}
    p = cborx.enc(phdr)
    sk = V.pycose_key(r, k)
    pk = V.pycose_key(r, k, private=fam != "sign")
    counts = {"mutants": 0, "edge_cases": 0}
    pos = [0, -1] + ([None] if alg in ref.ECDSA else [])

    def hit(a, wanted):
        return [x for x in wanted if a[len(a) // 2 if x is None else x] == 0]

    def judge(who, a, payload):
        counts["edge_cases"] += 1
        wire = cborx.enc(cborx.Tag(18 if fam == "sign" else 17, [p, {}, payload, a]))
        if not receive(fam, ctx, wire, pk, b"")[0]:
            raise Violation("a message of %s is not accepted" % who, {"alg": V.ALG_NAMES[alg], "wire": wire.hex()})
        h = len(a) // 2
        for b, desc in [(a.lstrip(b"\x00"), "leading zeros removed"), (a[1:], "first byte removed"), (a.rstrip(b"\x00"), "trailing zeros removed"),
                        (a[:-1], "last byte removed"), (b"\x00" + a, "a zero byte put before"), (a + b"\x00", "a zero byte appended"),
                        (a[:h] + a[h:].lstrip(b"\x00"), "zeros of the second half removed"),
                        (a[:h].lstrip(b"\x00") + a[h:].lstrip(b"\x00"), "zeros of both halves removed"),
                        (b"\x00" + a[:h] + b"\x00" + a[h:], "both halves extended")]:
            if b == a:
                continue
            counts["mutants"] += 1
            w = cborx.enc(cborx.Tag(18 if fam == "sign" else 17, [p, {}, payload, b]))
            if receive(fam, ctx, w, pk, b"")[0]:
                raise Violation("a modified message is accepted: authentication data with %s" % desc,
                                {"alg": V.ALG_NAMES[alg], "original": wire.hex(), "modified": w.hex()})

    wanted = list(pos)
    first = r.getrandbits(32)
    for n in range(4000):
        payload = (first + n).to_bytes(5, "big")
        a = auth(alg, k, cborx.enc([CONTEXT[fam, ctx], p, b"", payload]))
        got = hit(a, wanted)
        if got:
            judge("the reference", a, payload)
            wanted = [x for x in wanted if x not in got]
            if not wanted:
                break
    wanted = list(pos)
    for n in range(1500 if common.THOROUGH or alg not in ref.PSS and alg not in ref.PKCS1 else 150):
        payload = (first + n).to_bytes(5, "big")
        m = cls(phdr={1: V.alg_class(alg)}, uhdr={}, payload=payload)
        m.key = sk
        with common.limit(30):
            a = cbor2.loads(m.encode()).value[3]
        got = hit(a, wanted)
        d = cborx.enc([CONTEXT[fam, ctx], p, b"", payload])
        want = ref_len(fam, alg, k)
        if len(a) != want:
            raise Violation("the authentication data has %d bytes instead of %d" % (len(a), want), {"alg": V.ALG_NAMES[alg]})
        if got:
            good = ref.verify(alg, k, d, a) if fam == "sign" else ref.mac(alg, k["k"], d) == a
            if not good:
                raise Violation("the reference does not accept the authentication data", {"alg": V.ALG_NAMES[alg], "data": d.hex(), "auth": a.hex()})
            judge("the library", a, payload)
            wanted = [x for x in wanted if x not in got]
            if not wanted:
                break
    return {"counts": counts}


def ref_len(fam, alg, k):
    return len(ref.sign(alg, k, b"")) if fam == "sign" else ref.mac_tag_len(alg)


def case(arg):
    fam, ctx, alg, alg_in, rep, what = arg
    if what == "edge":
        return edge(arg)
    r = common.rng("mutate", *arg[:5])
    wire, tagged, k, aad, payload = build(fam, ctx, alg, r, alg_in)
    arr = list(tagged.value)
    tag = tagged.tag
    base = contents(fam, ctx, wire)
    key = V.pycose_key(r, k[0], private=fam != "sign")
    if fam == "sign" and alg in ref.ECDSA:
        pass
    ok, val = receive(fam, ctx, wire, key, aad)
    if not ok or val != payload:
        raise Violation("the unmodified message is not accepted", {"wire": wire.hex()})
    auth = auth_of(fam, ctx, arr)
    counts = {"mutants": 0, "mutants_allowed": 0}

    def try_wire(w, desc):
        counts["mutants"] += 1
        ok, val = receive(fam, ctx, w, key, aad)
        if ok:
            c = contents(fam, ctx, w)
            if c != base or (fam == "enc" and val != payload):
                raise Violation("a modified message is accepted: %s" % desc,
                                {"alg": V.ALG_NAMES[alg], "original": wire.hex(), "modified": w.hex()})
            counts["mutants_allowed"] += 1

    def try_auth(a, desc):
        if a != auth:
            try_wire(cborx.enc(cborx.Tag(tag, put_auth(fam, ctx, arr, a))), desc)

    if what == "auth":
        bits = range(len(auth) * 8)
        if not common.THOROUGH and len(auth) > 100:
            bits = sorted(r.sample(bits, 300)) + list(range(16))
        for i in bits:
            a = bytearray(auth)
            a[i // 8] ^= 0x80 >> i % 8
            try_auth(bytes(a), "bit %d of the authentication data flipped" % i)
        for n in range(len(auth)):
            try_auth(auth[:n], "authentication data cut to %d bytes" % n)
            if n:
                try_auth(auth[n:], "the first %d bytes of the authentication data removed" % n)
        for n in (1, 2, 8, 16, 32):
            for x in (bytes(n), b"\xff" * n, r.randbytes(n)):
                try_auth(auth + x, "%d bytes appended to the authentication data" % n)
                try_auth(x + auth, "%d bytes put before the authentication data" % n)
        h = len(auth) // 2
        try_auth(auth[h:] + auth[:h], "halves exchanged")
        try_auth(bytes(len(auth)), "all zero")
        try_auth(b"\xff" * len(auth), "all ones")
        try_auth(auth[::-1], "reversed")
        try_auth(auth + auth, "doubled")
        try_auth(auth[:h] + bytes(len(auth) - h), "second half zeroed")
        try_auth(bytes(h) + auth[h:], "first half zeroed")
        # other keys, other AAD
        other = V.pycose_key(r, k[1], private=fam != "sign")
        for kk, aa, desc in [(other, aad, "another key"), (key, aad + b"\x00", "a longer AAD"), (key, b"\x00" + aad, "another AAD"),
                             (key, aad[:-1] if aad else b"x", "another AAD"), (key, payload + b"!", "another AAD")]:
            counts["mutants"] += 1
            if receive(fam, ctx, wire, kk, aa)[0]:
                raise Violation("accepted with %s" % desc, {"alg": V.ALG_NAMES[alg], "wire": wire.hex()})
        if fam != "sign":
            kb = k[0]["k"]
            for i in range(len(kb) * 8):
                b = bytearray(kb)
                b[i // 8] ^= 0x80 >> i % 8
                counts["mutants"] += 1
                from pycose.keys import SymmetricKey
                if receive(fam, ctx, wire, SymmetricKey(bytes(b)), aad)[0]:
                    raise Violation("accepted with bit %d of the key flipped" % i, {"alg": V.ALG_NAMES[alg], "wire": wire.hex()})
        n = len(auth) if fam != "enc" else len(auth) - len(payload)
        want = {"sign": lambda: len(ref.sign(alg, k[0], b"")), "mac": lambda: ref.mac_tag_len(alg), "enc": lambda: ref.enc_tag_len(alg)}[fam]()
        if n != want:
            raise Violation("the authentication data has %d bytes instead of %d" % (n, want), {"alg": V.ALG_NAMES[alg]})
    else:
        # every bit of the complete message
        for i in range(len(wire) * 8):
            if len(wire) > 300 and not common.THOROUGH and r.random() > 300 / len(wire):
                continue
            b = bytearray(wire)
            b[i // 8] ^= 0x80 >> i % 8
            try_wire(bytes(b), "bit %d of the message flipped" % i)
        for n in range(len(wire)):
            try_wire(wire[:n], "message cut to %d bytes" % n)
        # bits of the payload and the protected header, keeping the message well-formed
        for pos in (0, 2):
            val = arr[pos]
            if fam == "enc" and pos == 2 or not val:
                continue
            for i in range(len(val) * 8):
                b = bytearray(val)
                b[i // 8] ^= 0x80 >> i % 8
                m = list(arr)
                m[pos] = bytes(b)
                try_wire(cborx.enc(cborx.Tag(tag, m)), "bit %d of field %d flipped" % (i, pos))
        # every other tag
        for t2 in (16, 17, 18, 96, 97, 98):
            if t2 != tag:
                for a2 in (arr, arr[:3], arr + [[[b"", {1: -6}, b""]]], arr[:3] + [[[arr[0], arr[1], auth]]]):
                    try_wire(cborx.enc(cborx.Tag(t2, a2)), "retagged as %d" % t2)
    return {"counts": counts}


def replay_case(rep):
    a = rep["arg"]
    try:
        case(tuple(a))
    except Violation as v:
        print("REPRODUCED: %s %s" % (v.what, v.detail))
        return 1
    print("not reproduced")
    return 0


def explore(report, fams):
    import pools
    args = []
    for fam in fams:
        algs = {"sign": ref.SIGN_ALGS, "mac": ref.MAC_ALGS, "enc": ref.ENC_ALGS}[fam]
        reps = (4 if fam == "sign" else 10) if common.THOROUGH else (1 if fam == "sign" else 2)
        for alg in algs:
            for ctx in "AB":
                for alg_in in "pu":
                    for rep in range(reps):
                        for what in ("auth", "all"):
                            args.append((fam, ctx, alg, alg_in, rep, what))
    if common.THOROUGH:
        reps = 5
    else:
        reps = 1
    for fam in fams:
        if fam != "enc":
            for alg in {"sign": ref.SIGN_ALGS, "mac": ref.MAC_ALGS}[fam]:
                args += [(fam, "A", alg, "p", rep, "edge") for rep in range(reps)]
    common.rng("order").shuffle(args)
    args.sort(key=lambda a: a[5] != "edge")
    n = pools.run(report, "modification in transit", case, args, ("mutate", "case"))
    return n
