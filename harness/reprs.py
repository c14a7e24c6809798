"""Driver for specs/Repr.tla: builds objects in every state, takes their text, looks for secrets and changes."""
import base64

import cbor2
from cryptography.hazmat.primitives import serialization

import cborx
import keylen
import policy
import ref
import refmsg
import values as V
from common import Violation

ALG = {"Enc0": 1, "Enc": 1, "Mac0": 5, "Mac": 5, "Sign1": -7, "Sign": -7, "Direct": -6, "KeyWrap": -3, "DirectKA": -25, "KAKW": -29, "Signer": -7}


def header(kind, r, alg):
    ec = ref.ec_key("P-256", r)
    deep = r.choice([{1: {"a": [b"x" * 30, None, {2: [True]}]}}, [[[]]], "\u00e9" * 40, 1.5, None if False else [None], -2 ** 70])
    h = {"none": {}, "alg": {1: alg}, "iv": {5: r.randbytes(r.choice([0, 1, 7, 12, 13]))}, "piv": {6: r.randbytes(r.choice([0, 1, 13]))},
         "kid": {4: r.randbytes(r.choice([0, 3, 30]))}, "uint": {r.choice([-70001, 100, 2 ** 40]): deep},
         "utext": {r.choice(["label", "", "\u00fc", "IV", "x" * 50]): deep}, "deep": {-70002: deep, "d": deep},
         "eckey": {-1: {**refmsg.public(ec), -4: ec["d"]}}, "symkey": {-1: {1: 4, -1: r.randbytes(16)}},
         "okpkey": {-2: {1: 1, -1: 6, -4: r.randbytes(32), -2: r.randbytes(32)}},
         "list": {2: [1, "x", 5], 33: [b"c" * 30, b"d"], 7: [b"", {}, b"s"]},
         "party": {-21: b"u", -22: r.choice([b"n", 5]), -23: b"", -24: b"v", -25: 7, -26: b"o", -20: b"salt", -3: b"sk"},
         "x5t": {34: [-16, r.randbytes(32)], 35: "http://x", 32: b"bag"}}
    if kind == "rsakey":
        k = r.choice([k for k in ref.rsa_pool() if len(k["n"]) <= 256])
        return {-1: {1: 3, -1: k["n"], -2: k["e"], -3: k["d"], -4: k["p"], -5: k["q"], -6: k["dp"], -7: k["dq"], -8: k["qinv"]}}
    if kind == "many":
        out = {}
        for x in ("alg", "kid", "iv", "uint", "utext", "eckey", "okpkey", "x5t", "party"):
            out.update(h[x])
        if "IV" in out:
            del out["IV"]
        return out
    return h[kind] if kind != "utext" or "IV" not in h["utext"] else {"i-v": 1}


def disjoint(p, u):
    return p, {k: v for k, v in u.items() if k not in p}


def payload(kind, r):
    return {"nil": None, "empty": b"", "short": r.randbytes(r.choice([1, 4, 5, 6])), "long": r.randbytes(r.choice([200, 5000]))}[kind]


def message_class(o):
    from pycose import messages as M
    from pycose.messages import recipient as R
    from pycose.messages.signer import CoseSignature
    return {"Enc0": M.Enc0Message, "Enc": M.EncMessage, "Mac0": M.Mac0Message, "Mac": M.MacMessage, "Sign1": M.Sign1Message, "Sign": M.SignMessage,
            "Direct": R.DirectEncryption, "KeyWrap": R.KeyWrap, "DirectKA": R.DirectKeyAgreement, "KAKW": R.KeyAgreementWithKeyWrap,
            "Signer": CoseSignature}[o]


def nested_spec(o, n, r):
    """n nested recipients or signers, of mixed kinds; 3: nested two levels"""
    if o == "Sign":
        return ["Signer"] * n
    if n == 3:
        return [("KeyWrap", [("KeyWrap", ["KAKW" if r.random() < 0.5 else "Direct"])])]
    kinds = ["KeyWrap", "KAKW"] if r.random() < 0.6 else ["Direct"] * 2 if r.random() < 0.5 else ["DirectKA", "KeyWrap"]
    return kinds[:n]


def key_for(o, r):
    if o in ("Enc0", "Enc", "KeyWrap", "Direct"):
        return {"kty": 4, "k": r.randbytes(16)}
    if o in ("Mac0", "Mac"):
        return {"kty": 4, "k": r.randbytes(32)}
    return ref.ec_key("P-256", r)


def make_nested(spec, r, keyed):
    out = []
    for s in spec:
        o, sub = s if isinstance(s, tuple) else (s, [])
        obj = message_class(o)(phdr={} if r.random() < 0.7 or o == "KeyWrap" else {V.spell_label(r, 4): b"pk"},
                               uhdr=V.spell_header(r, {1: ALG[o], 4: b"n", **({"ul": [1]} if r.random() < 0.3 else {})}))
        if sub:
            obj.recipients = make_nested(sub, r, keyed)
        elif keyed:
            obj.key = V.pycose_key(r, key_for(o, r)) if o not in ("DirectKA", "KAKW") else None
            if o in ("DirectKA", "KAKW"):
                obj.local_attrs = {V.hdr_class(-2): V.pycose_key(r, ref.ec_key("P-256", r), False)}
        out.append(obj)
    return out


def wire_nested(spec, r):
    out = []
    for s in spec:
        o, sub = s if isinstance(s, tuple) else (s, [])
        u = {1: ALG[o], 4: b"n"}
        if o in ("DirectKA", "KAKW"):
            u[-1] = refmsg.public(ref.ec_key("P-256", r))
        out.append([b"", u, r.randbytes(24) if o in ("KeyWrap", "KAKW", "Signer") else b""] + ([wire_nested(sub, r)] if sub else []))
    return out


def parts(obj):
    """the object and everything inside it"""
    yield obj
    for x in list(getattr(obj, "recipients", None) or []) + list(getattr(obj, "signers", None) or []):
        yield from parts(x)


def keys_in(obj):
    from pycose.keys import CoseKey
    for o in parts(obj):
        if isinstance(o, CoseKey):
            yield o
            continue
        if o.key is not None:
            yield o.key
        for h in (o.phdr, o.uhdr, o.local_attrs):
            for v in h.values():
                if isinstance(v, CoseKey):
                    yield v


SECRETS = {1: (-4,), 2: (-4,), 3: (-3, -4, -5, -6, -7, -8, -10, -11, -12), 4: (-1,)}


def secrets_of_map(m):
    out = []
    for lab in SECRETS.get(m.get(1), ()):
        if type(m.get(lab)) is bytes and len(m[lab]) > 5:
            out.append(m[lab])
    for oth in m.get(-9) or []:
        out += [v for v in oth.values() if type(v) is bytes and len(v) > 5]
    return out


def secrets(obj):
    out = []
    for k in keys_in(obj):
        out += secrets_of_map(V.plain(dict(k)) if not isinstance(k, dict) else k)
        out += secrets_of_map({(a.identifier if hasattr(a, "identifier") else a): (b.identifier if hasattr(b, "identifier") else b) for a, b in k.items()})
    return out


def forms(b):
    r = repr(b)[2:-1]
    yield r
    yield r.replace("\\", "\\\\")
    yield b.hex()
    yield b.hex().upper()
    for sep in (" ", ":", "-"):
        yield b.hex(sep)
    yield base64.b64encode(b).decode().rstrip("=")
    yield base64.urlsafe_b64encode(b).decode().rstrip("=")
    yield str(list(b))[1:-1]
    yield str(int.from_bytes(b, "big"))
    yield hex(int.from_bytes(b, "big"))[2:]
    yield repr(bytearray(b))[12:-2]
    yield b.decode("latin-1")


def state_of(o):
    from pycose.keys import CoseKey
    if isinstance(o, CoseKey):
        return repr(sorted(((repr(k), repr(v)) for k, v in o.items()))), o.encode()
    s = [[(repr(k), V.plain(v)) for k, v in o.phdr.items()], [(repr(k), V.plain(v)) for k, v in o.uhdr.items()], o.payload, o.phdr_encoded,
         o.key.encode() if o.key is not None else None, getattr(o, "external_aad", None),
         [(repr(k), V.plain(v)) for k, v in o.local_attrs.items()], getattr(o, "signature", None), getattr(o, "auth_tag", None)]
    return repr(s)


def examine(obj, extra, counts, what, want=0):
    all_ = list(parts(obj))
    keys = list(keys_in(obj))
    sec = secrets(obj) + [s for s in extra if len(s) > 5]
    before = [state_of(o) for o in all_ + keys]
    texts = []
    for o in all_ + keys:
        try:
            t1, t2, t3, t4 = repr(o), str(o), "%s" % (o,), "{}".format([o])
        except Exception as e:
            raise Violation("%s has no text: %r" % (what, e), {"type": type(o).__name__})
        if not all(type(t) is str and t for t in (t1, t2, t3, t4)):
            raise Violation("%s has an empty text" % what)
        if repr(o) != t1:
            raise Violation("the text of %s changes without a reason" % what)
        texts += [t1, t2, t4]
    if [state_of(o) for o in all_ + keys] != before:
        raise Violation("taking the text of %s changed it" % what)
    for s in sec:
        for f in forms(s):
            for t in texts:
                if f in t:
                    raise Violation("the text of %s reveals a secret key value" % what, {"text": t[:400], "form": f[:100]})
    counts["texts"] = counts.get("texts", 0) + len(texts)
    counts["secrets"] = counts.get("secrets", 0) + len(sec)
    if want and not sec:
        raise SystemExit("harness: no secret in %s" % what)


def layer(c, e, r, counts):
    o = c["obj"]
    cls = message_class(o)
    alg = ALG[o]
    p, u = disjoint(header(c["p"], r, alg), header(c["u"], r, alg))
    if 1 not in p and 1 not in u and o != "Sign":
        u[1] = alg
    pl = payload(c["payload"], r)
    spec = nested_spec(o, c["nested"], r)
    rec = key_for(o, r)
    st = c["state"]
    sub = "signers" if o == "Sign" else "recipients"
    if st in ("decoded", "changed"):
        body = [cborx.enc(p) if p else b"", u, pl] + ([b"\x01" * 16] if o in ("Mac0", "Mac", "Sign1") else [])
        if o in ("Enc", "Mac", "Sign", "KeyWrap", "KAKW") and (spec or o == "Sign"):
            body.append(wire_nested(spec, r))
        if o in ("DirectKA", "KAKW") and -1 not in u and -1 not in p:
            u[-1] = refmsg.public(ref.ec_key("P-256", r))
        if o in V_TAGS:
            data, pick = cborx.Tag(V_TAGS[o], body), lambda m: m
        elif o == "Signer":
            body[2] = body[2] or b"sig"
            data, pick = cborx.Tag(98, [b"", {}, b"", [body]]), lambda m: m.signers[0]
        else:
            body[2] = (body[2] or b"ct") if o in ("KeyWrap", "KAKW") else b""
            if o in ("Direct", "KeyWrap"):
                body[0], body[1] = b"", {**p, **u}
            data, pick = cborx.Tag(96, [b"", {1: 1}, None, [body]]), lambda m: m.recipients[0]
        from pycose.messages import CoseMessage
        try:
            obj = pick(CoseMessage.decode(cborx.enc(data)))
        except Exception as x:
            # e.g. a header value the library refuses
            raise Violation("%s is not decoded: %r" % (o, x), {"p": repr(p), "u": repr(u)})
        if st == "changed":
            obj.payload = r.choice([None, b"", b"changed"])
            obj.uhdr_update(V.spell_header(r, {4: b"new", "added": [1]}))
            if r.random() < 0.5:
                obj.phdr_update(V.spell_header(r, {10: b"ctx"}))
            if hasattr(obj, sub) and r.random() < 0.3:
                setattr(obj, sub, [])
    else:
        if st == "built" or st == "protected":
            kw = {"signature" if o == "Signer" else "payload": pl if (pl is not None or o != "Signer") else b""}
            if o in ("Direct", "KeyWrap") and st == "protected":
                p, u = {}, {**u, **p}
            obj = cls(phdr=V.spell_header(r, p), uhdr=V.spell_header(r, u), **kw)
        else:
            obj = cls()
            obj.phdr = V.spell_header(r, p)
            obj.uhdr = V.spell_header(r, u)
            obj.payload = pl
        if spec:
            setattr(obj, sub, make_nested(spec, r, c["key"]))
    if c["key"] and o != "Sign":
        obj.key = V.pycose_key(r, rec, extra=r.choice([None, {2: b"k"}, {"own": 1}]))
    extra = []
    if st == "protected":
        try:
            if o in ("KeyWrap", "KAKW") and c["key"]:
                obj.payload = cek = r.randbytes(r.choice([16, 32]))
                extra.append(cek)
                if o == "KAKW":
                    obj.local_attrs = {V.hdr_class(-2): V.pycose_key(r, ref.ec_key("P-256", r), False)}
                    obj.key = None
            if o in V_TAGS and o.startswith("Enc") and not (5 in p or 5 in u):
                obj.uhdr_update({5: bytes(12)})
            obj.encode() if o in V_TAGS else obj.encode(target_alg=V.alg_class(1))
            counts["protected"] = counts.get("protected", 0) + 1
        except Exception:
            counts["not protected"] = counts.get("not protected", 0) + 1
        # content keys distributed to key wrap recipients
        for x in parts(obj):
            if type(x).__name__ in ("KeyWrap", "KeyAgreementWithKeyWrap") and x is not obj and type(x.payload) is bytes:
                extra.append(x.payload)
    examine(obj, extra, counts, "a %s %s (payload %s, headers %s/%s, %d nested)" % (st, o, c["payload"], c["p"], c["u"], c["nested"]),
            e["secrets"] and c["key"] and st in ("built", "assigned") and o != "Sign")


V_TAGS = {"Enc0": 16, "Mac0": 17, "Sign1": 18, "Enc": 96, "Mac": 97, "Sign": 98}


def pem_of(k, private):
    sk = k["sk"]
    if private:
        return sk.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()).decode()
    return sk.public_key().public_bytes(serialization.Encoding.PEM, serialization.PublicFormat.SubjectPublicKeyInfo).decode()


def odd(r, kind, og, full, rec, ex):
    """keys whose secret values do not have the usual length"""
    from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey
    n = r.choice([6, 8, 15, 16, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 67, 130])
    if kind in ("EC2", "OKP"):
        usual = len(rec["d"])
        n = r.choice([n, usual - 1, usual - 2, usual + 1])
        d = r.randbytes(n - 1) + b"\1"
        if kind == "EC2":
            d = (bytes(max(0, n - usual + 1)) + d)[:n] if n >= usual else d
        full[-4] = d
        if r.random() < 0.7 or kind == "EC2":
            full.pop(-2, None)
            full.pop(-3, None)
        if og == "constructor":
            return (EC2Key if kind == "EC2" else OKPKey)(full[-1], d=d, optional_params=dict(ex))
        if og == "changed":
            k = V.pycose_key(r, rec, True, extra=ex)
            k.d = d
            return k
    else:
        for lab in r.sample([-3, -4, -5, -6, -7, -8], 3):
            full[lab] = r.randbytes(n)
        if kind == "RSA multi":
            full[-9][0][-11] = r.randbytes(n)
        if og == "constructor":
            more = dict(other=full[-9], r_i=full[-10], d_i=full[-11], t_i=full[-12]) if kind == "RSA multi" else {}
            return RSAKey(n=full[-1], e=full[-2], d=full[-3], p=full[-4], q=full[-5], dp=full[-6], dq=full[-7], qinv=full[-8], optional_params=dict(ex), **more)
        if og == "changed":
            k = V.pycose_key(r, rec, True, extra=ex)
            k.d, k.p, k.dq = full[-3], full[-4], full[-7]
            return k
    return CoseKey.from_dict(V.clone(full)) if og == "dict" else CoseKey.decode(cborx.enc(full))


def key(c, e, r, counts):
    from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
    from pycose.keys.keyparam import EC2KpX, EC2KpY, OKPKpX
    kind, pt, og = c["obj"], c["parts"], c["origin"]
    rec = {"EC2": lambda: ref.ec_key(r.choice(["P-256", "P-384", "P-521", "secp256k1"]), r),
           "OKP": lambda: policy.material(r.choice(["Ed25519", "Ed448", "X25519", "X448"] if og != "PEM" else ["Ed25519", "Ed448"]), r),
           "RSA": lambda: r.choice(ref.rsa_pool()), "RSA multi": lambda: r.choice(ref.rsa_pool()),
           "Symmetric": lambda: {"kty": 4, "k": r.randbytes(r.choice([16, 24, 32]))}}[kind]()
    extra = {"none": {}, "kid": {2: r.choice([b"", b"kid", bytes(40)])}, "alg": {3: r.choice([1, -7, 5, "ES256"])},
             "ops": {4: r.sample(sorted(policy.SUPPORTED[rec["kty"]]), 2)}, "no ops": {4: []}, "base iv": {5: r.randbytes(r.choice([0, 7, 13]))},
             "uint": {r.choice([-70001, 100, 6]): [1, {2: b"x"}]}, "utext": {r.choice(["label", "", "x" * 40]): "v"},
             "deep": {-70001: {1: [None, b"", {"a": 1.5}]}, "z": None}}
    extra["all"] = {k: v for x in ("kid", "alg", "ops", "base iv", "uint", "utext", "deep") for k, v in extra[x].items()}
    ex = extra[c["extra"]]
    full = {1: rec["kty"]}
    if kind == "EC2":
        full.update({-1: rec["crv"], -2: rec["x"], -3: rec["y"], -4: rec["d"]})
    elif kind == "OKP":
        full.update({-1: rec["crv"], -2: rec["x"], -4: rec["d"]})
    elif kind == "Symmetric":
        full.update({-1: rec["k"]})
    else:
        full.update({-1: rec["n"], -2: rec["e"], -3: rec["d"], -4: rec["p"], -5: rec["q"], -6: rec["dp"], -7: rec["dq"], -8: rec["qinv"]})
        if kind == "RSA multi":
            full.update({-9: [{-10: r.randbytes(64), -11: r.randbytes(64), -12: r.randbytes(64)} for _ in range(r.choice([1, 2]))],
                         -10: r.randbytes(64), -11: r.randbytes(64), -12: r.randbytes(64)})
    if pt == "public":
        for lab in (-4,) if kind in ("EC2", "OKP") else (-3, -4, -5, -6, -7, -8):
            full.pop(lab)
    if pt == "secret only" and og != "changed":
        full.pop(-2)
    full.update(ex)
    if pt == "odd":
        try:
            k = odd(r, kind, og, full, rec, ex)
        except Exception:
            counts["refused"] = counts.get("refused", 0) + 1
            return
    elif og in ("constructor", "changed"):
        if kind == "RSA multi":
            k = RSAKey(n=full[-1], e=full[-2], d=full[-3], p=full[-4], q=full[-5], dp=full[-6], dq=full[-7], qinv=full[-8], other=full[-9],
                       r_i=full[-10], d_i=full[-11], t_i=full[-12], optional_params=dict(ex))
        elif pt == "secret only" and og == "constructor":
            k = OKPKey(rec["crv"], d=rec["d"], optional_params=dict(ex))
        else:
            k = V.pycose_key(r, rec, pt != "public", extra=ex)
        if og == "changed":
            k.kid = b"changed"
            k["new"] = {"label": [1]}
            k[-65001] = b"v"
            if pt == "secret only":
                del k[{"EC2": EC2KpX, "OKP": OKPKpX}[kind]]
            elif pt == "half":
                # a public point without its y coordinate
                k = V.pycose_key(r, rec, False, extra=ex)
                del k[EC2KpY]
            if kind == "Symmetric":
                k.k = r.randbytes(32)
            if r.random() < 0.4:
                k.key_ops = []
            if r.random() < 0.4:
                k.alg = "A128GCM"
    elif og == "dict":
        k = CoseKey.from_dict(V.clone(full))
    elif og == "CBOR":
        k = CoseKey.decode(cborx.enc(full))
    elif og == "PEM":
        k = (CoseKey.from_pem_private_key if pt == "private" else CoseKey.from_pem_public_key)(pem_of(rec, pt == "private"), optional_params=ex)
    else:
        k = {"EC2": lambda: EC2Key.generate_key(r.choice(["P_256", "P_521", 8]), ex), "OKP": lambda: OKPKey.generate_key(r.choice(["X25519", "ED448", 6]), ex),
             "RSA": lambda: RSAKey.generate_key(1024, ex), "Symmetric": lambda: SymmetricKey.generate_key(r.choice([16, 24, 32]), ex)}[kind]()
    for obj in (k,):
        one_key(obj, counts, "a %s key (%s, %s, %s)" % (kind, pt, c["extra"], og), e["secrets"] and pt not in ("half", "public"))


def one_key(k, counts, what, want):
    class Holder:
        recipients = signers = None
    before = state_of(k)
    sec = secrets_of_map({(a.identifier if hasattr(a, "identifier") else a): (b.identifier if hasattr(b, "identifier") else b) for a, b in k.items()})
    if want and not sec:
        raise SystemExit("harness: no secret in %s" % what)
    try:
        texts = [repr(k), str(k), "%s" % k, "%r" % [k]]
    except Exception as x:
        raise Violation("%s has no text: %r" % (what, x))
    if not all(type(t) is str and t for t in texts):
        raise Violation("%s has an empty text" % what)
    if state_of(k) != before:
        raise Violation("taking the text of %s changed it" % what)
    for s in sec:
        for f in forms(s):
            for t in texts:
                if f in t:
                    raise Violation("the text of %s reveals a secret key value" % what, {"text": t[:400]})
    counts["texts"] = counts.get("texts", 0) + len(texts)
    counts["secrets"] = counts.get("secrets", 0) + len(sec)


def case(c, e, r, counts):
    (layer if c["t"] == "layer" else key)(c, e, r, counts)


def replay_case(rep):
    import table
    return table.replay(rep, case)
