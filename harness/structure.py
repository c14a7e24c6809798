"""Driver for specs/Structure.tla."""
import cbor2

import cborx
import common
import keylen
import recips
import ref
import refmsg
import values as V
from common import Violation

ALGS = {"DIR": [-6], "KW": [-3, -4, -5], "OAEP": [-40, -41, -42], "ESD": [-25, -26], "SSD": [-27, -28], "ESW": [-29, -30, -31], "SSW": [-32, -33, -34]}
SMALL_RSA = [0, 1, 4]


def slot(r, cls, n):
    x = object.__new__(recips.Slot)
    x.r, x.kid, x.cls = r, b"slot%d" % n, cls
    x.kind = "direct" if cls == "DIR" else "agree" if cls in ("ESD", "SSD") else "wrap"
    x.alg = r.choice(ALGS[cls])
    x.inner, x.obj, x.rec, x.static, x.extra, x.phdr = [], None, None, None, {}, {}
    if cls == "OAEP":
        x.rec = ref.rsa_pool()[r.choice(SMALL_RSA)]
    elif cls != "DIR":
        x.rec, x.static = keylen.keys_for(x.alg, r)
    if x.alg in ref.ECDH and r.random() < 0.3:
        x.phdr = {1: x.alg}
    return x


def case(c, e, r, counts):
    if c["t"] == "assign":
        return assign(c, e, r, counts)
    w = keylen.World(r.choice(ref.ENC_ALGS if c["host"] == 96 else [4, 5] + sorted(ref.AESMAC)), r)
    slots = [slot(r, k, n) for n, k in enumerate(c["l"])]
    outer = [r.choice([-3, -4, -5]) for _ in range(c["level"])]          # from the outside in
    (send if c["way"] == "send" else receive)(c, e, r, counts, w, slots, outer)


def send(c, e, r, counts, w, slots, outer):
    from pycose.messages import recipient as R
    objs = [x.build() for x in slots]
    x, o = slots[c["at"] - 1], objs[c["at"] - 1]
    f = c["fault"]
    if f == "nested":
        k = slot(r, "KW", 9)
        if r.random() < 0.5:
            o.recipients = [k.build()]
        else:
            o._dummy = None
            o.recipients = [k.build(), slot(r, "KW", 8).build()]
    elif f == "phdr":
        o.phdr = V.spell_header(r, {4: b"p"})
        u = {k: v for k, v in V.unspell(o.uhdr).items() if k != 4}
        if r.random() < 0.3:
            o.phdr = V.spell_header(r, {1: u.pop(1)})
        o.uhdr = V.spell_header(r, u)
    elif f == "no alg":
        for b in ("phdr", "uhdr"):
            h = V.unspell(getattr(o, b))
            h.pop(1, None)
            setattr(o, b, h)
    elif f == "no eph":
        h = V.unspell(o.uhdr)
        h.pop(-1, None)
        o.uhdr = h
        o.key = V.pycose_key(r, x.static)
    elif f == "ct":
        o.payload = r.randbytes(16)
    elif f == "other alg":                               # an algorithm of another recipient class
        same = {"DIR": ["DIR"], "KW": ["KW", "OAEP"], "OAEP": ["KW", "OAEP"], "ESD": ["ESD", "SSD"], "SSD": ["ESD", "SSD"],
                "ESW": ["ESW", "SSW"], "SSW": ["ESW", "SSW"]}[x.cls]
        a = r.choice([b for k in ALGS if k not in same for b in ALGS[k]] + [1, 5, -8])
        b = "phdr" if 1 in x.phdr else "uhdr"
        setattr(o, b, {**V.unspell(getattr(o, b)), 1: a})
    lst = objs
    for a in reversed(outer):
        lst = [R.KeyWrap(uhdr={1: a, 4: b"outer"}, recipients=lst)]
    msg = w.message(lst)
    direct = {"kty": 4, "k": r.randbytes(refmsg.key_len(w.host))}
    if "DIR" in c["l"]:
        msg.key = V.pycose_key(r, direct)
    what = "recipients %s%s%s" % ("/".join(c["l"]), " inside %d key wraps" % len(outer) if outer else "", ", number %d with fault '%s'" % (c["at"], f) if f != "-" else "")
    try:
        body = cbor2.loads(msg.encode()).value
    except Exception as z:
        if e == "ok":
            raise Violation("%s are refused when sending: %r" % (what, z))
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if e != "ok":
        raise Violation("%s are sent" % what)
    entries = body[-1]
    path = []
    for a in outer:
        if len(entries) != 1 or len(entries[0]) != 4:
            raise Violation("%s: the nested recipients are missing" % what)
        path.append(entries[0][2])
        entries = entries[0][3]
    if len(entries) != len(slots):
        raise Violation("%s: %d are sent" % (what, len(entries)))
    target = outer[-1] if outer else w.host
    for y, en in zip(slots, entries):
        if y.kind != "wrap" and en[2] != b"":
            raise Violation("%s: a recipient of class %s is sent with a ciphertext" % (what, y.cls))
        if y.kind != "wrap" and len(en) > 3 or y.cls == "KW" and en[0] != b"":
            raise Violation("%s: %r is sent" % (what, en))
        k = direct["k"] if y.cls == "DIR" else refmsg.open_recipient(en, target, y.rec)
        for ct in reversed(path):
            k = k and ref.kw_unwrap(k, ct)
        if k is None or refmsg.open_body(body, w.tag, k, w.ext) not in (w.payload, True):
            raise Violation("%s: recipient of class %s does not open the message" % (what, y.cls))
    counts["sent"] = counts.get("sent", 0) + 1


def receive(c, e, r, counts, w, slots, outer):
    target = outer[-1] if outer else w.host
    key = r.randbytes(refmsg.key_len(target))
    agree = [x for x in slots if x.kind == "agree"]
    made = {}
    for x in agree:
        made[x] = x.wire(None, target)
    if agree:                                        # the key derived by the first one is the one everybody gets
        key = refmsg.open_recipient(made[agree[0]], target, agree[0].rec)
    entries = [made[x] if x in made else x.wire(key, target) for x in slots]
    x, en = slots[c["at"] - 1], entries[c["at"] - 1]
    f = c["fault"]
    if f == "nested":
        en.append([slot(r, r.choice(["KW", "DIR"]), 9).wire(r.randbytes(16), target)])
    elif f == "phdr":
        en[1] = dict(en[1])
        en[0] = cborx.enc({1: en[1].pop(1)} if r.random() < 0.5 else {4: en[1].pop(4)})
    elif f == "no alg":
        h = cbor2.loads(en[0]) if en[0] else {}
        h.pop(1, None)
        en[0] = cborx.enc(h) if h else b""
        en[1] = {k: v for k, v in en[1].items() if k != 1}
    elif f == "no eph":
        en[1] = {k: v for k, v in en[1].items() if k != -1}
    elif f == "static eph":                         # the key is there, but not as the ephemeral key
        en[1] = {r.choice([-2, -2, -3]) if k == -1 else k: v for k, v in en[1].items()}
    elif f == "content alg":
        h = cbor2.loads(en[0]) if en[0] else {}
        h.pop(1, None)
        en[0] = cborx.enc(h) if h else b""
        en[1] = {**en[1], 1: r.choice([1, 5, 10, 26, -7, -8])}
    elif f == "ct":
        en[2] = r.choice([b"\0", r.randbytes(24)])
    elif f == "no ct":
        en[2] = b""
    elif f == "nil":
        en[2] = None
    elif f == "no array":
        entries[c["at"] - 1] = r.choice([cborx.enc(en), {0: en[0], 1: en[1], 2: en[2]}, None, 5])
    elif f == "short":
        entries[c["at"] - 1] = en[:r.choice([0, 1, 2])]
    k = key
    for i in range(len(outer) - 1, -1, -1):
        nxt = r.randbytes(refmsg.key_len(outer[i - 1] if i else w.host))
        entries = [[b"", {1: outer[i], 4: b"outer"}, ref.kw_wrap(k, nxt), entries]]
        k = nxt
    data = refmsg.protect(w.tag, w.p, w.u, w.payload, w.ext, k, entries)
    what = "recipients %s%s%s" % ("/".join(c["l"]), " inside %d key wraps" % len(outer) if outer else "", ", number %d with fault '%s'" % (c["at"], f) if f != "-" else "")
    if f != "-":                                    # a malformed recipient is refused with the whole message, and at once
        from pycose.messages import CoseMessage
        try:
            CoseMessage.decode(data)
        except Exception:
            counts["undecodable"] = counts.get("undecodable", 0) + 1
            return
        raise Violation("%s: the message is decoded" % what)
    for n in range(len(slots)):
        try:
            got = attempt(data, w, slots, outer, n, key)
        except Exception as z:
            if e == "ok" and not (agree and slots[n] is not agree[0]):
                raise Violation("%s: the message does not open through number %d: %r" % (what, n + 1, z))
            counts["refused"] = counts.get("refused", 0) + 1
            continue
        if e != "ok":
            raise Violation("%s: the message is opened through number %d" % (what, n + 1))
        if not got:
            raise Violation("%s: the message does not open through number %d" % (what, n + 1))
        counts["opened"] = counts.get("opened", 0) + 1


def attempt(data, w, slots, outer, n, key):
    """opens the message with the key of recipient n"""
    from pycose.messages import CoseMessage
    r = w.r
    m = CoseMessage.decode(data)
    m.external_aad = w.ext
    rc, lst = None, m.recipients
    for _ in outer:
        rc = rc or lst[0]
        lst = lst[0].recipients
    x = slots[n]
    if x.kind != "direct":
        lst[n].key = V.pycose_key(r, x.rec)
    if not outer and "DIR" in [y.cls for y in slots]:
        m.key = V.pycose_key(r, {"kty": 4, "k": key})
    elif x.kind == "direct":
        lst[n].key = V.pycose_key(r, {"kty": 4, "k": key})
    rc = rc or lst[n]
    if w.tag == 96:
        return m.decrypt(rc) == w.payload
    if "DIR" in [y.cls for y in slots] and not outer and r.random() < 0.5:
        return m.verify_tag() is True
    return m.verify_tag(rc) is True


def assign(c, e, r, counts):
    """what is in a list of recipients after it is assigned"""
    from pycose.messages import EncMessage, MacMessage
    from pycose.messages.recipient import KeyWrap
    cls = {96: EncMessage, 97: MacMessage, 0: KeyWrap}[c["host"]]
    a = [slot(r, "KW", n).build() for n in range(c["first"])]
    b = [slot(r, "KW", n + 4).build() for n in range(c["second"])]
    if c["second"] and c["first"] and r.random() < 0.3:
        b[0] = a[0]
    o = cls(recipients=a or r.choice([None, []])) if r.random() < 0.5 else cls()
    o.recipients = a
    new = list(b)
    if c["bad"] == "not a recipient":
        new.insert(r.randrange(len(new) + 1), r.choice([None, 1, "KW", EncMessage(), KeyWrap, {}]))
    elif c["bad"] == "no list":
        new = r.choice([1, True, object(), 2.5, a[0] if a else 7])
    try:
        if c["how"] == "assign":
            o.recipients = new if c["bad"] != "-" or new else r.choice([new, None])
        else:
            o = cls(recipients=new)
    except Exception as z:
        if c["bad"] == "-":
            raise Violation("a list of recipients is refused: %r" % z)
        if list(o.recipients) != a:
            raise Violation("a refused list of recipients changed the recipients")
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if c["bad"] != "-":
        raise Violation("a list of recipients that are none is taken (%s)" % c["bad"])
    got = list(o.recipients)
    if len(got) != int(e) or any(x is not y for x, y in zip(got, b)):
        raise Violation("assigning %d recipients leaves %d" % (len(b), len(got)))
    counts["assigned"] = counts.get("assigned", 0) + 1


def replay_case(rep):
    import table
    return table.replay(rep, case)
