"""Driver for specs/Headers.tla: the header buckets of messages, signers and recipients of every kind."""
import cborx
import common
import ref
import values as V
from common import Violation

KINDS = ["Sign1", "Enc0", "Mac0", "Sign", "Mac", "Enc", "Signer", "KA", "DKA", "Direct", "Nested", "KW", "NestedKA"]
MESSAGES = {"Sign1", "Enc0", "Mac0", "Sign", "Mac", "Enc"}
ALG_IDS = {v.upper(): k for k, v in V.ALG_NAMES.items()}
RECIPIENTS = {"KA", "DKA", "Direct", "Nested", "KW", "NestedKA"}
BYTES_LABELS = [4, 6, 10, 9]


def bad_bytes(r):
    return r.choice(["text", "", 1, 0, -5, None, True, 1.5, [], [b"x"], {}, {1: b"x"}])


def bad_value(r, label):
    if label in (4, 5, 6, 9, 10):
        return bad_bytes(r)
    if label == 2:
        return r.choice([[], "x", 1, [1.5], [b"x"], {}, {1: 2}, None, [4, b"x"], [None], [[1]], b"", "", [4, 2.5]])
    if label == 3:
        return r.choice([-1, -65537, b"", b"text/plain", 1.5, None, [], {}, [0], {0: 0}])
    if label == 1:
        return r.choice([0, 8, 9, 34, 999, -1, -2, -9, -46, -66000, 2 ** 40, "NOALG", "", "ES25", b"", b"ES256", 1.5, {}, "HS256x"])
    raise KeyError(label)


def good_pair(r, label):
    """two different valid values as on the wire"""
    if label == 1:
        return r.sample(sorted(V.ALG_CLASSES), 2)
    for _, i, f in V.KNOWN:
        if i == label:
            while True:
                a, b = f(r), f(r)
                if not V.same(a, b):
                    return a, b
    if label in (5, 6):
        a = r.randbytes(r.choice([0, 1, 2, 7, 12, 13, 40]))
        return a, V.near(r, a) if a else b"\x00"
    while True:
        a, b = V._any(r), V._any(r)
        if a is not None and b is not None and not V.same(a, b):
            return a, b


class Headers:
    probe_ops = ("get",)

    restricted = ["r"]

    def __init__(self, consts, rnd, world=None):
        self.c, self.rnd = consts, rnd
        self.counters = {}
        self.last_error = None
        r = rnd
        self.kind = r.choice(sorted(consts.get("Kinds") or KINDS))
        self.counters["kind " + self.kind] = 1
        if world:
            self.lab, self.val, self.miss, self.restricted = world
        else:
            self.choose()
        self.alg = {"Sign1": None, "Enc0": None, "Mac0": 5, "Mac": 5, "Enc": 1, "Sign": None, "Signer": -8, "KA": -32, "DKA": -27, "NestedKA": -32, "Direct": -6,
                    "Nested": -3, "KW": -3}[self.kind]
        self.sk = ref.ed_key("Ed25519", r)
        self.cek = r.randbytes(16)
        self.sender, self.receiver = ref.ec_key("P-256", r), ref.ec_key("P-256", r)
        self.kek = r.randbytes(16)
        self.mac = r.random() < 0.4                              # recipients of COSE_Mac or of COSE_Encrypt
        self.raw = None
        self.forced = None                                       # (bucket, value) to put into a message in transit
        # hidden entries of the unprotected bucket that make the message work
        self.hidden = {}
        if self.alg is not None:
            self.hidden[1] = self.alg
        if self.kind == "Enc":
            self.hidden[5] = r.randbytes(12)
        if self.kind in ("KA", "DKA", "NestedKA"):
            self.hidden[-2] = {1: 2, -1: 1, -2: self.sender["x"], -3: self.sender["y"]}

    def choose(self):
        r = self.rnd
        free = self.kind in ("Sign1", "Enc0")                # no cryptography involved
        typed = BYTES_LABELS + [2, 3] + ([1, 1, 5] if free else [])
        used = {1, 5, -2, -1} if not free else set()
        self.lab = {}
        self.lab["r"] = r.choice(typed)
        used.add(self.lab["r"])
        others = [x for x in [7, 32, 33, 34, 35, 4, 10, 3, -20, -21, -24] if x not in used]
        if self.kind in ("KA", "DKA", "NestedKA"):
            others = [7, 32, 34, 35, 4, 10, 3]               # what does not go into the key derivation
            others = [x for x in others if x not in used]
        self.lab["s"] = r.choice(others)
        used.add(self.lab["s"])
        self.lab["x"] = r.choice([x for x in V.UNKNOWN if x not in used])
        self.miss = r.choice([x for x in V.CLASSNAMES if x not in used and x not in (1, 5, -1, -2)])
        self.val = {}
        for l in ("r", "s", "x"):
            if l == "s" and self.lab[l] in (-20, -21, -24):
                a = r.randbytes(5)
                self.val[l] = (a, V.near(r, a))
            else:
                self.val[l] = good_pair(r, self.lab[l])

    def describe(self):
        return {"kind": self.kind, "labels": self.lab, "values": repr(self.val)[:300]}

    # ------------------------------------------------------------- abstraction
    def wire_map(self, m, bucket):
        out = {}
        items = [(l, v) for l, v in m.items() if v != "-"]
        for l, v in sorted(items):
            out[self.lab[l]] = bad_value(self.rnd, self.lab[l]) if v == "bad" else self.val[l]["abcd".index(v)]
        if bucket == "u":
            out.update(self.hidden)
        items = list(out.items())
        self.rnd.shuffle(items)
        return dict(items)

    def caller_map(self, m, bucket):
        return V.spell_header(self.rnd, self.wire_map(m, bucket))

    # ---------------------------------------------------------------- objects
    def p_allowed(self):
        return self.kind not in ("Direct", "Nested", "KW")

    def make(self, p, u, **kw):
        """the object with these caller-side headers"""
        from pycose import messages
        from pycose.messages.signer import CoseSignature
        from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
        k = self.kind
        if k == "Signer":
            o = CoseSignature(phdr=p, uhdr=u, **kw)
        elif k in ("KA", "NestedKA"):
            o = KeyAgreementWithKeyWrap(phdr=p, uhdr=u, payload=self.cek, **kw)
        elif k == "DKA":
            o = DirectKeyAgreement(phdr=p, uhdr=u, **kw)
        elif k == "Direct":
            o = DirectEncryption(phdr=p, uhdr=u, **kw)
        elif k in ("Nested", "KW"):
            o = KeyWrap(phdr=p, uhdr=u, payload=self.cek, **kw)
        else:
            return getattr(messages, k + "Message")(phdr=p, uhdr=u, payload=b"payload", **kw)
        return o

    def equip(self):
        """what a signer or recipient needs for the message around it to be encoded"""
        from pycose.headers import StaticKey
        from pycose.keys import SymmetricKey
        o, k, r = self.obj, self.kind, self.rnd
        if k == "Signer":
            o.key = V.pycose_key(r, self.sk)
        elif k in ("KA", "DKA", "NestedKA"):
            if k != "DKA":
                o.payload = self.cek
            o.key = V.pycose_key(r, self.sender)
            o.local_attrs = {StaticKey: V.pycose_key(r, self.receiver, private=False)}
        elif k in ("Nested", "KW"):
            o.payload = self.cek
            o.key = SymmetricKey(self.kek)

    def start(self, s):
        r = self.rnd
        self.tstr = self.kind in MESSAGES and self.c.get("Tstr", True) and r.random() < 0.15      # algorithms as text on the wire
        kw = {"alg_tstr_encoding": True} if self.tstr else {}
        self.obj = self.make(self.caller_map(s["p"], "p"), self.caller_map(s["u"], "u"), **kw)
        self.raw = None

    # ------------------------------------------------------------- observation
    def observe(self, t):
        from pycose import headers
        import cbor2
        o = self.obj
        for b, hdr in (("p", o.phdr), ("u", o.uhdr)):
            want = self.wire_map(t[b], b)
            got = V.unspell(hdr)
            if not V.same_map(got, want):
                raise Violation("the %s bucket holds %r instead of %r" % (b, got, want))
            for lab in hdr:
                if isinstance(lab, (int, str)) and lab in V.CLASSNAMES:
                    raise Violation("the registered label %r is not kept under its class" % (lab,))
            for lab in want:
                if lab in V.CLASSNAMES and V.hdr_class(lab) not in hdr:
                    raise Violation("header parameter %r is not found under its class" % (lab,))
        enc = o.phdr_encoded
        if t["src"] == "recv":
            if enc != self.raw:
                raise Violation("the received protected header %s is now serialized as %s" % (self.raw.hex(), enc.hex()))
        elif not enc:
            if self.wire_map(t["p"], "p"):
                raise Violation("a protected header is serialized as an empty string")
        else:
            want = self.wire_map(t["p"], "p")
            got = self.named(cbor2.loads(enc))
            if not isinstance(got, dict) or not want or not V.same_map(got, want):
                raise Violation("the protected header is serialized with contents %r instead of %r" % (got, want))

    # -------------------------------------------------------------- operations
    def attempt(self, f):
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:
            self.last_error = "%s: %s" % (type(e).__name__, e)
            return "bad", None

    def step(self, op, s, t, r):
        self.last_error = None
        return getattr(self, "do_" + op["name"])(op, s, t)

    def do_set(self, op, s, t):
        m = self.caller_map(op["m"], op["b"])

        def f():
            if op["b"] == "p":
                self.obj.phdr = m
            else:
                self.obj.uhdr = m
        return self.attempt(f)[0]

    def do_upd(self, op, s, t):
        m = self.caller_map(op["m"], "p")                     # without the hidden ones
        if "bad" not in op["m"].values() and (op["b"] == "u" or s["src"] == "own") and self.rnd.random() < 0.25:
            self.count("changes in place")
            return self.attempt(lambda: V.in_place(self.obj.phdr if op["b"] == "p" else self.obj.uhdr, m))[0]
        return self.attempt(lambda: (self.obj.phdr_update if op["b"] == "p" else self.obj.uhdr_update)(m))[0]

    def do_get(self, op, s, t):
        return self.lookup(self.lab[op["l"]], op["d"], op["l"])

    def do_miss(self, op, s, t):
        return self.lookup(self.miss, op["d"], None)

    def lookup(self, lab, d, l):
        name = V.hdr_class(lab) if lab in V.CLASSNAMES else lab
        default = object()
        out, v = self.attempt(lambda: self.obj.get_attr(name, default) if d == "dflt" else self.obj.get_attr(name))
        if out == "bad":
            return "dup"
        if v is default:
            return "dflt"
        if v is None:
            return "none"
        v = v.identifier if hasattr(v, "identifier") else v
        if l is not None:
            for k, x in zip("abcd", self.val[l]):
                if V.same(V.plain(v), x):
                    return k
        return repr(v)

    def do_new(self, op, s, t):
        p, u = dict(s["p"]), dict(s["u"])
        if op["b"] != "-":
            {"p": p, "u": u}[op["b"]][self.rnd.choice(self.restricted)] = "bad"
        kw = {} if op["pol"] == "allow" and self.rnd.random() < 0.5 else {"allow_unknown_attributes": op["pol"] == "allow"}
        pm, um = self.caller_map(p, "p"), self.caller_map(u, "u")
        before = repr((pm, um))
        out, o = self.attempt(lambda: self.make(pm, um, **kw))
        if repr((pm, um)) != before:
            raise Violation("constructing an object changed the caller's dictionary")
        if out == "ok":
            if not V.same_map(V.unspell(o.phdr), self.wire_map(s["p"], "p")) or not V.same_map(V.unspell(o.uhdr), self.wire_map(s["u"], "u")):
                raise Violation("a new object has headers %r %r" % (o.phdr, o.uhdr))
        return out

    # --------------------------------------------------------------- transport
    def wire(self):
        """the complete message around the object, as the library encodes it (list form), and where the
        headers of the object are in it"""
        import cbor2
        from pycose import messages
        from pycose.keys import SymmetricKey
        o, k, r = self.obj, self.kind, self.rnd
        if k == "Sign1":
            data, path = o.encode(sign=False), ()
        elif k == "Enc0":
            data, path = o.encode(encrypt=False), ()
        elif k == "Mac0":
            o.key = SymmetricKey(self.cek)
            data, path = o.encode(), ()
        elif k == "Sign":
            o.signers = [self.plain_signer()]
            data, path = o.encode(), ()
        elif k in ("Mac", "Enc"):
            from pycose.messages.recipient import DirectEncryption
            o.key = SymmetricKey(self.cek)
            if not o.recipients:
                o.recipients = [DirectEncryption(uhdr={1: -6})]
            o.payload = b"payload"
            data, path = o.encode(), ()
        elif k == "Signer":
            self.equip()
            m = messages.SignMessage(uhdr={}, payload=b"payload", signers=[o])
            data, path = m.encode(), (3, 0)
        elif k in ("Nested", "NestedKA"):
            from pycose.messages.recipient import KeyWrap
            self.equip()
            outer = KeyWrap(uhdr={1: -3}, payload=r.randbytes(16), recipients=[o])
            m = messages.EncMessage(phdr={1: 1}, uhdr={5: bytes(12)}, payload=b"payload", recipients=[outer])
            data, path = m.encode(), (3, 0, 3, 0)
        else:
            self.equip()
            if self.mac:
                m = messages.MacMessage(phdr={1: 25}, uhdr={}, payload=b"payload", recipients=[o])
            else:
                m = messages.EncMessage(phdr={1: 1}, uhdr={5: bytes(12)}, payload=b"payload", recipients=[o])
            if k == "Direct":
                m.key = SymmetricKey(self.cek)
            data, path = m.encode(), (4 if self.mac else 3, 0)
        return data, path

    def plain_signer(self):
        from pycose.messages.signer import CoseSignature
        return CoseSignature(phdr={1: -8}, key=V.pycose_key(self.rnd, self.sk))

    def locate(self, arr, path):
        for i in path:
            arr = arr[i]
        return arr

    def extract(self, m):
        k = self.kind
        if k == "Signer":
            return m.signers[0]
        if k in ("Nested", "NestedKA"):
            return m.recipients[0].recipients[0]
        if k in RECIPIENTS:
            return m.recipients[0]
        return m

    def outer(self):
        if self.kind in ("Nested", "NestedKA"):
            return "Enc"
        if self.kind in RECIPIENTS:
            return "Mac" if self.mac else "Enc"
        return "Sign" if self.kind == "Signer" else self.kind

    def send(self, s, form, pol, bad_bucket=None):
        import cbor2
        from pycose.messages import CoseMessage
        r = self.rnd
        try:
            data, path = self.wire()
        except Exception as e:
            raise Violation("encoding raised %s: %s" % (type(e).__name__, e))
        obj = cbor2.loads(data)
        hdr = self.locate(obj.value, path)
        pwant, uwant = self.wire_map(s["p"], "p"), self.wire_map(s["u"], "u")
        if not isinstance(hdr[1], dict) or not V.same_map(self.named(hdr[1]), uwant):
            raise Violation("unprotected bucket encoded as %r instead of %r" % (hdr[1], uwant))
        got = cbor2.loads(hdr[0]) if hdr[0] else {}
        if s["src"] == "own":
            got = self.named(got)
        elif isinstance(got.get(1), str):
            got = dict(got)
            got[1] = ALG_IDS[got[1].upper()]
        if not V.same_map(got, pwant):
            raise Violation("protected bucket encoded as %r instead of %r" % (got, pwant))
        if s["src"] == "recv" and hdr[0] != self.raw:
            raise Violation("received protected header %s re-encoded as %s" % (self.raw.hex(), hdr[0].hex()))
        raw = hdr[0]
        changed = False
        if self.kind == "Sign1" and len(obj.value) == 3:      # not signed yet
            obj.value.append(b"signature")
            changed = True
        if form == "non" and (pwant or self.p_allowed()):
            pw = dict(pwant)
            if 1 in pw and r.random() < 0.4:
                pw[1] = V.case(r, V.ALG_NAMES[pw[1]])
            raw = cborx.enc_map_noncanonical(pw, r.randrange(6)) if pw else b"\xa0"
            changed = True
        if bad_bucket == "p":
            pwant = dict(pwant)
            lab = self.lab[r.choice(self.restricted)]
            pwant[lab] = bad_value(r, lab)
            raw = cborx.enc(pwant)
            changed = True
        hdr[0] = raw
        if bad_bucket == "u":
            hdr[1] = dict(hdr[1])
            lab = self.lab[r.choice(self.restricted)]
            hdr[1][lab] = bad_value(r, lab)
            changed = True
        if self.forced:
            b, v = self.forced
            m = cbor2.loads(hdr[0]) if b == "p" and hdr[0] else dict(hdr[1]) if b == "u" else {}
            m[self.lab["r"]] = v
            m = {k: cborx.Raw(cbor2.dumps(x)) for k, x in m.items()}
            hdr[0 if b == "p" else 1] = cborx.enc(m) if b == "p" else m
            changed = True
        if changed:
            data = cborx.enc(cborx.Tag(obj.tag, obj.value))
        cls = CoseMessage if r.random() < 0.5 else None
        if cls is None:
            from pycose import messages
            cls = getattr(messages, self.outer() + "Message")
        kw = {} if pol == "allow" and r.random() < 0.5 else {"allow_unknown_attributes": pol == "allow"}
        out, m = self.attempt(lambda: cls.decode(data, **kw))
        if out == "ok" and bad_bucket is None:
            self.obj = self.extract(m)
            self.raw = raw
            self.tstr = False
            self.count("transports")
        return out

    def named(self, m):
        """an encoded header of the object; the algorithm may have been asked to be sent by name"""
        if not isinstance(m, dict) or 1 not in m:
            return m
        m = dict(m)
        if self.tstr and isinstance(m[1], str) and m[1].upper() in ALG_IDS:
            m[1] = ALG_IDS[m[1].upper()]
        elif self.tstr:
            raise Violation("the algorithm is encoded as %r although its name was asked for" % (m[1],))
        return m

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def do_send(self, op, s, t):
        return self.send(s, op["form"], op["pol"])

    def do_recvbad(self, op, s, t):
        return self.send(s, "lib", op["pol"], bad_bucket=op["b"])



# ----------------------------------------------------- specs/HeaderTypes.tla
class Tag:
    """something cbor2 encodes that is no header value of any kind"""


def shape(r, s, wire):
    import cbor2
    v = {"bstr": lambda: r.randbytes(r.choice([1, 2, 12, 16, 300])), "bstr0": lambda: b"", "tstr": lambda: r.choice(["kid", "x", "\u00fc", "A" * 300, "12"]),
         "tstr0": lambda: "", "uint": lambda: r.choice([8, 9, 34, 100, 65535, 2 ** 40]), "zero": lambda: 0, "nint": lambda: r.choice([-1, -2, -9, -46, -65536, -2 ** 40]),
         "null": lambda: None, "float": lambda: r.choice([1.5, 0.0, -3.25, 5.0]), "list0": lambda: [],
         "list int": lambda: r.choice([[1], [0], [-70000, 5], [4, 4]]), "list tstr": lambda: r.choice([["a"], ["", "b"]]),
         "list mixed": lambda: r.choice([[1, "a"], ["x", -5]]), "list bstr": lambda: r.choice([[b"a"], [1, b"x"], ["a", b""]]),
         "list float": lambda: r.choice([[1.5], [1, 2.0]]), "list null": lambda: r.choice([[None], [4, None], ["x", None], [[4]], [4, {}]]),
         "map": lambda: r.choice([{1: 2}, {"a": b"b"}]), "map0": lambda: {}, "alg id": lambda: r.choice(sorted(V.ALG_CLASSES)),
         "alg name": lambda: V.case(r, r.choice(sorted(V.ALG_NAMES.values()))), "alg unknown id": lambda: r.choice([8, 9, 34, -9, -46, -66000, 0]),
         "alg unknown name": lambda: r.choice(["ES255", "A128", "none", "HS256 ", " ES256", "ES-256"]),
         "key map": lambda: {1: 4, -1: bytes(16)}, "tag": lambda: cbor2.CBORTag(99999, b"x"),
         "array": lambda: r.choice([bytearray(r.randbytes(r.choice([0, 2, 13]))), memoryview(r.randbytes(r.choice([1, 12])))])}[s]()
    if s == "alg id" and not wire and r.random() < 0.5:
        v = V.alg_class(v)
    return v


KIND_OF = {"Sign1": "Sign1", "Enc0": "Enc0", "Mac0": "Mac0", "Sign": "Sign", "Mac": "Mac", "Enc": "Enc", "Signer": "Signer",
           "Recipient": ["KA", "DKA", "KW", "Direct"], "Nested": ["Nested", "NestedKA"]}


def type_case(c, expected, r, counts):
    kinds = KIND_OF[c["layer"]]
    if isinstance(kinds, list):
        kinds = [k for k in kinds if c["b"] == "u" or k not in ("Direct", "KW", "Nested")]
    else:
        kinds = [kinds]
    kind = r.choice(kinds)
    d = Headers({"Kinds": [kind], "Tstr": False}, r)
    lab = c["l"]
    v = shape(r, c["s"], c["e"] == "recv")
    if lab == 1 and expected == "ok":
        # algorithms have their place in the other kinds of objects
        if kind not in ("Sign1", "Enc0"):
            return
    if lab == 5 and kind == "Enc" and expected == "ok":
        return
    empty = {"r": "-", "s": "-", "x": "-"}
    s0 = {"p": empty, "u": empty, "src": "own"}
    h = {}
    if c["b"] == "u":
        h.update((k, x) for k, x in d.hidden.items() if k != lab)
    h[V.spell_label(r, lab)] = v
    out = None
    if c["e"] == "ctor":
        out, d.obj = d.attempt(lambda: d.make(h if c["b"] == "p" else {}, h if c["b"] == "u" else dict(d.hidden)))
    else:
        d.start(s0)
        if c["e"] == "set":
            def f():
                if c["b"] == "p":
                    d.obj.phdr = h
                else:
                    d.obj.uhdr = h
            out = d.attempt(f)[0]
        elif c["e"] == "upd":
            out = d.attempt(lambda: (d.obj.phdr_update if c["b"] == "p" else d.obj.uhdr_update)(h))[0]
        else:
            d.lab["r"] = lab
            d.forced = (c["b"], v)
            out = d.send(s0, "lib", "allow")
    if out != expected:
        raise Violation("header parameter %d with value %r: %s in the %s bucket of %s (%s) instead of %s" % (
            lab, v, out, c["b"], kind, c["e"], expected), {"error": d.last_error})
    if out == "ok":
        m = d.obj.phdr if c["b"] == "p" else d.obj.uhdr
        got = V.unspell(m).get(lab)
        want = v.identifier if hasattr(v, "identifier") else v
        if lab == 1 and isinstance(want, str):
            want = ALG_IDS[want.upper()]
        if not V.same(V.plain(got), want):
            raise Violation("header parameter %d set to %r reads %r" % (lab, want, got))


def replay_type_case(rep):
    import table
    return table.replay(rep, type_case)


# ----------------------------------------------------------- specs/Layers.tla
BODY_CLASS = {16: "Enc0Message", 17: "Mac0Message", 18: "Sign1Message", 96: "EncMessage", 97: "MacMessage", 98: "SignMessage"}
EC = None


class Layer:
    def __init__(self, pos, p, u):
        self.pos, self.p, self.u, self.inner = pos, p, u, []


def layer_case(c, expected, r, counts):
    from pycose import messages
    global EC
    EC = EC or ref.ec_key("P-256", r)
    pub = {1: 2, -1: 1, -2: EC["x"], -3: EC["y"]}
    t = c["t"]
    layers = {}
    positions = sorted((tuple(p) for p in c["s"]), key=lambda p: (len(p), p))
    found = {}
    for f in c["f"]:
        found.setdefault((tuple(f["p"]), f["b"]), []).append(f["k"])
    wire = {}
    for pos in reversed(positions):
        kids = [p for p in positions if len(p) == len(pos) + 1 and p[:-1] == pos]
        p, u = {}, {}
        alg = None
        if not pos:
            alg = {16: 1, 17: 5, 18: -7, 96: 1, 97: 5}.get(t)
            if t in (16, 96):
                (p if r.random() < 0.5 else u)[5] = bytes(12)
        elif t == 98:
            alg = r.choice([-7, -8, -37])
        else:
            alone = len([q for q in positions if q[:-1] == pos[:-1]]) == 2 if not pos[:-1] else len([q for q in positions if q[:-1] == pos[:-1]]) == 1
            if kids:
                alg = r.choice([-3, -4, -5])
            elif (pos, "p") in found:
                alg = r.choice([-29, -30, -31, -32, -33, -34] + ([-25, -26, -27, -28] if alone else []))
            else:
                alg = r.choice([-3, -4, -5, -40, -41, -42, -29, -32, -34] + ([-25, -27] if alone else []) + ([-6] if alone and len(pos) == 1 else []))
            if alg in ref.ECDH:
                u[-1 if ref.ECDH[alg][1] else -2] = pub
        own_p = p if not pos or t == 98 or alg in ref.ECDH else u
        if alg is not None:
            (own_p if r.random() < 0.6 else u)[1] = alg
        used = set(p) | set(u)
        for b, h in (("p", p), ("u", u)):
            for k in found.get((pos, b), ()):
                if k == "unknown":
                    lab = r.choice([x for x in V.UNKNOWN if x not in used])
                    v = good_pair(r, lab)[0]
                else:
                    lab = r.choice([x for x in (4, 6, 9, 10, 2, 3) if x not in used])
                    v = bad_value(r, lab)
                used.add(lab)
                h[lab] = v
            if r.random() < 0.3 and (b == "u" or (pos, "p") in found or not pos or t == 98):
                lab = r.choice([x for x in (4, 10, 3, 7, 32, 34, 35) if x not in used])
                used.add(lab)
                h[lab] = good_pair(r, lab)[0]
        items = list(u.items())
        r.shuffle(items)
        u = dict(items)
        ct = b"" if alg in (-6, -25, -26, -27, -28) else bytes(24)
        last = {16: [bytes(20)], 17: [b"payload", bytes(32)], 18: [b"payload", bytes(64)], 96: [bytes(20)], 97: [b"payload", bytes(32)], 98: [b"payload"]}[t] if not pos \
            else [ct] if t != 98 else [bytes(64)]
        wire[pos] = [cborx.enc(p) if p else b"", u] + last + ([[wire[k] for k in kids]] if kids else [])
        layers[pos] = (p, u)
    data = cborx.enc(cborx.Tag(t, wire[()]))
    cls = messages.CoseMessage if c["cls"] == "generic" else getattr(messages, BODY_CLASS[t])
    kw = {"default": {}, "allow": {"allow_unknown_attributes": True}, "deny": {"allow_unknown_attributes": False}}[c["policy"]]
    if r.random() < 0.3:                                     # the receiver of an earlier message had another policy
        try:
            cls.decode(data, allow_unknown_attributes=c["policy"] == "deny")
        except Exception:
            pass
    what = "a message with tag %d, layers %s, %s (unknown labels: %s)" % (t, positions, "; ".join("%s in the %s bucket of layer %s" % (f["k"], f["b"], tuple(f["p"]))
                                                                                              for f in c["f"]) or "nothing special", c["policy"])
    try:
        m = cls.decode(data, **kw)
    except Exception as x:
        if expected == "ok":
            raise Violation("%s is refused: %r" % (what, x), {"data": data.hex()})
        counts["refused"] = counts.get("refused", 0) + 1
        return
    if expected != "ok":
        raise Violation("%s is accepted" % what, {"data": data.hex()})
    for pos in positions:
        o = m
        for n, i in enumerate(pos):
            o = (o.signers if t == 98 else o.recipients)[i - 1]
        n = len((o.signers if t == 98 and not pos else getattr(o, "recipients", [])) or [])
        if n != len([q for q in positions if len(q) == len(pos) + 1 and q[:-1] == pos]):
            raise Violation("%s: layer %s is received with %d layers below" % (what, pos, n))
        for b, h in zip("pu", layers[pos]):
            got = {k: v for k, v in V.unspell(getattr(o, b + "hdr")).items()}
            if not V.same_map({k: V.plain(v) for k, v in got.items() if k not in (-1, -2)}, {k: v for k, v in h.items() if k not in (-1, -2)}) or set(got) != set(h):
                raise Violation("%s: the %s bucket of layer %s reads %r instead of %r" % (what, b, pos, got, h), {"data": data.hex()})
    counts["accepted"] = counts.get("accepted", 0) + 1


def replay_layer_case(rep):
    import table
    return table.replay(rep, layer_case)


# ---------------------------------------------------- specs/HeadersTrace.tla
TRACE_LABELS = {"Restricted": {"r1", "r2", "r3", "r4"}, "Unknown": {"x1", "x2", "x3"}, "Other": {"s1", "s2", "s3", "s4"}}


class Client:
    """several objects, many parameters; knows what it put where only as far as it needs to choose calls"""

    def __init__(self, args, rnd):
        r = self.r = rnd
        kinds = args.get("Kinds") or KINDS
        kinds = [r.choice(kinds) for _ in range(r.choice([1, 2, 3]))]
        lab = dict(zip(["r1", "r2", "r3", "r4"], r.sample(BYTES_LABELS + [2, 3], 4)))
        others = [x for x in [7, 32, 33, 34, 35, 4, 10, 3, 9] if x not in lab.values()]
        if not set(kinds) & {"KA", "DKA", "NestedKA"}:
            others += [-20, -21, -22, -24, -26]
        if set(kinds) & RECIPIENTS:
            others = [x for x in others if x != 33]
        lab.update(zip(["s1", "s2", "s3", "s4"], r.sample(others, 4)))
        lab.update(zip(["x1", "x2", "x3"], r.sample([x for x in V.UNKNOWN], 3)))
        if len(set(map(repr, lab.values()))) != 11:
            raise AssertionError(lab)
        val = {}
        for l, x in lab.items():
            vs = []
            for _ in range(20):
                if x in (-20, -21, -22, -24, -26):
                    c = r.randbytes(r.choice([1, 5]))
                    pair = c, V.near(r, c)
                else:
                    pair = good_pair(r, x)
                for v in pair:
                    if len(vs) < 4 and not any(V.same(v, w) for w in vs):
                        vs.append(v)
            val[l] = tuple(vs)
        miss = r.choice([x for x in V.CLASSNAMES if x not in lab.values() and x not in (1, 5, -1, -2)])
        world = lab, val, miss, ["r1", "r2", "r3", "r4"]
        self.labels = sorted(lab)
        self.d = [Headers(dict(args, Kinds=[k], Tstr=True), r, world) for k in kinds]
        self.counters = {"kind " + k: 1 for k in kinds}

    def describe(self):
        return [d.describe() for d in self.d]

    def begin(self):
        self.src = []
        out = []
        for d in self.d:
            s = {"p": self.some(d, "p"), "u": self.some(d, "u"), "src": "own"}
            d.start(s)
            out.append(s)
            self.src.append("own")
        return out

    def some(self, d, b, bad=False):
        r = self.r
        m = {l: "-" for l in self.labels}
        if b == "p" and not d.p_allowed():
            return m
        for l in r.sample(self.labels, r.choice([0, 1, 1, 2, 3, 5])):
            m[l] = r.choice("abcd"[:len(d.val[l])])
        if bad:
            m[r.choice(["r1", "r2", "r3", "r4"])] = "bad"
        return m

    def event(self):
        r = self.r
        i = r.randrange(len(self.d))
        d = self.d[i]
        k = r.random()
        b = r.choice("pu") if d.p_allowed() else "u"
        if k < 0.45:
            op = {"name": r.choice(["set", "upd", "upd"]), "b": b, "m": self.some(d, b, r.random() < 0.2)}
        elif k < 0.65:
            op = {"name": "get", "l": r.choice(self.labels), "d": r.choice(["none", "dflt"])}
        elif k < 0.7:
            op = {"name": "miss", "d": r.choice(["none", "dflt"])}
        elif k < 0.9:
            op = {"name": "send", "form": r.choice(["lib", "non"]) if d.p_allowed() else "lib", "pol": r.choice(["allow", "allow", "deny"])}
        elif k < 0.95:
            op = {"name": "recvbad", "b": b, "pol": r.choice(["allow", "deny"])}
        else:
            op = {"name": "new", "b": r.choice(["-", "-", b]), "pol": r.choice(["allow", "deny"])}
        s = dict(self.abstract(i), src=self.src[i])
        res = d.step(op, s, None, None)
        if res == "ok":
            if op["name"] == "send":
                self.src[i] = "recv"
            elif op["name"] in ("set", "upd") and op["b"] == "p":
                self.src[i] = "own"
        op["i"] = i + 1
        look = [j for j in range(len(self.d)) if j == i or r.random() < 0.5] if r.random() < 0.8 else []
        return {"o": op, "r": res, "t": [dict(self.abstract(j), i=j + 1, raw=self.serialized(j)) for j in look]}

    def abstract(self, i):
        d = self.d[i]
        out = {}
        for b, hdr in (("p", d.obj.phdr), ("u", d.obj.uhdr)):
            m = {l: "-" for l in self.labels}
            got = V.unspell(hdr)
            for x, v in got.items():
                l = next((n for n, y in d.lab.items() if type(x) is type(y) and x == y), None)
                if l is None:
                    if not (b == "u" and x in d.hidden and V.same(V.plain(v), d.hidden[x])):
                        m["another"] = repr((x, v))[:80]
                    continue
                if isinstance(x, (int, str)) and x in V.CLASSNAMES and V.hdr_class(x) not in hdr:
                    raise Violation("header parameter %r is not kept under its class" % (x,))
                m[l] = next((a for a, w in zip("abcd", d.val[l]) if V.same(V.plain(v), w)), repr(v)[:80])
            if b == "u" and any(x not in got for x in d.hidden):
                m["another"] = "missing"
            out[b] = m
        return out

    def serialized(self, i):
        """as it was received; and in any case it decodes to what the bucket holds"""
        import cbor2
        d = self.d[i]
        enc = d.obj.phdr_encoded
        got = cbor2.loads(enc) if enc else {}
        want = {k: V.plain(v) for k, v in V.unspell(d.obj.phdr).items()}
        if not isinstance(got, dict) or not V.same_map(got, want):
            raise Violation("the protected header is serialized with contents %r instead of %r" % (got, want))
        return enc == d.raw
