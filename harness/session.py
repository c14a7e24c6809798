"""Driver for specs/Session.tla: the life of one protected message object."""
import common
import cborx
import ref
import values as V
from common import Violation
from walk import EndSegment

TAGS = {("sign", "A"): 18, ("sign", "B"): 98, ("mac", "A"): 17, ("mac", "B"): 97, ("enc", "A"): 16, ("enc", "B"): 96}
NAMES = {("sign", "A"): "Sign1Message", ("sign", "B"): "SignMessage", ("mac", "A"): "Mac0Message", ("mac", "B"): "MacMessage",
         ("enc", "A"): "Enc0Message", ("enc", "B"): "EncMessage"}


def cls_of(family, ctx):
    from pycose import messages
    return getattr(messages, NAMES[family, ctx])


class Session:
    probe_ops = ("check",)

    def __init__(self, consts, rnd):
        self.c, self.rnd = consts, rnd
        self.fam = consts["Family"]
        self.counters = {}
        self.last_error = None
        self.alg = self.pick_alg()
        self.build_world()

    # ------------------------------------------------------------------ world
    def pick_alg(self):
        r = self.rnd
        if self.fam == "sign":
            k = r.random()                       # the quick ones carry most of the exploration
            if k < 0.5:
                return ref.EDDSA
            if k < 0.8:
                return r.choice(sorted(ref.ECDSA))
            self.max_steps = 25
            return r.choice(sorted(ref.PSS) + sorted(ref.PKCS1))
        return r.choice(ref.MAC_ALGS if self.fam == "mac" else ref.ENC_ALGS)

    def build_world(self):
        r = self.rnd
        self.ctxs = sorted(self.c["Ctxs"])
        if self.fam == "sign":
            self.k = V.sign_keys(r, self.alg)
        elif self.fam == "mac":
            n = r.choice([16, 24, 32]) if self.alg in ref.HMACS else ref.AESMAC[self.alg][0]
            self.k = V.sym_keys(r, n)
        else:
            self.k = V.sym_keys(r, ref.enc_key_len(self.alg))
        a = V.some_bytes(r)
        b = V.near(r, a) if r.random() < 0.5 else V.some_bytes(r)
        if a == b:
            b = a + b"\x00"
        if self.fam == "enc" and self.alg in ref.CCM:       # CCM with a 13 byte nonce: at most 65535 bytes
            a, b = a[:30000], b[:30000]
            if a == b:
                b = b[:-1]
        self.pay = {"none": None, "z": b"", "a": a, "b": b}
        a2 = V.some_bytes(r) if r.random() < 0.7 else a
        b2 = V.near(r, a2)
        self.aad = {"z": b"", "a": a2, "b": b2}
        n = ref.enc_nonce_len(self.alg) if self.fam == "enc" else 8
        i = r.randbytes(n)
        j = bytearray(i)
        j[r.randrange(n)] ^= 1 << r.randrange(8)
        self.iv = {"i": i, "j": bytes(j)}
        self.junk_key = None
        self.own = {}
        self.headers = None

    def make_headers(self, al):
        """contents per abstract value, and their two serializations"""
        r = self.rnd
        alg = {1: self.alg} if al == "p" else {}
        from pycose.messages import Sign1Message
        self.content, self.raw = {}, {}
        order = self.order_alg(alg)
        a, b = V.header_pair(r, first=order, taken={1, 5, 6})
        b = {k: b[k] for k in a}                     # same order of labels
        sa, sb = V.header_pair(r, first=order, taken={1, 5, 6})
        sb = {k: sb[k] for k in sa}
        form = r.choice([0, 1, 2, 3, 5])           # an update must keep the order of the labels
        for where, vals in (("ph", {"e": {}, "a": a, "b": b}), ("sp", {"e": {}, "a": sa, "b": sb})):
            for v, m in vals.items():
                self.content[where, v] = m
                if m:
                    can = Sign1Message(phdr=V.spell_header(r, m)).phdr_encoded
                    self.check_map(can, m, "protected header")
                    non = cborx.enc_map_noncanonical(m, form)
                    if non == can:
                        non = cborx.enc_map_noncanonical(m, 0)
                else:
                    can, non = b"", b"\xa0"
                self.raw[where, v, False] = can
                self.raw[where, v, True] = non
        # the unprotected bucket
        taken = set(a) | {1, 5, 6}
        u, _ = V.header_pair(r, n=r.choice([1, 1, 2, 3]), taken=taken) if r.random() < 0.6 else ({}, {})
        if al == "u":
            u[1] = self.alg
        self.uhdr = u
        taken = set(sa) | {1, 5, 6}
        su, _ = V.header_pair(r, n=r.choice([1, 2]), taken=taken) if r.random() < 0.6 else ({}, {})
        if al == "u":
            su[1] = self.alg
        self.suhdr = su
        self.al = al

    def order_alg(self, alg):
        return dict(alg)

    def describe(self):
        return {"family": self.fam, "alg": V.ALG_NAMES[self.alg], "alg_in": self.al, "payload_a": len(self.pay["a"]),
                "aad_a": len(self.aad["a"]), "phdr_a": repr(self.content["ph", "a"])[:120]}

    def check_map(self, encoded, want, what):
        import cbor2
        got = cbor2.loads(encoded) if encoded else {}
        if not isinstance(got, dict) or not V.same_map(got, want):
            raise Violation("%s: encoded contents %r instead of %r" % (what, got, want))

    # ---------------------------------------------------------- state mapping
    def signb(self, s):
        return self.fam == "sign" and s["ctx"] == "B"

    def uh(self, s):
        u = dict(self.uhdr)
        if self.fam == "enc":
            u[5] = self.iv[s["iv"]]
        return u

    def key_obj(self, name, protect=None):
        r = self.rnd
        if name == "none":
            return None
        k = self.k[0 if name.endswith("1") else 1]
        private = name[0] == "k"
        alg = self.alg if r.random() < 0.4 else None
        ops = None
        if r.random() < 0.3:
            ops = {"sign": [1, 2], "mac": [9, 10], "enc": [3, 4]}[self.fam]
        return V.pycose_key(r, k, private=private, alg=alg, ops=ops,
                            extra={2: V.kid(r)} if r.random() < 0.3 else None)

    def start(self, s):
        r = self.rnd
        self.make_headers(s["al"])
        cls = cls_of(self.fam, s["ctx"])
        kw = {}
        u = V.spell_header(r, self.uh(s))
        ph = self.content["ph", s["ph"]["v"]]
        later = r.random() < 0.3
        if not later or ph:
            kw["phdr"] = V.spell_header(r, ph)
        self.others = []
        self.keyobj = None
        if s["pay"] != "none" or r.random() < 0.5 or self.fam != "sign":
            kw["payload"] = self.pay[s["pay"]]
        if kw.get("payload") == b"" and self.fam != "sign" and r.random() < 0.5:
            del kw["payload"]                               # the default
        self.signer = None
        if self.signb(s):
            from pycose.messages.signer import CoseSignature
            sp = self.content["sp", s["sp"]["v"]]
            self.signer = CoseSignature(phdr=V.spell_header(r, sp), uhdr=V.spell_header(r, self.suhdr))
            signers = [self.signer]
            for _ in range(r.choice([0, 0, 1, 2])):
                signers.insert(r.randrange(len(signers) + 1), self.bystander())
            self.pos = signers.index(self.signer)
            self.others.sort(key=lambda o: [x is o["obj"] for x in signers].index(True))
            kw["signers"] = signers
        elif s["ctx"] == "B":
            from pycose.messages.recipient import DirectEncryption
            kw["recipients"] = [DirectEncryption(uhdr=V.spell_header(r, {1: -6, 4: V.kid(r)}))
                                for _ in range(r.choice([1, 1, 2]))]
        self.msg = cls(uhdr=u, **kw)
        self.sig = b""
        self.sent_pt = None
        self.noise(s)

    def noise(self, s):
        """additional data of the other layers: they do not belong to what is protected here"""
        r = self.rnd
        if r.random() < 0.4:
            for o in [self.msg] if self.signb(s) else getattr(self.msg, "recipients", []):
                o.external_aad = V.some_bytes(r)

    def bystander(self):
        from pycose.messages.signer import CoseSignature
        r = self.rnd
        alg = ref.EDDSA if r.random() < 0.7 else -7
        k = V.sign_keys(r, alg, 1)[0]
        h, _ = V.header_pair(r, taken={1, 5, 6})
        inp = r.random() < 0.5
        p, u = ({1: alg, **h}, {}) if inp else ({}, {1: alg, **h})
        aad = V.some_bytes(r) if r.random() < 0.3 else b""
        o = CoseSignature(phdr=V.spell_header(r, p), uhdr=V.spell_header(r, u), key=V.pycose_key(r, k), external_aad=aad)
        self.others.append({"obj": o, "alg": alg, "k": k, "p": p, "u": u, "aad": aad, "praw": cborx.enc(p) if p else b"", "auth": None})
        return o

    # ------------------------------------------------------------ observation
    def observe(self, t):
        m = self.msg
        want = cls_of(self.fam, t["ctx"])
        if type(m) is not want:
            raise Violation("object has type %s instead of %s" % (type(m).__name__, want.__name__))
        self.obs_bucket("protected header", m, self.content["ph", t["ph"]["v"]], self.raw["ph", t["ph"]["v"], t["ph"]["n"]])
        if not V.same_map(V.unspell(m.uhdr), self.uh(t)):
            raise Violation("unprotected header is %r instead of %r" % (V.unspell(m.uhdr), self.uh(t)))
        pay = self.ct if t["pay"] == "ct" else self.pay[t["pay"]]
        if m.payload != pay:
            raise Violation("payload is %r instead of %r" % (m.payload, pay))
        if self.fam == "mac" and t["auth"][0] != "none" and m.auth_tag != self.sig:
            raise Violation("tag of the object changed")
        if self.signb(t):
            if len(m.signers) != 1 + len(self.others):
                raise Violation("message has %d signers instead of %d" % (len(m.signers), 1 + len(self.others)))
            o = m.signers[self.pos]
            self.obs_bucket("signer's protected header", o, self.content["sp", t["sp"]["v"]],
                            self.raw["sp", t["sp"]["v"], t["sp"]["n"]])
            if not V.same_map(V.unspell(o.uhdr), self.suhdr):
                raise Violation("signer's unprotected header is %r" % (V.unspell(o.uhdr),))
        else:
            o = m
        if o.external_aad != self.aad[t["aad"]]:
            raise Violation("external AAD changed")
        if o.key is not self.keyobj:
            raise Violation("key of the object changed")
        if self.fam == "sign" and t["auth"][0] != "none" and o.signature != self.sig:
            raise Violation("signature of the object changed")

    def obs_bucket(self, what, o, content, raw):
        if not V.same_map(V.unspell(o.phdr), content):
            raise Violation("%s is %r instead of %r" % (what, V.unspell(o.phdr), content))
        if o.phdr_encoded != raw:
            raise Violation("%s is serialized as %s instead of %s" % (what, o.phdr_encoded.hex(), raw.hex()))

    # -------------------------------------------------------------- operations
    def holder(self, s):
        return self.msg.signers[self.pos] if self.signb(s) else self.msg

    def attempt(self, f):
        """('ok', value) or ('bad', None)"""
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:
            self.last_error = "%s: %s" % (type(e).__name__, e)
            return "bad", None

    def step(self, op, s, t, r):
        self.last_error = None
        return getattr(self, "do_" + op["name"])(op, s, t)

    def do_setPh(self, op, s, t):
        def f():
            if op["v"] != "e" and s["ph"]["v"] != "e" and self.in_place(self.msg):
                V.in_place(self.msg.phdr, V.spell_header(self.rnd, self.content["ph", op["v"]]))
                return
            self.msg.phdr = V.spell_header(self.rnd, self.content["ph", op["v"]])
        return self.mine(self.msg, self.attempt(f)[0])

    def mine(self, o, out):
        """the protected header of this object was set here, not received"""
        if out == "ok":
            self.own[id(o)] = o
        return out

    def in_place(self, o):
        return id(o) in self.own and self.rnd.random() < 0.3

    def do_updPh(self, op, s, t):
        h = V.spell_header(self.rnd, self.content["ph", op["v"]])
        if self.in_place(self.msg):
            return self.attempt(lambda: V.in_place(self.msg.phdr, h))[0]
        return self.mine(self.msg, self.attempt(lambda: self.msg.phdr_update(h))[0])

    def do_setSp(self, op, s, t):
        def f():
            h = V.spell_header(self.rnd, self.content["sp", op["v"]])
            o = self.holder(s)
            # an update gives the same result when the labels are the same
            if op["v"] != "e" and s["sp"]["v"] != "e" and self.in_place(o):
                V.in_place(o.phdr, h)
            elif op["v"] != "e" and self.rnd.random() < 0.4:
                o.phdr_update(h)
            else:
                o.phdr = h
        return self.mine(self.holder(s), self.attempt(f)[0])

    def do_setPay(self, op, s, t):
        def f():
            self.msg.payload = self.pay[op["v"]]
        return self.attempt(f)[0]

    def do_setAad(self, op, s, t):
        def f():
            self.holder(s).external_aad = self.aad[op["v"]]
        return self.attempt(f)[0]

    def do_setKey(self, op, s, t):
        def f():
            k = self.key_obj(op["v"])
            self.holder(s).key = k
            self.keyobj = k
        return self.attempt(f)[0]

    def do_setIv(self, op, s, t):
        def f():
            h = V.spell_header(self.rnd, {5: self.iv[op["v"]]})
            if self.rnd.random() < 0.3:
                V.in_place(self.msg.uhdr, h)
            elif self.rnd.random() < 0.5:
                self.msg.uhdr_update(h)
            else:
                u = dict(self.uhdr)
                u[5] = self.iv[op["v"]]
                self.msg.uhdr = V.spell_header(self.rnd, u)
        return self.attempt(f)[0]

    def do_junkSig(self, op, s, t):
        r = self.rnd
        choice = r.randrange(6)
        if choice in (1, 2, 3) and s["auth"][0] == "junk":
            choice = 5                            # spoiling it twice could repair it
        if choice == 0:
            junk = b""
        elif choice == 1 and self.sig:
            junk = self.spoil("flip", self.sig)
        elif choice == 2 and self.sig:
            junk = self.spoil("trunc", self.sig)
        elif choice == 3 and self.sig:
            junk = self.spoil("ext", self.sig)
        elif choice == 4:
            junk = bytes(64)
        else:
            junk = r.randbytes(r.choice([1, 8, 16, 32, 64, 96, 114, 132, 256]))

        def f():
            if self.fam == "mac":
                self.msg.auth_tag = junk
            else:
                self.holder(s).signature = junk
            self.sig = junk
        return self.attempt(f)[0]

    def spoil(self, how, sig):
        r = self.rnd
        if how == "empty":
            return b""
        if how == "trunc":
            k = r.randrange(4)
            n = len(sig)
            return sig[:-1] if k == 0 else sig[1:] if k == 1 else sig[:n // 2] if k == 2 else sig[:r.randrange(n)]
        if how == "ext":
            x = r.choice([b"\x00", bytes(8), r.randbytes(1), r.randbytes(16)])
            return sig + x if r.random() < 0.7 else x + sig
        b = bytearray(sig)
        k = r.randrange(5)
        if k == 0:
            b[0] ^= 1 << r.randrange(8)
        elif k == 1:
            b[-1] ^= 1 << r.randrange(8)
        elif k == 2:
            for i in range(len(b)):
                b[i] ^= 0xff
        elif k == 3 and len(set(b)) > 1:
            while bytes(b) == sig:
                i, j = r.randrange(len(b)), r.randrange(len(b))
                b[i], b[j] = b[j], b[i]
        else:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)

    def do_check(self, op, s, t):
        m = self.msg
        d = self.pay[op["d"]]
        if self.fam == "sign":
            if self.signb(s):
                self.check_bystanders(s, op["d"])
            o = self.holder(s)
            how = self.rnd.randrange(3)
            if d is None and how == 0:
                out, v = self.attempt(lambda: o.verify_signature())
            elif how == 1:
                out, v = self.attempt(lambda: o.verify_signature(d))
            else:
                out, v = self.attempt(lambda: o.verify_signature(detached_payload=d))
            self.boolean(out, v)
            return "ok" if out == "ok" and v is True else "bad"
        if self.fam == "mac":
            if s["ctx"] == "B" and self.rnd.random() < 0.5:
                out, v = self.attempt(lambda: m.verify_tag(self.rnd.choice(m.recipients)))
            else:
                out, v = self.attempt(lambda: m.verify_tag())
            self.boolean(out, v)
            return "ok" if out == "ok" and v is True else "bad"
        if s["ctx"] == "B":
            out, v = self.attempt(lambda: m.decrypt(self.rnd.choice(m.recipients)))
        else:
            out, v = self.attempt(lambda: m.decrypt())
        if out == "ok":
            want = self.pay[s["auth"][4]] if s["auth"][0] == "auth" else None
            if v != want:
                raise Violation("decryption returned %r instead of %r" % (v, want))
        return out

    def boolean(self, out, v):
        if out == "ok" and v is not True and v is not False:
            raise Violation("verification returned %r, neither True nor False" % (v,))

    def check_bystanders(self, s, d):
        """the other signers answer for themselves"""
        if self.rnd.random() > 0.3:
            return
        eff = self.pay[s["pay"]] if d == "none" else self.pay[d] if s["pay"] == "none" else None
        body = b"" if s["ph"]["v"] == "e" else self.raw["ph", s["ph"]["v"], s["ph"]["n"]]
        for o in self.others:
            obj = o["obj"]
            want = o["auth"] is not None and eff is not None and o["auth"] == (body, eff)
            obj.key = V.pycose_key(self.rnd, o["k"], private=self.rnd.random() < 0.5)
            obj.external_aad = o["aad"]
            out, v = self.attempt(lambda: obj.verify_signature(self.pay[d]))
            got = out == "ok" and v is True
            obj.key = V.pycose_key(self.rnd, o["k"])
            if got != want:
                raise Violation("another signer of the message verifies as %s instead of %s" % (got, want),
                                {"error": self.last_error})
            self.count("bystander_checks")

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    # ------------------------------------------------------------ terms -> bytes
    def tbs(self, term):
        """evaluates a Tbs term of CoseTerms.tla"""
        parts = [term[1]]
        signb = term[1] == "Signature"
        for n, x in enumerate(term[2:]):
            where = "sp" if signb and n == 1 else "ph"
            last = n == len(term) - 3
            if x[0] == "empty":
                parts.append(b"")
            elif x[0] == "prot":
                parts.append(self.raw[where, x[1], x[2]])
            else:
                is_pay = last and self.fam != "enc"
                parts.append(self.pay[x[1]] if is_pay else self.aad[x[1]])
        return cborx.enc(parts)

    def ref_protect(self, auth):
        _, tbs, kid, iv, pt = auth
        k = self.k[int(kid) - 1]
        data = self.tbs(tbs)
        if self.fam == "sign":
            return ref.sign(self.alg, k, data)
        if self.fam == "mac":
            return ref.mac(self.alg, k["k"], data)
        return ref.encrypt(self.alg, k["k"], self.iv[iv], self.pay[pt], data)

    def ref_accepts(self, auth, sig):
        _, tbs, kid, iv, pt = auth
        k = self.k[int(kid) - 1]
        data = self.tbs(tbs)
        if self.fam == "sign":
            return ref.verify(self.alg, k, data, sig)
        if self.fam == "mac":
            return ref.mac(self.alg, k["k"], data) == sig
        return ref.decrypt(self.alg, k["k"], self.iv[iv], sig, data) == self.pay[pt]

    # ------------------------------------------------------------------ sending
    def do_stay(self, op, s, t):
        return self.lib_encode(op, s, t, t["auth"] if self.fam == "mac" else None)[0]

    def lib_encode(self, op, s, t, auth):
        """the library protects and encodes; the structure of its output and, given the term, the
        protection itself are checked against RFC 8152"""
        import cbor2
        r, m = self.rnd, self.msg
        kw = {}
        tag = r.random() < 0.8
        if not tag:
            kw["tag"] = False
        if self.fam == "sign" and (op["d"] != "none" or r.random() < 0.3):
            kw["detached_payload"] = self.pay[op["d"]]
        if r.random() < 0.2 and self.fam == "sign" and s["ctx"] == "A":
            kw["sign"] = True
        out, data = self.attempt(lambda: m.encode(**kw))
        if out != "ok":
            return out, None
        if not isinstance(data, bytes):
            raise Violation("encode returned %r" % (type(data),))
        try:
            obj = cbor2.loads(data)
        except Exception as e:
            raise Violation("encode returned something that is not CBOR: %r" % e)
        if tag:
            if not isinstance(obj, cbor2.CBORTag) or obj.tag != TAGS[self.fam, s["ctx"]]:
                raise Violation("encode did not emit the tag %d" % TAGS[self.fam, s["ctx"]])
            obj = obj.value
        arr = obj
        if r.random() < 0.2 and self.fam != "sign" and self.deterministic(s):
            again = m.encode(tag=not tag)
            one, two = (data, again) if tag else (again, data)
            if one != cborx.head(6, TAGS[self.fam, s["ctx"]]) + two:
                raise Violation("tagged and untagged output differ in more than the tag")
        n = 3 if self.fam == "enc" and s["ctx"] == "A" else 5 if self.fam == "mac" and s["ctx"] == "B" else 4
        if not isinstance(arr, list) or len(arr) != n:
            raise Violation("encoded array has the wrong shape: %r" % (arr,))
        if arr[0] != self.raw["ph", s["ph"]["v"], s["ph"]["n"]]:
            raise Violation("protected header sent as %r instead of %r" % (arr[0], self.raw["ph", s["ph"]["v"], s["ph"]["n"]]))
        if not isinstance(arr[1], dict) or not V.same_map(arr[1], self.uh(s)):
            raise Violation("unprotected header sent as %r instead of %r" % (arr[1], self.uh(s)))
        if self.fam != "enc" and arr[2] != self.pay[s["pay"]]:
            raise Violation("payload sent as %r instead of %r" % (arr[2], self.pay[s["pay"]]))
        if self.signb(s):
            if not isinstance(arr[3], list) or len(arr[3]) != 1 + len(self.others):
                raise Violation("signatures array is wrong: %r" % (arr[3],))
            sg = arr[3][self.pos]
            if not isinstance(sg, list) or len(sg) != 3 or sg[0] != self.raw["sp", s["sp"]["v"], s["sp"]["n"]] or \
                    not isinstance(sg[1], dict) or not V.same_map(sg[1], self.suhdr):
                raise Violation("COSE_Signature sent as %r" % (sg,))
            sig = sg[2]
            body = b"" if s["ph"]["v"] == "e" else arr[0]
            eff = self.pay[s["pay"]] if op["d"] == "none" else self.pay[op["d"]]
            others = list(arr[3])
            del others[self.pos]
            for o, w in zip(self.others, others):
                if w[0] != o["praw"] and not (w[0] and V.same_map(cbor2.loads(w[0]), o["p"])):
                    raise Violation("another signer's protected header is sent as %r" % (w[0],))
                data2 = cborx.enc(["Signature", body, w[0], o["aad"], eff])
                if not ref.verify(o["alg"], o["k"], data2, w[2]):
                    raise Violation("the signature of another signer does not verify under RFC 8152")
                o["new"] = (body, eff)
        elif self.fam == "enc":
            sig = arr[2]
        else:
            sig = arr[3]
        if not isinstance(sig, bytes):
            raise Violation("no authentication data: %r" % (arr,))
        if self.fam != "sign" and s["ctx"] == "B":
            rs = arr[-1]
            if not isinstance(rs, list) or len(rs) != len(m.recipients) or any(
                    len(x) != 3 or x[0] != b"" or x[1].get(1) != -6 or x[2] != b"" for x in rs):
                raise Violation("recipients sent as %r" % (rs,))
        if auth is not None:
            self.count("reference_checks")
            if not self.ref_accepts(auth, sig):
                raise Violation("an independent implementation rejects the protection the library made",
                                {"alg": V.ALG_NAMES[self.alg], "sig": sig.hex()})
            if self.fam == "mac":
                self.sig = sig
        return "ok", (arr, data, tag)

    def deterministic(self, s):
        return True

    def wire_extra(self, s):
        return {}

    def do_send(self, op, s, t):
        import cbor2
        r = self.rnd
        if op["src"] == "lib":
            out, res = self.lib_encode(op, s, t, t["auth"] if op["t"] == "none" else None)
            if out != "ok":
                return out
            arr, data, tagged = res
            if self.signb(s):
                for o in self.others:
                    o["auth"] = o.pop("new")
            if op["t"] == "none" and tagged:
                wire = data
            else:
                arr, ctx = self.tamper(arr, op["t"], s)
                wire = cborx.enc(cborx.Tag(TAGS[self.fam, ctx], arr))
        else:
            arr, ctx = self.ref_message(s, t), s["ctx"]
            wire = cborx.enc(cborx.Tag(TAGS[self.fam, ctx], arr))
            self.count("reference_messages")
        self.receive(wire, arr, t)
        return "ok"

    def receive(self, wire, arr, t):
        from pycose.messages import CoseMessage
        r = self.rnd
        cls = cls_of(self.fam, t["ctx"])
        dec = cls if r.random() < 0.4 else CoseMessage
        out, m = self.attempt(lambda: dec.decode(wire))
        if out != "ok":
            raise Violation("the message is not decoded: %s" % self.last_error, {"wire": wire.hex()})
        if type(m) is not cls:
            raise Violation("decoded as %s instead of %s" % (type(m).__name__, cls.__name__))
        self.msg = m
        self.keyobj = None
        if self.signb(t):
            if len(m.signers) != 1 + len(self.others):
                raise Violation("%d signers were decoded instead of %d" % (len(m.signers), 1 + len(self.others)))
            rest = [x for n, x in enumerate(m.signers) if n != self.pos]
            for o, x in zip(self.others, rest):
                o["obj"] = x
                if not V.same_map(V.unspell(x.phdr), o["p"]) or not V.same_map(V.unspell(x.uhdr), o["u"]):
                    raise Violation("headers of another signer changed in transit")
                # the receiver may sign again: bystanders always have their key
                x.key = V.pycose_key(r, o["k"])
                x.external_aad = o["aad"]
            self.sig = arr[3][self.pos][2]
            self.noise(t)
        elif self.fam == "enc":
            self.ct = arr[2]
        else:
            self.sig = arr[3]

    def tamper(self, arr, t, s):
        """modifies the decoded array; returns it with the new context"""
        r = self.rnd
        arr = list(arr)
        signb = self.signb(s)
        if signb:
            arr[3] = [list(x) for x in arr[3]]
        where, _, v = t.partition(":")
        if t == "none":
            pass
        elif where in ("ph", "sp"):
            raw = self.raw[where, v, False]
            if where == "ph":
                arr[0] = raw
            else:
                arr[3][self.pos][0] = raw
        elif t == "phform":
            arr[0] = self.raw["ph", s["ph"]["v"], not s["ph"]["n"]]
        elif t == "spform":
            arr[3][self.pos][0] = self.raw["sp", s["sp"]["v"], not s["sp"]["n"]]
        elif where == "pay":
            arr[2] = self.pay[v]
        elif t == "iv":
            arr[1] = dict(arr[1])
            arr[1][5] = self.iv["j" if s["iv"] == "i" else "i"]
        elif t in ("flip", "trunc", "ext", "empty"):
            if signb:
                other = [x[2] for n, x in enumerate(arr[3]) if n != self.pos]
                if t == "flip" and other and r.random() < 0.3:
                    arr[3][self.pos][2] = r.choice(other)       # somebody else's signature
                else:
                    arr[3][self.pos][2] = self.spoil(t, arr[3][self.pos][2])
            else:
                n = 2 if self.fam == "enc" else 3
                arr[n] = self.spoil(t, arr[n])
        elif t == "retype":
            ctx = "A" if s["ctx"] == "B" else "B"
            if self.fam == "sign":
                if signb:
                    body = [arr[0], dict(self.uhdr), arr[2], arr[3][self.pos][2]]
                    self.others = []
                    self.pos = 0
                    return body, ctx
                self.others = []
                self.pos = 0
                sp = self.raw["sp", "a", False] if s["al"] == "p" else b""
                return [arr[0], arr[1], arr[2], [[sp, dict(self.suhdr), arr[3]]]], ctx
            if ctx == "B":
                return arr + [[[b"", {1: -6}, b""]]], ctx
            return arr[:-1], ctx
        else:
            raise KeyError(t)
        return arr, s["ctx"]

    def ref_message(self, s, t):
        """the complete message, made without the library"""
        r = self.rnd
        auth = t["auth"]
        sig = self.ref_protect(auth)
        ph = self.raw["ph", t["ph"]["v"], t["ph"]["n"]]
        pay = sig if self.fam == "enc" else self.pay[t["pay"]]
        arr = [ph, self.uh(s), pay]
        if self.signb(s):
            sigs = []
            body = b"" if t["ph"]["v"] == "e" else ph
            eff = self.eff_payload(auth)
            for o in self.others:
                data = cborx.enc(["Signature", body, o["praw"], o["aad"], eff])
                sigs.append([o["praw"], dict(o["u"]), ref.sign(o["alg"], o["k"], data)])
                o["auth"] = (body, eff)
            sigs.insert(self.pos, [self.raw["sp", t["sp"]["v"], t["sp"]["n"]], dict(self.suhdr), sig])
            arr.append(sigs)
        elif self.fam != "enc":
            arr.append(sig)
        if self.fam != "sign" and s["ctx"] == "B":
            arr.append([[b"", {1: -6, 4: b"r%d" % i}, b""] for i in range(r.choice([1, 1, 2]))])
        return arr

    def eff_payload(self, auth):
        return self.pay[auth[1][-1][1]]

    def do_resend(self, op, s, t):
        import cbor2
        kw = {"sign": False} if self.fam == "sign" else {"encrypt": False}
        out, data = self.attempt(lambda: self.msg.encode(**kw))
        if out != "ok":
            return out
        obj = cbor2.loads(data)
        if not isinstance(obj, cbor2.CBORTag) or obj.tag != TAGS[self.fam, s["ctx"]]:
            raise Violation("re-encoding changed the tag")
        want = [self.raw["ph", s["ph"]["v"], s["ph"]["n"]], None, self.ct if self.fam == "enc" else self.pay[s["pay"]]]
        if self.fam == "sign":
            want.append(self.sig)
        arr = list(obj.value)
        if not V.same_map(arr[1], self.uh(s)):
            raise Violation("re-encoding changed the unprotected header")
        arr[1] = None
        if self.fam == "sign" and self.sig == b"" and len(arr) == 3:
            raise EndSegment()                                   # no signature to forward
        if arr != want:
            raise Violation("re-encoding without protection changed the message: %r instead of %r" % (arr, want))
        self.receive(data, obj.value, t)
        return "ok"
