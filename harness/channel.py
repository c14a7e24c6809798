"""Random clients and a random network adversary whose histories specs/ChannelTrace.tla judges."""
import cbor2

import cborx
import ref
import values as V
from common import Violation
from session import TAGS, cls_of

FAM = {"Sign1": "sign", "Sign": "sign", "Mac0": "mac", "Mac": "mac", "Enc0": "enc", "Enc": "enc"}
CTX = {"Sign1": "A", "Mac0": "A", "Enc0": "A", "Sign": "B", "Mac": "B", "Enc": "B"}
HDRS = ["e", "a", "b", "c", "d"]
PAYS = ["z", "a", "b", "c", "d"]
AADS = ["z", "a", "b", "c"]
IVS = ["i", "j", "k"]


class Channel:
    def __init__(self, args, rnd):
        r = self.r = rnd
        self.counters = {}
        self.al = r.choice("pu")
        fams = args.get("Families") or ["sign", "mac", "enc"]
        self.types = [t for t in FAM if FAM[t] in fams]
        if args.get("Mixed") and r.random() < 0.5:
            self.types = list(FAM)
        k = r.random()
        sign = ref.EDDSA if k < 0.5 else r.choice(sorted(ref.ECDSA)) if k < 0.9 else r.choice(sorted(ref.PSS) + sorted(ref.PKCS1))
        if sign in ref.PSS or sign in ref.PKCS1:
            self.max_steps = 40
        self.alg = {"sign": sign, "mac": r.choice(ref.MAC_ALGS), "enc": r.choice(ref.ENC_ALGS)}
        n = ref.enc_key_len(self.alg["enc"])
        m = r.choice([16, 24, 32]) if self.alg["mac"] in ref.HMACS else ref.AESMAC[self.alg["mac"]][0]
        sym = V.sym_keys(r, n)
        self.k = {"sign": V.sign_keys(r, sign), "enc": sym, "mac": sym if n == m and r.random() < 0.5 else V.sym_keys(r, m)}
        self.make_headers()
        a = V.some_bytes(r, 0.01)[:30000]
        self.pay = {"none": None, "z": b"", **self.distinct(["a", "b", "c", "d"], a)}
        self.aad = {"z": b"", **self.distinct(["a", "b", "c"], a if r.random() < 0.3 else V.some_bytes(r, 0))}
        nl = ref.enc_nonce_len(self.alg["enc"])
        i = r.randbytes(nl)
        self.iv = self.distinct(IVS, i, same_length=True)
        # what the client knows
        self.n = r.choice([2, 3, 4])
        self.o, self.know, self.keyobj, self.ct = {}, {}, {}, {}
        self.net = []                                            # (authentication data, what the sender had when protecting)
        self.todo = []

    def distinct(self, names, a, same_length=False):
        r, out = self.r, {}
        for x in names:
            while True:
                if x == names[0] and a:
                    v = a
                elif same_length:
                    b = bytearray(a)
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                    v = bytes(b)
                else:
                    v = r.choice([lambda: V.near(r, a) if a else r.randbytes(3), lambda: V.some_bytes(r, 0.01)[:30000], lambda: a + r.randbytes(1), lambda: a[:-1]])()
                if v not in out.values() and (v or same_length) and len(v) <= 60000:      # limit of CCM with long nonces
                    break
            out[x] = v
        return out

    def make_headers(self):
        from pycose.messages import Sign1Message
        r = self.r
        self.content, self.raw = {}, {}
        for f in ("sign", "mac", "enc"):
            first = {1: self.alg[f]} if self.al == "p" else {}
            self.content[f, "e"] = {}
            self.raw[f, "e", False], self.raw[f, "e", True] = b"", b"\xa0"
            seen = {b"", b"\xa0"}
            todo = ["a", "b", "c", "d"]
            while todo:
                for v, m in zip(todo[:2], V.header_pair(r, first=first, taken={1, 5, 6})):
                    can = Sign1Message(phdr=V.spell_header(r, m)).phdr_encoded
                    non = cborx.enc_map_noncanonical(m, r.choice([0, 1, 2, 3, 5]))
                    if non == can:
                        non = cborx.enc_map_noncanonical(m, 0)
                    if not m or can in seen or non in seen or can == non:
                        continue
                    seen |= {can, non}
                    self.content[f, v] = m
                    self.raw[f, v, False], self.raw[f, v, True] = can, non
                    todo.remove(v)
        self.kidu = {4: r.randbytes(3)} if r.random() < 0.5 else {}
        for f in ("sign", "mac", "enc"):
            if any(4 in self.content[f, v] for v in "abcd"):
                self.kidu = {}

    def describe(self):
        return {"algs": {f: V.ALG_NAMES[a] for f, a in self.alg.items()}, "alg in": self.al}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    # ---------------------------------------------------------------- objects
    def uhdr(self, typ, iv):
        u = dict(self.kidu)
        if self.al == "u" and typ != "Sign":
            u[1] = self.alg[FAM[typ]]
        if FAM[typ] == "enc":
            u[5] = self.iv[iv]
        return u

    def suhdr(self):
        return {1: self.alg["sign"]} if self.al == "u" else {}

    def fresh(self, i, typ):
        from pycose.messages.recipient import DirectEncryption
        from pycose.messages.signer import CoseSignature
        r = self.r
        kw = {}
        if typ == "Sign":
            kw["signers"] = [CoseSignature(uhdr=V.spell_header(r, self.suhdr()))]
        elif CTX[typ] == "B":
            kw["recipients"] = [DirectEncryption(uhdr=V.spell_header(r, {1: -6}))]
        pay = "none" if FAM[typ] == "sign" else "z"
        if pay == "z":
            kw["payload"] = b""
        self.o[i] = cls_of(FAM[typ], CTX[typ])(uhdr=V.spell_header(r, self.uhdr(typ, "i")), **kw)
        self.know[i] = {"typ": typ, "ph": "e", "n": False, "sp": "e", "spn": False, "pay": pay, "aad": "z", "key": "none", "iv": "i", "auth": None}
        self.keyobj[i] = None
        self.ct[i] = None

    def holder(self, i):
        return self.o[i].signers[0] if self.know[i]["typ"] == "Sign" else self.o[i]

    def key_obj(self, f, name):
        r = self.r
        if name == "none":
            return None
        k = self.k[f][0 if name.endswith("1") else 1]
        ops = {"sign": [1, 2], "mac": [9, 10], "enc": [3, 4]}[f] if r.random() < 0.3 else None
        return V.pycose_key(r, k, private=name[0] == "k", alg=self.alg[f] if r.random() < 0.4 else None, ops=ops)

    def attempt(self, f):
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:
            self.last_error = "%s: %s" % (type(e).__name__, e)
            return "bad", None

    # ------------------------------------------------------------- observation
    def seen(self, i):
        m, w = self.o[i], self.know[i]
        typ = next((t for t in FAM if type(m) is cls_of(FAM[t], CTX[t])), type(m).__name__)
        f = FAM.get(typ)
        h = self.holder(i)
        out = {"i": i, "typ": typ, "ph": self.bucket(f, m), "sp": self.bucket(f, h) if typ == "Sign" else {"v": "e", "n": False},
               "aad": self.name(self.aad, h.external_aad), "key": w["key"] if h.key is self.keyobj[i] else "another"}
        p = m.payload
        out["pay"] = "ct" if self.ct[i] is not None and p == self.ct[i] else self.name(self.pay, p)
        u = V.unspell(m.uhdr)
        out["iv"] = "-"
        if f == "enc":
            out["iv"] = self.name(self.iv, u.get(5))
        if not V.same_map({k: v for k, v in u.items() if k != 5}, {k: v for k, v in self.uhdr(typ, "i").items() if k != 5}):
            raise Violation("the unprotected header is %r" % (u,))
        return out

    def name(self, table, v):
        for k, x in table.items():
            if type(x) is type(v) and x == v:
                return k
        return repr(v)[:60]

    def bucket(self, f, o):
        got, enc = V.unspell(o.phdr), o.phdr_encoded
        for v in HDRS:
            if V.same_map(got, self.content[f, v]):
                for n in (False, True):
                    if enc == self.raw[f, v, n]:
                        return {"v": v, "n": n}
                return {"v": v, "n": "serialized as %s" % enc.hex()[:80]}
        return {"v": repr(got)[:80], "n": False}

    # ------------------------------------------------------------------ client
    def begin(self):
        typ = [self.r.choice(self.types) for _ in range(self.n)]
        for i, t in enumerate(typ, 1):
            self.fresh(i, t)
        return {"al": self.al, "typ": typ}

    def event(self):
        r = self.r
        if self.todo and r.random() < 0.8:
            op = self.todo.pop(0)()
        else:
            if not self.todo:
                self.plan()
            op = self.random_op() if r.random() < 0.4 or not self.todo else self.todo.pop(0)()
        if op["name"] == "set" and (op["f"] not in self.fields(op["i"]) or op["v"] not in self.values(op["i"], op["f"])):
            op = self.random_op()                                # planned for an object that has been replaced since
        res = getattr(self, "do_" + op["name"])(op)
        look = [i for i in self.o if i == op["i"] or r.random() < 0.3] if r.random() < 0.8 else []
        return {"o": op, "r": res, "t": [self.seen(i) for i in look]}

    def set_op(self, i, f, v):
        return {"name": "set", "i": i, "f": f, "v": v}

    def values(self, i, f):
        t = self.know[i]["typ"]
        if f in ("ph", "sp"):
            return HDRS
        if f == "pay":
            return PAYS + (["none"] if FAM[t] == "sign" else [])
        if f == "key":
            return ["none", "k1", "k2"] + (["p1", "p2"] if FAM[t] == "sign" else [])
        return AADS if f == "aad" else IVS

    def fields(self, i):
        t = self.know[i]["typ"]
        return ["ph", "pay", "aad", "key"] + (["sp"] if t == "Sign" else []) + (["iv"] if FAM[t] == "enc" else [])

    def detached(self, i):
        if FAM[self.know[i]["typ"]] != "sign":
            return "none"
        if self.know[i]["pay"] == "none":
            return self.r.choice(PAYS)
        return self.r.choice(PAYS) if self.r.random() < 0.1 else "none"

    def random_op(self):
        r = self.r
        i = r.randrange(1, self.n + 1)
        k = r.random()
        if k < 0.45:
            f = r.choice(self.fields(i))
            return self.set_op(i, f, r.choice(self.values(i, f)))
        if k < 0.6 and self.know[i]["pay"] != "ct":
            return {"name": r.choice(["protect", "protect", "hand"]), "i": i, "d": self.detached(i)}
        if k < 0.75:
            return self.forge(i)
        if k < 0.78:
            return {"name": "fresh", "i": i, "typ": r.choice(self.types)}
        return {"name": "check", "i": i, "d": self.detached(i)}

    def forge(self, i, like=None):
        """a message of the adversary: mostly a recorded one with little changed"""
        r = self.r
        a = r.randrange(0, len(self.net) + 1)
        if like is not None:
            a = like
        w = dict(self.net[a - 1][1]) if a else {}
        typ = w.get("typ") or r.choice(self.types)
        if r.random() < 0.08:
            typ = r.choice(self.types)
        op = {"name": "deliver", "i": i, "typ": typ, "ph": {"v": w.get("ph", "a"), "n": w.get("n", False)}, "sp": {"v": w.get("sp", "a"), "n": w.get("spn", False)},
              "pay": w.get("pay", "a"), "iv": w.get("iv", "i"), "a": a}
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            f = r.choice(["ph", "ph", "sp", "pay", "iv", "a"])
            if f in ("ph", "sp"):
                op[f] = r.choice([{"v": r.choice(HDRS), "n": r.random() < 0.5}, {"v": op[f]["v"], "n": not op[f]["n"]}])
            elif f == "pay":
                op[f] = r.choice(PAYS)
            elif f == "iv":
                op[f] = r.choice(IVS)
            else:
                op[f] = r.randrange(0, len(self.net) + 1)
        if FAM[typ] == "enc":
            op["pay"] = "ct"
        elif op["pay"] in ("ct", "none") and FAM[typ] == "mac":
            op["pay"] = r.choice(PAYS)
        elif op["pay"] == "ct":
            op["pay"] = r.choice(PAYS + ["none"])
        return op

    def plan(self):
        """a sender fills in and protects a message, a receiver checks what arrives"""
        r = self.r
        i, j = r.randrange(1, self.n + 1), r.randrange(1, self.n + 1)
        if self.know[i]["pay"] == "ct" or r.random() < 0.15:
            t = r.choice(self.types)
            self.todo.append(lambda: {"name": "fresh", "i": i, "typ": t})
        fill = ["ph", "pay", "aad", "key", "iv", "sp"]
        r.shuffle(fill)
        for f in fill:
            self.todo.append(lambda f=f: self.fill(i, f))
        self.todo.append(lambda: self.protect_op(i))
        k = r.choice([1, 1, 2, 3])
        for _ in range(k):
            self.todo.append(lambda: self.forge(j, len(self.net) if r.random() < 0.7 else None))
            self.todo.append(lambda: self.equip(j, "key"))
            self.todo.append(lambda: self.equip(j, "aad"))
            for _ in range(r.choice([1, 1, 2])):
                self.todo.append(lambda: self.check_op(j))
                if r.random() < 0.4:
                    self.todo.append(lambda: self.disturb(j))
                    self.todo.append(lambda: self.check_op(j))
            if r.random() < 0.3:
                j = i

    def fill(self, i, f):
        if f not in self.fields(i):
            f = "key"
        vs = self.values(i, f)
        if f == "key":
            v = self.r.choice(["k1", "k1", "k2"])
        elif f == "pay":
            v = self.r.choice([x for x in vs])
        else:
            v = self.r.choice(vs)
        return self.set_op(i, f, v)

    def protect_op(self, i):
        w = self.know[i]
        if w["pay"] == "ct":
            return self.set_op(i, "pay", "a")
        return {"name": "protect" if self.r.random() < 0.8 else "hand", "i": i, "d": self.detached(i)}

    def equip(self, j, f):
        r, w = self.r, self.know[j]
        a = w["auth"]
        src = self.net[a - 1][1] if a else {}
        if f == "key":
            k = src.get("key", "k1")
            if r.random() < 0.15:
                k = r.choice(["k1", "k2"])
            if FAM[w["typ"]] == "sign" and k in ("k1", "k2") and r.random() < 0.6:
                k = "p" + k[1]
            return self.set_op(j, "key", k)
        return self.set_op(j, "aad", src.get("aad", "z") if r.random() < 0.88 else r.choice(AADS))

    def check_op(self, j):
        w = self.know[j]
        if FAM[w["typ"]] == "sign" and w["pay"] == "none" and w["auth"] and self.r.random() < 0.85:
            d = self.net[w["auth"] - 1][1].get("d", "none")
            if d != "none":
                return {"name": "check", "i": j, "d": d}
        return {"name": "check", "i": j, "d": self.detached(j)}

    def disturb(self, j):
        """something of the received message changes, and often changes back"""
        r = self.r
        f = r.choice(self.fields(j))
        if FAM[self.know[j]["typ"]] == "enc" and f == "pay":
            f = "aad"
        old = self.know[j][f]
        if r.random() < 0.6 and not (f in ("ph", "sp") and self.know[j]["n" if f == "ph" else "spn"]):
            self.todo.insert(1, lambda: self.set_op(j, f, old))
            self.todo.insert(2, lambda: self.check_op(j))
        return self.set_op(j, f, r.choice(self.values(j, f)))

    # -------------------------------------------------------------- operations
    def do_fresh(self, op):
        self.fresh(op["i"], op["typ"])
        return "ok"

    def do_set(self, op):
        r, i, f, v = self.r, op["i"], op["f"], op["v"]
        m, h, w = self.o[i], self.holder(i), self.know[i]
        fam = FAM[w["typ"]]

        def do():
            if f in ("ph", "sp"):
                (m if f == "ph" else h).phdr = V.spell_header(r, self.content[fam, v])
            elif f == "pay":
                m.payload = self.pay[v]
            elif f == "aad":
                h.external_aad = self.aad[v]
            elif f == "key":
                k = V.rekey(r, self.keyobj[i], self.key_obj(fam, v))
                h.key = k
                self.keyobj[i] = k
            elif r.random() < 0.5:
                m.uhdr_update(V.spell_header(r, {5: self.iv[v]}))
            else:
                m.uhdr = V.spell_header(r, self.uhdr(w["typ"], v))
        out, _ = self.attempt(do)
        if out == "ok":
            w[f] = v
            if f == "ph":
                w["n"] = False
            if f == "sp":
                w["spn"] = False
            if f == "pay":
                self.ct[i] = None
        return out

    def do_protect(self, op):
        r, i = self.r, op["i"]
        m, w = self.o[i], self.know[i]
        kw = {}
        if op["d"] != "none":
            kw["detached_payload"] = self.pay[op["d"]]
        out, data = self.attempt(lambda: m.encode(**kw))
        if out != "ok":
            return out
        obj = cbor2.loads(data)
        if not isinstance(obj, cbor2.CBORTag) or obj.tag != TAGS[FAM[w["typ"]], CTX[w["typ"]]]:
            raise Violation("encode emitted %r" % (obj,))
        arr = obj.value
        auth = arr[3][0][2] if w["typ"] == "Sign" else arr[2] if FAM[w["typ"]] == "enc" else arr[3]
        if type(auth) is not bytes:
            raise Violation("no authentication data is sent: %r" % (arr,))
        self.net.append((auth, dict(w, d=op["d"])))
        self.count("protected " + w["typ"])
        return "ok"

    def do_hand(self, op):
        """compute_signature, compute_tag, encrypt; and encode without protecting again"""
        r, i = self.r, op["i"]
        m, h, w = self.o[i], self.holder(i), self.know[i]
        f, d = FAM[w["typ"]], self.pay[op["d"]]
        call = {"sign": lambda: h.compute_signature(d) if d is not None or r.random() < 0.5 else h.compute_signature(), "mac": m.compute_tag if f == "mac" else None,
                "enc": m.encrypt if f == "enc" else None}[f]
        out, auth = self.attempt(call)
        if out != "ok":
            return out
        if type(auth) is not bytes:
            raise Violation("the computed value is %r" % (auth,))
        self.net.append((auth, dict(w, d=op["d"])))
        if f == "sign":
            h.signature = auth
        elif f == "enc":
            m.payload = auth
            self.ct[i] = auth
            w["pay"] = "ct"
        elif m.auth_tag != auth:
            raise Violation("the tag of the message is not the computed one")
        w["auth"] = len(self.net)
        if w["typ"] in ("Sign1", "Enc0") and r.random() < 0.7:
            out, data = self.attempt(lambda: m.encode(**{"sign" if f == "sign" else "encrypt": False}))
            if out != "ok":
                raise Violation("the protected message is not encoded: %s" % self.last_error)
            obj = cbor2.loads(data)
            if obj.tag != TAGS[f, CTX[w["typ"]]] or obj.value[2:] != ([m.payload, auth] if f == "sign" else [auth]) or obj.value[0] != m.phdr_encoded:
                raise Violation("encode emitted %r" % (obj,))
        self.count("computed " + w["typ"])
        return "ok"

    def do_deliver(self, op):
        from pycose.messages import CoseMessage
        r, i, typ = self.r, op["i"], op["typ"]
        f, ctx = FAM[typ], CTX[typ]
        auth = self.net[op["a"] - 1][0] if op["a"] else r.randbytes(r.choice([1, 16, 32, 64]))
        arr = [self.raw[f, op["ph"]["v"], op["ph"]["n"]], self.uhdr(typ, op["iv"]), auth if f == "enc" else self.pay[op["pay"]]]
        if typ == "Sign":
            arr.append([[self.raw[f, op["sp"]["v"], op["sp"]["n"]], self.suhdr(), auth]])
        elif f != "enc":
            arr.append(auth)
        if ctx == "B" and f != "sign":
            arr.append([[b"", {1: -6}, b""]])
        wire = cborx.enc(cborx.Tag(TAGS[f, ctx], arr))
        cls = cls_of(f, ctx)
        out, m = self.attempt(lambda: (cls if r.random() < 0.4 else CoseMessage).decode(wire))
        if out != "ok":
            raise Violation("the message is not decoded: %s" % self.last_error, {"wire": wire.hex()})
        if type(m) is not cls:
            raise Violation("decoded as %s instead of %s" % (type(m).__name__, cls.__name__))
        self.o[i] = m
        self.keyobj[i] = None
        self.ct[i] = auth if f == "enc" else None
        self.know[i] = {"typ": typ, "ph": op["ph"]["v"], "n": op["ph"]["n"], "sp": op["sp"]["v"], "spn": op["sp"]["n"], "pay": "ct" if f == "enc" else op["pay"],
                        "aad": "z", "key": "none", "iv": op["iv"], "auth": op["a"]}
        return "ok"

    def do_check(self, op):
        r, i = self.r, op["i"]
        m, w = self.o[i], self.know[i]
        f = FAM[w["typ"]]
        if f == "sign":
            d = self.pay[op["d"]]
            out, v = self.attempt(lambda: self.holder(i).verify_signature(d) if d is not None or r.random() < 0.5 else self.holder(i).verify_signature())
        elif f == "mac":
            out, v = self.attempt(lambda: m.verify_tag(m.recipients[0]) if w["typ"] == "Mac" and r.random() < 0.5 else m.verify_tag())
        else:
            out, v = self.attempt(lambda: m.decrypt(m.recipients[0]) if w["typ"] == "Enc" else m.decrypt())
        if out == "ok" and f != "enc":
            if type(v) is not bool:
                raise Violation("verification returned %r" % (v,))
            out = "ok" if v else "bad"
        elif out == "ok":
            want = self.pay[self.net[w["auth"] - 1][1]["pay"]] if w["auth"] else None
            if v != want:
                raise Violation("decryption returned %r instead of %r" % (v, want))
        if out == "ok":
            self.count("accepted " + w["typ"])
        else:
            self.count("rejected " + w["typ"])
        return out
