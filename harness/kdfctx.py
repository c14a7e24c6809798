"""Driver for specs/Context.tla: KDF context objects as an application handles them."""
import cborx
import recips
import ref
import refmsg
import values as V
from common import Violation

SIXTEEN = [1, 10, 12, 30, 32, -3]                            # algorithms with keys of 16 bytes
OTHER = [2, 3, 11, 13, 31, 33, 4, 5, 6, 7, 14, 15, 25, 26, -4, -5]
LABEL = {"uid": -21, "unonce": -22, "uother": -23, "vid": -24, "vnonce": -25, "vother": -26}
ATTR = {"uid": "identity", "unonce": "nonce", "uother": "other"}
BADLEN = [0, 1, 8, 15, 17, 20, 33, 64, 128, 192, 256, -16, None, "16", b"\x10", 16.5, (16,)]


class Contexts:
    def __init__(self, consts, rnd):
        r = self.rnd = rnd
        self.counters, self.last_error = {}, None
        self.alg = {"a": r.choice(SIXTEEN), "b": r.choice(SIXTEEN + OTHER)}
        while self.alg["b"] == self.alg["a"]:
            self.alg["b"] = r.choice(SIXTEEN + OTHER)
        self.val = {}
        for f in list(LABEL) + ["pub", "priv"]:
            a = V.some_bytes(r, 0)[:300] or b"."
            b = V.near(r, a) or b".."
            if f.endswith("nonce") and r.random() < 0.3:
                a, b = r.choice([0, 1, 2 ** 33, -1]), r.choice([5, b"\0", 2 ** 34])
            self.val[f] = {"-": None, "a": a, "b": b, "e": b""}
        agree = r.choice(sorted(a for a in ref.ECDH if a in (-25, -26, -27, -28)))
        self.agree = agree
        self.map = {"map": self.some_map(), "map2": self.some_map()}
        while cborx.enc(self.map["map"]) == cborx.enc(self.map["map2"]):
            self.map["map2"] = self.some_map()
        self.map["bytes"] = self.some_map()
        self.bytes = b""
        while self.bytes in (b"", cborx.enc(self.map["map"]), cborx.enc(self.map["map2"])):
            self.map["bytes"] = self.some_map()
            self.bytes = cborx.enc_map_noncanonical(self.map["bytes"], r.choice([0, 1, 2, 3, 5])) if r.random() < 0.7 else cborx.enc(self.map["bytes"])

    def some_map(self):
        r = self.rnd
        m = {}
        for k, v in r.sample([(1, self.agree), (3, r.choice([0, 60, "text/plain"])), (4, V.some_bytes(r, 0)[:40]), (-70000 - r.randrange(9), r.randbytes(3)),
                              (r.choice(["x", "zz"]), r.randrange(1000))], r.randrange(1, 4)):
            m[k] = v
        return m

    def describe(self):
        return {"algs": {k: V.ALG_NAMES[v] for k, v in self.alg.items()}, "maps": {k: str(v) for k, v in self.map.items()}, "bytes": self.bytes.hex()}

    def start(self, s):
        self.obj = {k: None for k in s}

    def step(self, o, s, t, r):
        try:
            getattr(self, "do_" + o["o"])(o, s)
        except Violation:
            raise
        except Exception as e:
            self.last_error = e
            out = "bad"
        else:
            out = "ok"
        if out != r["out"]:
            return {"out": out}
        enc = {}
        for k in sorted(self.obj):
            x = self.obj[k]
            if x is None:
                enc[k] = []
                continue
            try:
                got = x.encode()
                again = x.encode()
            except Exception as e:
                raise Violation("a KDF context cannot be encoded: %r" % e, t[k])
            if got != again:
                raise Violation("encoding a KDF context twice gives two results", t[k])
            want = cborx.enc(self.evaluate(r["e"][k]))
            if got != want:
                raise Violation("a KDF context is encoded as another one", {"context": t[k], "encoded": got.hex(), "expected": want.hex()})
            enc[k] = r["e"][k]
            self.counters["contexts encoded"] = self.counters.get("contexts encoded", 0) + 1
        return {"out": out, "e": enc}

    def observe(self, t):
        return None

    def evaluate(self, x):
        if x == ["nil", "-"]:
            return None
        if len(x) == 2 and isinstance(x[0], str):
            f, v = x
            if f == "alg":
                return self.alg[v]
            if f == "bits":
                return 8 * int(v)
            if f == "prot":
                return b"" if v == "none" else self.bytes if v == "bytes" else cborx.enc(self.map[v])
            return self.val[f][v]
        return [self.evaluate(y) for y in x]

    # ---- operations
    def value(self, f, v):
        r = self.rnd
        if f == "alg":
            return V.alg_class(self.alg[v])
        if f == "len":
            return int(v)
        if f == "prot":
            if v in ("-", "empty"):
                return r.choice([{}, b""]) if v == "-" else {}
            if v == "bytes":
                return self.bytes
            return {V.hdr_class(k) if k in (1, 3, 4) else k: V.alg_class(x) if k == 1 else x for k, x in self.map[v].items()}
        if f in ("pub", "priv") and v == "-":
            return b""
        return self.val[f][v]

    def party(self, p, x):
        from pycose.messages.context import PartyInfo
        v = [self.value(p + n, x[p + n]) for n in ("id", "nonce", "other")]
        k = self.rnd.random()
        if k < 0.4:
            return PartyInfo(*v)
        if k < 0.6:
            while v and v[-1] is None:
                v.pop()
            return PartyInfo(*v)
        kw = {n: w for n, w in zip(("identity", "nonce", "other"), v) if w is not None or self.rnd.random() < 0.5}
        return PartyInfo(**kw)

    def do_make(self, o, s):
        from pycose.messages.context import CoseKDFContext, SuppPubInfo
        if self.rnd.random() < 0.5:
            self.obj[o["s"]] = CoseKDFContext(self.value("alg", "a"), SuppPubInfo(16))
        else:
            self.obj[o["s"]] = CoseKDFContext(supp_pub_info=SuppPubInfo(key_data_length=16), algorithm=self.value("alg", "a"))

    def do_full(self, o, s):
        from pycose.messages.context import CoseKDFContext, SuppPubInfo
        x, r = s[o["u"]], self.rnd
        pub = [self.value("len", x["len"]), self.value("prot", x["prot"]), self.value("pub", x["pub"])]
        pub = SuppPubInfo(*pub) if r.random() < 0.5 else SuppPubInfo(other=pub[2], protected=pub[1], key_data_length=pub[0])
        v = [self.value("alg", x["alg"]), pub, self.party("u", x), self.party("v", x), self.value("priv", x["priv"])]
        if r.random() < 0.5:
            self.obj[o["s"]] = CoseKDFContext(*v)
        else:
            kw = dict(zip(("algorithm", "supp_pub_info", "party_u_info", "party_v_info", "supp_priv_info"), v))
            for p, n in (("u", "party_u_info"), ("v", "party_v_info")):
                if all(x[p + f] == "-" for f in ("id", "nonce", "other")) and r.random() < 0.6:
                    del kw[n]
            if x["priv"] == "-" and r.random() < 0.6:
                del kw["supp_priv_info"]
            self.obj[o["s"]] = CoseKDFContext(**kw)

    def do_recipient(self, o, s):
        from pycose import headers
        from pycose.messages import CoseMessage
        from pycose.messages.recipient import DirectKeyAgreement
        x, r = s[o["u"]], self.rnd
        wire = {LABEL[f]: self.val[f][x[f]] for f in LABEL if x[f] != "-"}
        prot = {} if x["prot"] in ("-", "empty") else dict(self.map[x["prot"]])
        if 1 not in prot:
            wire[1] = self.agree
        for k in prot:
            wire.pop(k, None)
        local = {headers.SuppPubOther if f == "pub" else headers.SuppPrivOther: self.val[f][x[f]] for f in ("pub", "priv") if x[f] != "-"}
        if x["prot"] == "bytes" or r.random() < 0.5:
            data = b"" if not prot else self.bytes if x["prot"] == "bytes" else cborx.enc(prot)
            wire[-1 if ref.ECDH[prot.get(1, self.agree)][1] else -2] = refmsg.public(ref.ec_key("P-256", r))
            body = [b"", {1: 1, 5: bytes(12)}, b"c" * 20, [[data, wire, b""]]]
            rec = CoseMessage.decode(cborx.enc(cborx.Tag(96, body))).recipients[0]
            if local or r.random() < 0.3:
                rec.local_attrs = local
        else:
            rec = DirectKeyAgreement(phdr=V.spell_header(r, prot), uhdr=V.spell_header(r, wire))
            rec.local_attrs = local
        alg = self.value("alg", "a")
        if r.random() < 0.5:
            rec.get_kdf_context(self.value("alg", "b" if self.alg["b"] in SIXTEEN else "a"))
        self.obj[o["s"]] = rec.get_kdf_context(alg)

    def do_set(self, o, s):
        c, f = self.obj[o["s"]], o["f"]
        v = self.value(f, o["v"])
        if f in LABEL:
            part = c.party_u_info if f[0] == "u" else c.party_v_info
            if self.rnd.random() < 0.3:
                # the party's information exchanged as a whole
                part = self.party(f[0], dict(s[o["s"]], **{f: o["v"]}))
                setattr(c, "party_%s_info" % f[0], part)
            else:
                setattr(part, ATTR["u" + f[1:]], v)
        elif f == "len":
            c.supp_pub_info.key_data_length = v
            if c.supp_pub_info.key_data_length != v:
                raise Violation("the key length of a KDF context is not the one just set", {"set": v, "read": c.supp_pub_info.key_data_length})
        elif f == "prot":
            c.supp_pub_info.protected = v
        elif f == "pub":
            c.supp_pub_info.other = v
        elif f == "priv":
            c.supp_priv_info = v
        else:
            c.algorithm = v

    def do_badlen(self, o, s):
        from pycose.messages.context import SuppPubInfo
        bad = self.rnd.choice(BADLEN)
        if self.rnd.random() < 0.4:
            SuppPubInfo(bad)
        else:
            self.obj[o["s"]].supp_pub_info.key_data_length = bad
