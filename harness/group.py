"""Random senders, receivers and a random network whose histories specs/GroupTrace.tla judges."""
import types

import cbor2

import cborx
import common
import recips
import ref
import refmsg
import values as V
from common import Violation

AADS = ["z", "a", "b"]
PAYS = ["a", "b", "c"]


class Group:
    def __init__(self, args, rnd):
        r = self.r = rnd
        self.counters = {}
        self.parties = self.make_parties(r.choice([2, 3, 3, 4, 5]), args.get("kinds"))
        n = len(self.parties)
        hosts = [h for h in recips.HOSTS if args.get("family", 0) in (0, 96 if h in ref.ENC_ALGS else 97)]
        self.hosts = r.sample(hosts, min(len(hosts), r.choice([1, 2, 3, 4])))
        if r.random() < 0.6:                                     # mostly keys that fit several of them
            k = refmsg.key_len(self.hosts[0])
            same = [h for h in hosts if refmsg.key_len(h) == k]
            self.hosts = r.sample(same, min(len(same), len(self.hosts)))
        self.algs = {str(h): {"fam": "enc" if h in ref.ENC_ALGS else "mac", "len": 0 if h in ref.HMACS else refmsg.key_len(h)} for h in self.hosts}
        lens = [refmsg.key_len(h) for h in self.hosts]
        self.given = {x: r.randbytes(r.choice(lens) if r.random() < 0.85 else r.choice([16, 24, 32])) for x in ("p", "q", "s")}
        first = V.some_bytes(r)[:2000]
        self.pay = {"a": first, "b": b"" if first else b"x", "c": V.near(r, first) if first else r.randbytes(40)}
        if len(set(self.pay.values())) < 3:
            self.pay["c"] = first + b"."
        self.aad = {"z": b"", "a": b"external", "b": b"external."}
        self.m, self.know = {}, {}
        for i in range(1, r.choice([2, 3, 4])):
            h = r.choice(self.hosts)
            self.know[i] = {"alg": h, "rs": [], "pay": "a", "aad": "z", "in": r.choice("pu"), "iv": None}
            self.m[i] = self.message(i)
        self.nrx = r.choice([1, 2, 3])
        self.rx = {x: None for x in range(1, self.nrx + 1)}      # (message, world, entries, number of the message)
        self.sent = []                                           # (wire array, tag, world, parties of the entries)
        self.known = []
        self.todo = []

    def make_parties(self, n, kinds=None):
        r = self.r
        out, rsa = [], set()
        while len(out) < n:
            x = recips.Slot(r, r.choice(kinds or ["wrap"] * 5 + ["agree"] * 2 + ["direct"]), len(out) + 1)
            mine = {o.rec["n"] for o in x.owners() if o.rec and "n" in o.rec}
            if mine & rsa or len(mine) < sum(1 for o in x.owners() if o.rec and "n" in o.rec):
                continue                                         # the pool of RSA keys is small
            rsa |= mine
            x.build()
            out.append(x)
        return out

    def begin(self):
        return {"kind": [x.kind for x in self.parties], "algs": self.algs, "given": {k: len(v) for k, v in self.given.items()},
                "msgs": [str(self.know[i]["alg"]) for i in sorted(self.know)], "nrx": self.nrx}

    def describe(self):
        return {"parties": [x.describe() for x in self.parties], "algs": [V.ALG_NAMES[h] for h in self.hosts]}

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    # ---------------------------------------------------------------- objects
    def headers(self, i):
        w = self.know[i]
        p, u = ({1: w["alg"]}, {}) if w["in"] == "p" else ({}, {1: w["alg"]})
        if w["alg"] in ref.ENC_ALGS:
            u[5] = w["iv"] = self.r.randbytes(ref.enc_nonce_len(w["alg"]))
        return p, u

    def message(self, i):
        from pycose.messages import EncMessage, MacMessage
        r = self.r
        p, u = self.headers(i)
        return (EncMessage if self.know[i]["alg"] in ref.ENC_ALGS else MacMessage)(
            phdr=V.spell_header(r, p), uhdr=V.spell_header(r, u), payload=self.pay["a"], recipients=r.choice([None, []]))

    def world(self, i):
        w = self.know[i]
        return types.SimpleNamespace(host=w["alg"], tag=96 if w["alg"] in ref.ENC_ALGS else 97, ext=self.aad[w["aad"]], payload=self.pay[w["pay"]])

    # ----------------------------------------------------------------- events
    def event(self):
        op = self.todo.pop(0)() if self.todo else self.pick()
        out = getattr(self, "do_" + op["name"])(op)
        self.count("calls")
        return {"o": op, "r": out, "t": self.seen()}

    def seen(self):
        objs = [x.obj for x in self.parties]
        out = []
        for i in sorted(self.m):
            out.append([next((n + 1 for n, o in enumerate(objs) if o is q), 0) for q in self.m[i].recipients])
        return out

    def a_list(self):
        r = self.r
        ids = list(range(1, len(self.parties) + 1))
        if r.random() < 0.8:
            k = r.choice(["wrap", "wrap", "wrap", "agree", "direct"])
            own = [i for i in ids if self.parties[i - 1].kind == k] or [i for i in ids if self.parties[i - 1].kind == "wrap"]
            if own:
                return r.sample(own, 1 if k == "agree" else r.randrange(1, min(len(own), 3) + 1))
        return r.sample(ids, r.randrange(0, min(len(ids), 3) + 1))

    def pick(self):
        r = self.r
        i = r.choice(sorted(self.m))
        x = r.choice(sorted(self.rx))
        wraps = [n + 1 for n, p in enumerate(self.parties) if p.kind == "wrap"]
        agrees = [n + 1 for n, p in enumerate(self.parties) if p.kind == "agree"]
        ops = [(lambda: {"name": "assign", "i": i, "l": self.a_list()}, 3), (lambda: {"name": "pay", "i": i, "v": r.choice(PAYS)}, 1),
               (lambda: {"name": "aad", "i": i, "v": r.choice(AADS)}, 1), (lambda: self.protect_op(i), 6)]
        others = [h for h in self.hosts if (h in ref.ENC_ALGS) == (self.know[i]["alg"] in ref.ENC_ALGS)]
        ops.append((lambda: {"name": "alg", "i": i, "v": str(r.choice(others))}, 1.5))
        if wraps:
            ops.append((lambda: self.give_op(r.choice(wraps)), 2))
        if agrees:
            ops.append((lambda: {"name": "renew", "s": r.choice(agrees)}, 0.7))
        if self.sent:
            ops.append((lambda: self.deliver(x), 6))
        if self.rx[x] is not None:
            ops += [(lambda: self.key_op(x), 3), (lambda: {"name": "rxaad", "x": x, "v": r.choice(AADS)}, 1), (lambda: self.open_op(x), 5)]
            ys = [y for y in self.rx if y != x and self.rx[y] is not None]
            if ys:
                ops.append((lambda: self.foreign_op(x, r.choice(ys)), 1))
        return r.choices([f for f, _ in ops], [w for _, w in ops])[0]()

    def give_op(self, s):
        return {"name": "give", "s": s, "v": self.r.choice(["-", "-", "p", "p", "q", "s"])}

    def direct(self, parties):
        return bool(parties) and all(self.parties[i - 1].kind == "direct" for i in parties)

    def g(self, parties):
        return self.r.choice("ppqs") if self.direct(parties) else "-"

    def protect_op(self, i):
        return {"name": "protect", "i": i, "g": self.g(self.know[i]["rs"])}

    def deliver(self, x):
        """any sent message, mostly with its own entries, else with others"""
        r = self.r
        w = r.randrange(len(self.sent)) if r.random() < 0.4 else len(self.sent) - 1
        ents = [{"w": w + 1, "n": n + 1} for n in range(len(self.sent[w][3]))]
        k = r.random()
        if k < 0.45:
            v = r.choice([len(self.sent) - 1, r.randrange(len(self.sent))])
            other = [{"w": v + 1, "n": n + 1} for n in range(len(self.sent[v][3]))]
            if k < 0.2:
                ents = other
            elif k < 0.3:
                ents[r.randrange(len(ents))] = r.choice(other)
            elif k < 0.37:
                ents.insert(r.randrange(len(ents) + 1), r.choice(other))
            else:
                r.shuffle(ents)
                ents = ents[:max(1, len(ents) - 1)]
        op = {"name": "receive", "x": x, "w": w + 1, "ents": ents}
        owners = [self.sent[e["w"] - 1][3][e["n"] - 1] for e in ents]
        if r.random() < 0.7:                                     # a complete attempt
            n = r.randrange(len(ents))
            self.todo.append(lambda: {"name": "key", "x": x, "n": n + 1, "o": owners[n]})
            self.todo.append(lambda: {"name": "rxaad", "x": x, "v": next(a for a in AADS if self.aad[a] == self.sent[w][2].ext)})
            self.todo.append(lambda: self.open_op(x, n + 1))
        return op

    def key_op(self, x):
        r = self.r
        owners = self.rx[x][2]
        n = r.randrange(len(owners))
        return {"name": "key", "x": x, "n": n + 1, "o": owners[n] if r.random() < 0.6 else r.randrange(len(self.parties) + 1)}

    def open_op(self, x, n=None):
        owners = self.rx[x][2]
        n = n or self.r.randrange(len(owners)) + 1
        return {"name": "open", "x": x, "n": n, "g": self.g(owners)}

    def foreign_op(self, x, y):
        return {"name": "foreign", "x": x, "y": y, "n": self.r.randrange(len(self.rx[y][2])) + 1}

    # ------------------------------------------------------------- operations
    def do_assign(self, op):
        lst = [self.parties[i - 1].obj for i in op["l"]]
        self.m[op["i"]].recipients = lst or self.r.choice([lst, None])
        self.know[op["i"]]["rs"] = op["l"]
        if lst and self.r.random() < 0.2:
            lst.reverse()                                        # the caller's list is the caller's
            lst.pop()
        return "ok"

    def do_pay(self, op):
        self.m[op["i"]].payload = self.pay[op["v"]]
        self.know[op["i"]]["pay"] = op["v"]
        return "ok"

    def do_aad(self, op):
        self.m[op["i"]].external_aad = self.aad[op["v"]]
        self.know[op["i"]]["aad"] = op["v"]
        return "ok"

    def do_alg(self, op):
        r, m = self.r, self.m[op["i"]]
        self.know[op["i"]]["alg"] = int(op["v"])
        p, u = self.headers(op["i"])
        if r.random() < 0.5:
            m.phdr, m.uhdr = V.spell_header(r, p), V.spell_header(r, u)
        else:
            m.phdr_update(V.spell_header(r, p))
            m.uhdr_update(V.spell_header(r, u))
        return "ok"

    def do_give(self, op):
        self.parties[op["s"] - 1].obj.payload = b"" if op["v"] == "-" else self.given[op["v"]]
        return "ok"

    def do_renew(self, op):
        from pycose.headers import EphemeralKey
        r, x = self.r, self.parties[op["s"] - 1]
        o = x.obj
        x.static = ref.ec_key(x.rec["curve"], r)
        es = ref.ECDH[x.alg][1]
        if es and r.random() < 0.6:                              # generated when protecting
            o.key = None
            o.uhdr.pop(EphemeralKey, None)
        else:
            o.key = V.pycose_key(r, x.static)
            o.uhdr_update({V.spell_label(r, -1 if es else -2): V.pycose_key(r, x.static, False)})
        return "ok"

    def do_protect(self, op):
        r, i = self.r, op["i"]
        m, w = self.m[i], self.world(i)
        sl = [self.parties[n - 1] for n in self.know[i]["rs"]]
        direct = {"k": self.given.get(op["g"])}
        if op["g"] != "-":
            m.key = V.pycose_key(r, {"kty": 4, **direct})
        if w.tag == 96 and r.random() < 0.7:
            m.uhdr_update({V.spell_label(r, 5): r.randbytes(ref.enc_nonce_len(w.host))})
        held = {x.obj.payload for x in sl if x.kind == "wrap" and x.obj.payload}
        try:
            with common.limit(30):
                data = m.encode()
        except Exception:
            self.count("refused")
            if len(held) < 2:                                    # which of them hold the unsuitable key now is not specified
                self.todo = [lambda s=s: self.give_op(s) for s in self.know[i]["rs"] if self.parties[s - 1].kind == "wrap"]
            return "bad"
        if not sl:
            return "without recipients"
        k = recips.examine(w, sl, data, direct, self.parties)
        if k not in self.known:
            self.known.append(k)
        self.sent.append((cbor2.loads(data).value, w.tag, w, list(self.know[i]["rs"])))
        self.count("messages")
        return str(self.known.index(k) + 1)

    def do_receive(self, op):
        from pycose.messages import CoseMessage
        body, tag, w, _ = self.sent[op["w"] - 1]
        body = list(body)
        body[-1] = [self.sent[e["w"] - 1][0][-1][e["n"] - 1] for e in op["ents"]]
        owners = [self.sent[e["w"] - 1][3][e["n"] - 1] for e in op["ents"]]
        m = None
        try:
            m = CoseMessage.decode(cborx.enc(cborx.Tag(tag, body)))
        except Exception as e:
            self.count("not decoded")
            self.last_error = repr(e)
        self.rx[op["x"]] = (m, w, owners)
        return "ok"

    def do_key(self, op):
        m, w, owners = self.rx[op["x"]]
        if m is None:
            return "ok"
        x, rc = self.parties[owners[op["n"] - 1] - 1], m.recipients[op["n"] - 1]
        if op["o"] == 0 or x.kind == "direct" or self.parties[op["o"] - 1].kind == "direct":
            rc.key = None
            for y in rc.recipients:
                y.key = None
            return "ok"
        k = self.parties[op["o"] - 1].own_key()
        if self.parties[op["o"] - 1] is not x and isinstance(k, list):
            k = self.r.choice(k)
        x.set_key(rc, k)
        return "ok"

    def do_rxaad(self, op):
        m = self.rx[op["x"]][0]
        if m is not None:
            m.external_aad = self.aad[op["v"]]
        return "ok"

    def attempt(self, x, rc, g="-"):
        m, w, _ = self.rx[x]
        if m is None:
            return "bad"
        if g != "-":
            m.key = V.pycose_key(self.r, {"kty": 4, "k": self.given[g]})
        try:
            with common.limit(30):
                if w.tag == 96:
                    got = m.decrypt(rc)
                elif m.verify_tag(rc) is True:
                    got = m.payload
                else:
                    return "bad"
        except Exception as e:
            self.last_error = repr(e)
            self.count("not opened")
            return "bad"
        self.count("opened")
        if got not in self.pay.values():
            raise Violation("opening a message gives %r" % (got,))
        return next(p for p in self.pay if self.pay[p] == got)

    def do_open(self, op):
        m = self.rx[op["x"]][0]
        return self.attempt(op["x"], m and m.recipients[op["n"] - 1], op["g"])

    def do_foreign(self, op):
        m = self.rx[op["y"]][0]
        return self.attempt(op["x"], m and m.recipients[op["n"] - 1]) if m is not None else "bad"
