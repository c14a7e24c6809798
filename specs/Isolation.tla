----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Several messages, keys and dictionaries of the caller that live at the  *)
(* same time.  An operation changes the objects it is applied to and no    *)
(* others, and its result depends on their contents only.                  *)
(*                                                                         *)
(* Messages of Layered carry one recipient or signer (field c is the       *)
(* contents of its unprotected header, n says whether it is there);        *)
(* messages of NeedAlg have their algorithm in their own protected header  *)
(* (contents "-" of p is an empty header, "n", "a" and "b" have it).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Msgs, Layered, NeedAlg, Keys, PDicts, UDicts,
          Near        \* length of the histories that are explored exhaustively

VARIABLES st,         \* everything
          last        \* the last operation and its outcome

PVal == {"n", "a", "b"}
UVal == {"-", "a", "b"}

NoTag == [mat |-> "-", p |-> "-", pay |-> "-", aad |-> "-"]
NoWire == [has |-> FALSE, p |-> "-", u |-> "-", c |-> "-", tag |-> NoTag]
Fresh(p, u, c, n) == [p |-> p, u |-> u, c |-> c, n |-> n, pay |-> "a", aad |-> "-", key |-> "-", src |-> "own", tag |-> NoTag]

Start == [m |-> [i \in Msgs |-> Fresh("-", "-", "-", 0)],
          k |-> [i \in Keys |-> [mat |-> "1", kid |-> "-", ops |-> "-"]],
          p |-> [i \in PDicts |-> "n"],
          u |-> [i \in UDicts |-> "-"],
          w |-> [i \in Msgs |-> NoWire]]

KeyFits(s, m) == s.m[m].key # "-" /\ s.k[s.m[m].key].ops \in {"-", "fit"}
HasAlg(s, m) == m \in NeedAlg => s.m[m].p # "-"
Same(m, x) == (m \in Layered) = (x \in Layered) /\ (m \in NeedAlg) = (x \in NeedAlg)

Res(s, o) == [st |-> s, out |-> o]

\* merging a dictionary into a header
Merge(old, new) == IF new = "n" THEN (IF old = "-" THEN "n" ELSE old) ELSE new
MergeU(old, new) == IF new = "-" THEN old ELSE new

Protect(s, m) ==
  IF KeyFits(s, m) /\ HasAlg(s, m) /\ (m \in Layered => s.m[m].n = 1)
  THEN LET x == s.m[m]
           t == [mat |-> s.k[x.key].mat, p |-> x.p, pay |-> x.pay, aad |-> x.aad]
       IN Res([s EXCEPT !.w[m] = [has |-> TRUE, p |-> x.p, u |-> x.u, c |-> x.c, tag |-> t]], "ok")
  ELSE Res(s, "bad")

Load(s, m, x) ==
  LET w == s.w[x] IN
  Res([s EXCEPT !.m[m] = [Fresh(w.p, w.u, w.c, IF m \in Layered THEN 1 ELSE 0) EXCEPT !.pay = w.tag.pay, !.src = "recv", !.tag = w.tag]], "ok")

Verify(s, m) ==
  LET x == s.m[m] IN
  IF KeyFits(s, m) /\ HasAlg(s, m) /\ x.tag = [mat |-> s.k[x.key].mat, p |-> x.p, pay |-> x.pay, aad |-> x.aad]
  THEN Res(s, "ok") ELSE Res(s, "bad")

Apply(s, op) ==
  CASE op.name = "new"     -> Res([s EXCEPT !.m[op.m] = Fresh(s.p[op.p], s.u[op.u], IF op.m \in Layered THEN s.u[op.u] ELSE "-", IF op.m \in Layered THEN 1 ELSE 0)], "ok")
    [] op.name = "default" -> Res([s EXCEPT !.m[op.m] = Fresh("-", "-", "-", 0)], "ok")
    [] op.name = "setp"    -> Res([s EXCEPT !.m[op.m].p = s.p[op.p]], "ok")
    [] op.name = "updp"    -> Res([s EXCEPT !.m[op.m].p = Merge(@, s.p[op.p])], "ok")
    [] op.name = "setu"    -> Res([s EXCEPT !.m[op.m].u = s.u[op.u]], "ok")
    [] op.name = "updu"    -> Res([s EXCEPT !.m[op.m].u = MergeU(@, s.u[op.u])], "ok")
    [] op.name = "setc"    -> Res([s EXCEPT !.m[op.m].c = s.u[op.u]], "ok")
    [] op.name = "child"   -> Res([s EXCEPT !.m[op.m].n = 1, !.m[op.m].c = s.u[op.u]], "ok")
    [] op.name = "pay"     -> Res([s EXCEPT !.m[op.m].pay = op.v], "ok")
    [] op.name = "aad"     -> Res([s EXCEPT !.m[op.m].aad = op.v], "ok")
    [] op.name = "key"     -> Res([s EXCEPT !.m[op.m].key = op.k], "ok")
    [] op.name = "protect" -> Protect(s, op.m)
    [] op.name = "load"    -> Load(s, op.m, op.x)
    [] op.name = "verify"  -> Verify(s, op.m)
    [] op.name = "open"    -> LET l == Load(s, op.m, op.x).st IN
                              Verify([l EXCEPT !.m[op.m].key = op.k, !.m[op.m].aad = op.v], op.m)
    [] op.name = "fail"    -> Res(s, "bad")
    [] op.name = "tmp"     -> Res(s, "ok")
    [] op.name = "touchp"  -> Res([s EXCEPT !.p[op.p] = op.v], "ok")
    [] op.name = "touchu"  -> Res([s EXCEPT !.u[op.u] = op.v], "ok")
    [] op.name = "mat"     -> Res([s EXCEPT !.k[op.k].mat = op.v], "ok")
    [] op.name = "kid"     -> Res([s EXCEPT !.k[op.k].kid = op.v], "ok")
    [] op.name = "kops"    -> Res([s EXCEPT !.k[op.k].ops = op.v], "ok")

Enabled(s) ==
       {[name |-> "new", m |-> m, p |-> p, u |-> u] : m \in Msgs, p \in PDicts, u \in UDicts}
  \cup {[name |-> n, m |-> m, p |-> p] : n \in {"setp", "updp"}, m \in Msgs, p \in PDicts}
  \cup {[name |-> n, m |-> m, u |-> u] : n \in {"setu", "updu"}, m \in Msgs, u \in UDicts}
  \cup {[name |-> "setc", m |-> m, u |-> u] : m \in {x \in Layered : s.m[x].n = 1}, u \in UDicts}
  \cup {[name |-> "child", m |-> m, u |-> u] : m \in {x \in Layered : s.m[x].n = 0 /\ s.m[x].src = "own"}, u \in UDicts}
  \cup {[name |-> "default", m |-> m] : m \in Msgs}
  \cup {[name |-> "pay", m |-> m, v |-> v] : m \in {x \in Msgs : s.m[x].src = "own"}, v \in {"a", "b"}}
  \cup {[name |-> "aad", m |-> m, v |-> v] : m \in Msgs, v \in {"-", "a"}}
  \cup {[name |-> "key", m |-> m, k |-> k] : m \in {x \in Msgs : x \in Layered => s.m[x].n = 1}, k \in Keys}
  \cup {[name |-> "protect", m |-> m] : m \in {x \in Msgs : s.m[x].src = "own" /\ (x \in Layered => s.m[x].n = 1)}}
  \cup {[name |-> "verify", m |-> m] : m \in {x \in Msgs : s.m[x].src = "recv"}}
  \cup {[name |-> "load", m |-> m, x |-> x] : m \in Msgs, x \in {y \in Msgs : s.w[y].has}}
  \cup {[name |-> "open", m |-> m, x |-> x, k |-> k, v |-> v] : m \in Msgs, x \in {y \in Msgs : s.w[y].has}, k \in Keys, v \in {"-", "a"}}
  \cup {[name |-> n, m |-> m] : n \in {"fail", "tmp"}, m \in Msgs}
  \cup {[name |-> "touchp", p |-> p, v |-> v] : p \in PDicts, v \in PVal}
  \cup {[name |-> "touchu", u |-> u, v |-> v] : u \in UDicts, v \in UVal}
  \cup {[name |-> "mat", k |-> k, v |-> v] : k \in Keys, v \in {"1", "2"}}
  \cup {[name |-> "kid", k |-> k, v |-> v] : k \in Keys, v \in {"-", "a", "b"}}
  \cup {[name |-> "kops", k |-> k, v |-> v] : k \in Keys, v \in {"-", "fit", "unfit"}}
Ops(s) == {op \in Enabled(s) : op.name \in {"load", "open"} => Same(op.m, op.x)}

Do(op) == LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, out |-> r.out]

\* grouped, so that a random walk visits every kind of operation
Create   == \E op \in {o \in Ops(st) : o.name \in {"new", "default"}} : Do(op)
Headers  == \E op \in {o \in Ops(st) : o.name \in {"setp", "updp", "setu", "updu", "setc", "child"}} : Do(op)
Contents == \E op \in {o \in Ops(st) : o.name \in {"pay", "aad", "key"}} : Do(op)
Send     == \E op \in {o \in Ops(st) : o.name = "protect"} : Do(op)
Receive  == \E op \in {o \in Ops(st) : o.name \in {"load", "verify"}} : Do(op)
Open     == \E op \in {o \in Ops(st) : o.name = "open"} : Do(op)
Other    == \E op \in {o \in Ops(st) : o.name \in {"fail", "tmp"}} : Do(op)
Caller   == \E op \in {o \in Ops(st) : o.name \in {"touchp", "touchu"}} : Do(op)
KeyWork  == \E op \in {o \in Ops(st) : o.name \in {"mat", "kid", "kops"}} : Do(op)

\* a world in which every message can be protected at once
Ready(f) == [Start EXCEPT !.m = [i \in Msgs |-> [Fresh("n", "-", "-", IF i \in Layered THEN 1 ELSE 0) EXCEPT !.key = f[i]]]]

Init == st \in {Start} \cup {Ready(f) : f \in [Msgs -> Keys]} /\ last = [op |-> [name |-> "start"], out |-> "ok"]
Next == Create \/ Headers \/ Contents \/ Send \/ Receive \/ Open \/ Other \/ Caller \/ KeyWork
Spec == Init /\ [][Next]_<<st, last>>
View == st

----------------------------------------------------------------------------
TypeOK == /\ \A m \in Msgs : st.m[m].p \in PVal \cup {"-"} /\ st.m[m].u \in UVal /\ st.m[m].c \in UVal
          /\ \A p \in PDicts : st.p[p] \in PVal
          /\ \A u \in UDicts : st.u[u] \in UVal

\* the objects an operation is allowed to change
TouchM(op) == IF op.name \in {"new", "default", "setp", "updp", "setu", "updu", "setc", "child", "pay", "aad", "key", "load", "open"} THEN {op.m} ELSE {}
TouchW(op) == IF op.name = "protect" THEN {op.m} ELSE {}
TouchK(op) == IF op.name \in {"mat", "kid", "kops"} THEN {op.k} ELSE {}
TouchP(op) == IF op.name = "touchp" THEN {op.p} ELSE {}
TouchU(op) == IF op.name = "touchu" THEN {op.u} ELSE {}

Frame == \A op \in Ops(st) : LET t == Apply(st, op).st IN
  /\ \A m \in Msgs \ TouchM(op) : t.m[m] = st.m[m]
  /\ \A m \in Msgs \ TouchW(op) : t.w[m] = st.w[m]
  /\ \A k \in Keys \ TouchK(op) : t.k[k] = st.k[k]
  /\ \A p \in PDicts \ TouchP(op) : t.p[p] = st.p[p]
  /\ \A u \in UDicts \ TouchU(op) : t.u[u] = st.u[u]

\* the objects whose contents an operation may depend on
Reads(s, op) ==
  [m |-> IF op.name \in {"updp", "updu", "protect", "verify"} \cup {"setp", "setu", "setc", "child", "pay", "aad", "key"} THEN {op.m} ELSE {},
   w |-> IF op.name \in {"load", "open"} THEN {op.x} ELSE {},
   k |-> IF op.name = "open" THEN {op.k} ELSE IF op.name \in {"protect", "verify"} /\ s.m[op.m].key # "-" THEN {s.m[op.m].key} ELSE {}]

\* the same operation in a world where everything else is as it was in the beginning
Pure == \A op \in Ops(st) : LET r == Reads(st, op)
                                 s == [st EXCEPT !.m = [m \in Msgs |-> IF m \in r.m THEN st.m[m] ELSE Start.m[m]],
                                                 !.w = [m \in Msgs |-> IF m \in r.w THEN st.w[m] ELSE Start.w[m]],
                                                 !.k = [k \in Keys |-> IF k \in r.k THEN st.k[k] ELSE Start.k[k]]]
                             IN Apply(s, op).out = Apply(st, op).out

\* operations that neither touch nor read each other's objects commute
Disjoint(a, b) == LET ra == Reads(st, a)  rb == Reads(st, b) IN
  /\ TouchM(a) \cap (TouchM(b) \cup rb.m) = {} /\ TouchM(b) \cap ra.m = {}
  /\ TouchW(a) \cap (TouchW(b) \cup rb.w) = {} /\ TouchW(b) \cap ra.w = {}
  /\ TouchK(a) \cap (TouchK(b) \cup rb.k) = {} /\ TouchK(b) \cap ra.k = {}
  /\ TouchP(a) = {} /\ TouchP(b) = {} /\ TouchU(a) = {} /\ TouchU(b) = {}
Commute == LET O == {[o |-> op, a |-> Apply(st, op)] : op \in Ops(st)} IN
  \A a, b \in O : Disjoint(a.o, b.o) =>
  LET x == Apply(b.a.st, a.o)  y == Apply(a.a.st, b.o) IN
  /\ x.st = y.st /\ x.out = a.a.out /\ y.out = b.a.out

\* what is accepted was protected with these contents, and once protected it stays acceptable
Sound == \A op \in {o \in Ops(st) : o.name \in {"verify", "open"}} :
  LET r == Apply(st, op)  x == r.st.m[op.m] IN
  r.out = "ok" => x.tag = [mat |-> r.st.k[x.key].mat, p |-> x.p, pay |-> x.pay, aad |-> x.aad]
Complete == \A op \in {o \in Ops(st) : o.name = "protect"} : LET a == Apply(st, op) IN
  a.out = "ok" => Apply(a.st, [name |-> "open", m |-> op.m, x |-> op.m, k |-> st.m[op.m].key, v |-> st.m[op.m].aad]).out = "ok"

\* the first operations from every beginning
Dump == TLCGet("level") <= Near =>
  PrintT("@@" \o ToJson([s |-> st, i |-> TLCGet("level") = 1,
          x |-> {LET r == Apply(st, op) IN [o |-> op, r |-> r.out, t |-> r.st] : op \in Ops(st)}]))
Short == TLCGet("level") <= Near
=============================================================================
