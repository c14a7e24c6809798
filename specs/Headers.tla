------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* The two header buckets of a message, signer or recipient: what is in    *)
(* them after any sequence of assignments, updates, transports and         *)
(* lookups.  Labels are abstract; the driver writes each of them in any of *)
(* its spellings (class, integer, name).                                   *)
(*                                                                         *)
(* Restricted labels are registered parameters with a restricted value     *)
(* domain, so they have the additional value "bad"; Unknown labels are not *)
(* registered; every other label is registered and unrestricted.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Labels, Restricted, Unknown,
          Filled,     \* the abstract values of parameters that are present
          Buckets,    \* {"p", "u"}, or {"u"} for objects whose protected header has to stay empty
          MaxNew,     \* labels per assigned map
          MaxInit

VARIABLE st           \* [p, u : Labels -> Vals, src : "own" | "recv"]

Vals  == {"-"} \cup Filled
Maps  == [Labels -> Vals]
Size(m)  == Cardinality({l \in Labels : m[l] # "-"})
Good(max) == {m \in Maps : Size(m) <= max}
Bad(max) == UNION {{[m EXCEPT ![l] = "bad"] : m \in {x \in Maps : x[l] = "-" /\ Size(x) < max}} : l \in Restricted}
Empty == [l \in Labels |-> "-"]

InitStates(max) == {[p |-> a, u |-> b, src |-> "own"] : a \in {m \in Maps : Size(m) <= IF "p" \in Buckets THEN max ELSE 0}, b \in {m \in Maps : Size(m) <= max}}

IsBad(m)      == \E l \in Restricted : m[l] = "bad"
HasUnknown(m) == \E l \in Unknown : m[l] # "-"
Merge(old, m) == [l \in Labels |-> IF m[l] # "-" THEN m[l] ELSE old[l]]
NoBad(m)      == [l \in Labels |-> IF m[l] = "bad" THEN "-" ELSE m[l]]

Lookup(s, l, d) ==
  CASE s.p[l] # "-" /\ s.u[l] # "-" -> "dup"
    [] s.p[l] # "-" -> s.p[l]
    [] s.u[l] # "-" -> s.u[l]
    [] OTHER -> d

Res(s, o) == [st |-> s, out |-> o]

Apply(s, op) ==
  CASE op.name = "set" ->
         IF IsBad(op.m) THEN Res(s, "bad")
         ELSE IF op.b = "p" THEN Res([s EXCEPT !.p = op.m, !.src = "own"], "ok")
              ELSE Res([s EXCEPT !.u = op.m], "ok")
    [] op.name = "upd" ->
         IF IsBad(op.m) THEN Res(s, "bad")
         ELSE IF op.b = "p" THEN Res([s EXCEPT !.p = Merge(@, op.m), !.src = "own"], "ok")
              ELSE Res([s EXCEPT !.u = Merge(@, op.m)], "ok")
    [] op.name = "get"  -> Res(s, Lookup(s, op.l, op.d))
    [] op.name = "miss" -> Res(s, op.d)                  \* a registered parameter that is in neither bucket
    [] op.name = "send" ->
         IF op.pol = "deny" /\ (HasUnknown(s.p) \/ HasUnknown(s.u)) THEN Res(s, "bad")
         ELSE Res([s EXCEPT !.src = "recv"], "ok")
    [] op.name = "recvbad" -> Res(s, "bad")              \* the same message with a bad value in one bucket
    [] op.name = "new" ->                                \* another object built from the same contents
         IF op.pol = "deny" /\ (HasUnknown(s.p) \/ HasUnknown(s.u)) THEN Res(s, "bad")
         ELSE IF op.b # "-" THEN Res(s, "bad") ELSE Res(s, "ok")

Ops(s) ==
       {[name |-> n, b |-> b, m |-> m] : n \in {"set", "upd"}, b \in Buckets, m \in Good(MaxNew) \cup Bad(MaxNew)}
  \cup {[name |-> "get", l |-> l, d |-> d] : l \in Labels, d \in {"none", "dflt"}}
  \cup {[name |-> "miss", d |-> d] : d \in {"none", "dflt"}}
  \cup {[name |-> "send", form |-> f, pol |-> q] : f \in {"lib"} \cup (IF "p" \in Buckets THEN {"non"} ELSE {}), q \in {"allow", "deny"}}
  \cup (IF Restricted # {} THEN {[name |-> "recvbad", b |-> b, pol |-> q] : b \in Buckets, q \in {"allow", "deny"}} ELSE {})
  \cup {[name |-> "new", b |-> b, pol |-> q] : b \in {"-"} \cup (IF Restricted # {} THEN Buckets ELSE {}), q \in {"allow", "deny"}}

Do(op) == st' = Apply(st, op).st
Assign    == \E op \in {o \in Ops(st) : o.name = "set"} : Do(op)
Update    == \E op \in {o \in Ops(st) : o.name = "upd"} : Do(op)
Transport == \E op \in {o \in Ops(st) : o.name \in {"send", "recvbad"}} : Do(op)
Inspect   == \E op \in {o \in Ops(st) : o.name \in {"get", "miss", "new"}} : Do(op)

Init == st \in InitStates(MaxInit)
Next == Assign \/ Update \/ Transport \/ Inspect
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == /\ st.p \in Maps /\ st.u \in Maps /\ st.src \in {"own", "recv"}

\* a refused operation changes nothing
Atomic == \A op \in Ops(st) : Apply(st, op).out = "bad" => Apply(st, op).st = st

\* an assignment leaves exactly the new contents, in its bucket only
Exact == \A op \in Ops(st) : LET r == Apply(st, op) IN
           /\ (op.name = "set" /\ r.out = "ok") =>
                /\ (IF op.b = "p" THEN r.st.p ELSE r.st.u) = op.m
                /\ (IF op.b = "p" THEN r.st.u = st.u ELSE r.st.p = st.p)
           /\ (op.name = "upd" /\ r.out = "ok") =>
                /\ \A l \in Labels : (IF op.b = "p" THEN r.st.p ELSE r.st.u)[l] =
                                        IF op.m[l] # "-" THEN op.m[l] ELSE (IF op.b = "p" THEN st.p ELSE st.u)[l]
                /\ (IF op.b = "p" THEN r.st.u = st.u ELSE r.st.p = st.p)

\* transport changes no contents
Lossless == \A op \in Ops(st) : op.name = "send" => Apply(st, op).st.p = st.p /\ Apply(st, op).st.u = st.u

\* no invalid or unknown value ever gets in through a checked entry point
NeverBad == ~IsBad(st.p) /\ ~IsBad(st.u)

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates(MaxInit),
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
