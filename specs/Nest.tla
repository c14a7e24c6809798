-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* Key wrap through recipients of its own (RFC 8152, 12.2.1 and appendix   *)
(* B): a key wrap recipient of a message takes its key encryption key from *)
(* recipients that it carries itself.  These are assigned in any order,    *)
(* given key encryption keys, taken away and used again, and the message   *)
(* is protected again and again, also with a key of the recipient itself.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS K1, K2, K3,  \* kinds of the objects: "wrap" carries the KEK, "agree" derives it, "direct" does not fit
          MaxRs, Given

VARIABLE st            \* [rs : recipients of the recipient, own : it has a key itself, kek : held by each object, ck : a content key was chosen]

Slots == 1..3
KindAt(i) == <<K1, K2, K3>>[i]
Lists == {q \in UNION {[1..n -> Slots] : n \in 0..MaxRs} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Range(q) == {q[i] : i \in DOMAIN q}
Fresh == {"1", "2", "3", "4"}
Kek   == {"-"} \cup Given \cup Fresh

KindsOf(s) == {KindAt(i) : i \in Range(s.rs)}
Held(s) == {s.kek[i] : i \in Range(s.rs)} \ {"-"}
Used(s) == {s.kek[i] : i \in Slots}
New(s) == CASE "1" \notin Used(s) -> "1" [] "2" \notin Used(s) -> "2" [] "3" \notin Used(s) -> "3" [] OTHER -> "4"

Permitted(s) == IF s.rs = <<>> THEN s.own
                ELSE /\ "direct" \notin KindsOf(s)
                     /\ "agree" \in KindsOf(s) => Len(s.rs) = 1
Chosen(s) == IF Held(s) = {} THEN New(s) ELSE CHOOSE k \in Held(s) : TRUE

Res(s, o) == [st |-> s, out |-> o]
Apply(s, op) ==
  CASE op.name = "assign" -> Res([s EXCEPT !.rs = op.l], "ok")
    [] op.name = "give"   -> Res([s EXCEPT !.kek[op.i] = op.k], "ok")
    [] op.name = "own"    -> Res([s EXCEPT !.own = ~@], "ok")
    [] op.name = "encode" ->
         IF ~Permitted(s) THEN Res(s, "bad")
         ELSE IF s.rs = <<>> THEN Res([s EXCEPT !.ck = TRUE], "own")
         ELSE IF KindsOf(s) = {"agree"} THEN Res([s EXCEPT !.ck = TRUE], "agree")
         ELSE IF Cardinality(Held(s)) > 1 THEN Res(s, "bad")
         ELSE Res([s EXCEPT !.ck = TRUE, !.kek = [i \in Slots |-> IF i \in Range(s.rs) THEN Chosen(s) ELSE @[i]]], Chosen(s))

Ops(s) ==
       {[name |-> "assign", l |-> q] : q \in Lists \ {s.rs}}
  \cup {[name |-> "give", i |-> i, k |-> k] : i \in {j \in Slots : KindAt(j) = "wrap"}, k \in Given \cup {"-"}}
  \cup {[name |-> "own"]}
  \* a key of its own next to recipients that carry another one is not a case the standard knows
  \cup (IF s.own /\ s.rs # <<>> THEN {} ELSE {[name |-> "encode"]})

Do(op) == st' = Apply(st, op).st
Assign  == \E op \in {o \in Ops(st) : o.name = "assign"} : Do(op)
Give    == \E op \in {o \in Ops(st) : o.name = "give"} : Do(op)
Own     == \E op \in {o \in Ops(st) : o.name = "own"} : Do(op)
Protect == \E op \in {o \in Ops(st) : o.name = "encode"} : Do(op)

Init == st = [rs |-> <<>>, own |-> FALSE, kek |-> [i \in Slots |-> "-"], ck |-> FALSE]
Next == Assign \/ Give \/ Own \/ Protect
Spec == Init /\ [][Next]_st

TypeOK == st.rs \in Lists /\ st.kek \in [Slots -> Kek] /\ st.own \in BOOLEAN /\ st.ck \in BOOLEAN
Enc == Apply(st, [name |-> "encode"])
OneKey == Enc.out \in Kek \ {"-"} => \A i \in Range(st.rs) : Enc.st.kek[i] = Enc.out /\ st.kek[i] \in {"-", Enc.out}
Frame == /\ \A i \in Slots \ Range(st.rs) : Enc.st.kek[i] = st.kek[i]
         /\ (Enc.out = "bad" => Enc.st = st)
FreshKey == Enc.out \in Fresh => (Enc.out \in Held(st) \/ Enc.out \notin Used(st))
Stable == Enc.out # "bad" => Apply(Enc.st, [name |-> "encode"]).out = Enc.out

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> TLCGet("level") = 1,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
