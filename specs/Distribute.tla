----------------------------- MODULE Distribute -----------------------------
(***************************************************************************)
(* The sender of a COSE_Encrypt or COSE_Mac message with several           *)
(* recipients, over the whole life of the message and recipient objects:   *)
(* recipients are assigned to the message in any order, given content      *)
(* keys, removed and added again, and the message is protected again and   *)
(* again, each time with contents of its own (RFC 8152, sections 5.1, 6,   *)
(* 12).                                                                    *)
(*                                                                         *)
(* Kinds of recipients: "wrap" transports the content key (key wrap, key   *)
(* transport, key agreement with key wrap, key wrap through recipients of  *)
(* its own); "agree" derives it; "direct" uses the key of the message.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K1, K2, K3,  \* kinds of the recipient objects
          MaxRs,       \* recipients in one message
          Given        \* content keys provided by the caller, a subset of {"p", "q"}

VARIABLE st          \* [rs : recipients of the message, ck : content key held by each recipient object]

Slots == 1..3
KindAt(i) == <<K1, K2, K3>>[i]

Lists == {q \in UNION {[1..n -> Slots] : n \in 0..MaxRs} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Range(q) == {q[i] : i \in DOMAIN q}

Fresh == {"1", "2", "3"}                \* generated ones
Cek   == {"-"} \cup Given \cup Fresh

InitStates == {[rs |-> <<>>, ck |-> [i \in Slots |-> "-"]]}

KindsOf(s) == {KindAt(i) : i \in Range(s.rs)}
Held(s)    == {s.ck[i] : i \in Range(s.rs)} \ {"-"}

\* RFC 8152, 12.1.1 - 12.5: direct encryption excludes any other kind, direct key agreement any other recipient
Permitted(s) == /\ s.rs # <<>>
                /\ "direct" \in KindsOf(s) => KindsOf(s) = {"direct"}
                /\ "agree" \in KindsOf(s) => Len(s.rs) = 1

\* the content key of the next message; a new one differs from every key still held by a recipient object
New(s) == CHOOSE f \in Fresh : /\ \A i \in Slots : s.ck[i] # f
                               /\ \A g \in Fresh : (\A i \in Slots : s.ck[i] # g) => (f = "1" \/ g # "1") /\ (f = "3" => g = "3")
Chosen(s) == IF Held(s) = {} THEN New(s) ELSE CHOOSE k \in Held(s) : TRUE

Res(s, o) == [st |-> s, out |-> o]

Apply(s, op) ==
  CASE op.name = "assign" -> Res([s EXCEPT !.rs = op.l], "ok")
    [] op.name = "give"   -> Res([s EXCEPT !.ck[op.i] = op.k], "ok")
    [] op.name = "encode" ->
         IF ~Permitted(s) THEN Res(s, "bad")
         ELSE IF KindsOf(s) # {"wrap"} THEN Res(s, CHOOSE k \in KindsOf(s) : TRUE)
         ELSE IF Cardinality(Held(s)) > 1 THEN Res(s, "bad")
         ELSE Res([s EXCEPT !.ck = [i \in Slots |-> IF i \in Range(s.rs) THEN Chosen(s) ELSE @[i]]], Chosen(s))

Ops(s) ==
       {[name |-> "assign", l |-> q] : q \in Lists \ {s.rs}}
  \cup {[name |-> "give", i |-> i, k |-> k] : i \in {j \in Slots : KindAt(j) = "wrap"}, k \in Given \cup {"-"}}
  \cup {[name |-> "encode"]}

Do(op) == st' = Apply(st, op).st
Assign  == \E op \in {o \in Ops(st) : o.name = "assign"} : Do(op)
Give    == \E op \in {o \in Ops(st) : o.name = "give"} : Do(op)
Protect == \E op \in {o \in Ops(st) : o.name = "encode"} : Do(op)

Init == st \in InitStates
Next == Assign \/ Give \/ Protect
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == st.rs \in Lists /\ st.ck \in [Slots -> Cek]

Enc == Apply(st, [name |-> "encode"])

\* all recipients of a message hold the same content key, which is the provided one if there is one
OneKey == Enc.out \in Cek \ {"-"} => /\ \A i \in Range(st.rs) : Enc.st.ck[i] = Enc.out
                                     /\ \A i \in Range(st.rs) : st.ck[i] # "-" => st.ck[i] = Enc.out
\* recipients that are not in the message are not touched, and a refused protection changes nothing
Frame == /\ \A i \in Slots \ Range(st.rs) : Enc.st.ck[i] = st.ck[i]
         /\ (Enc.out = "bad" => Enc.st = st)
\* a generated key was not known to any recipient before
FreshKey == Enc.out \in Fresh => (Enc.out \in Held(st) \/ \A i \in Slots : st.ck[i] # Enc.out)
\* protecting twice in a row gives the recipients the same key
Stable == Enc.out # "bad" => Apply(Enc.st, [name |-> "encode"]).out = Enc.out

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
