------------------------------ MODULE Receive ------------------------------
(***************************************************************************)
(* The receiver of a message with several recipients: entries of the       *)
(* recipient list may have been changed on the way, each entry is given    *)
(* keys, and the message is opened through its entries in any order and    *)
(* any number of times.  In between the receiver's external data and the   *)
(* contents (ciphertext; payload and tag) of the message object change.    *)
(* What happens depends only on the entry used, the key it has and the     *)
(* contents of the message at that moment.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* entries
          MaxBad,     \* changed entries per message
          Conds,      \* ways an entry can have been changed
      Touched     \* what else may change: subset of {"aad", "body"}

VARIABLE st           \* [w : condition of each entry, k : key of each entry, c : what is as it was sent]

Idx  == 1..N
Keys == {"none", "own", "other", "stranger"}
NBad(w) == Cardinality({i \in Idx : w[i] # "ok"})
Wires == {w \in [Idx -> {"ok"} \cup Conds] : NBad(w) <= MaxBad}

NoKeys == [i \in Idx |-> "none"]
AllSame == [x \in {"aad", "body"} |-> TRUE]
InitStates == {[w |-> w, k |-> NoKeys, c |-> AllSame] : w \in {v \in Wires : NBad(v) = 0}}

Opens(s, i) == s.w[i] = "ok" /\ s.k[i] = "own" /\ s.c = AllSame

Res(s, o) == [st |-> s, out |-> o]
Apply(s, op) ==
  CASE op.name = "receive" -> Res([w |-> op.w, k |-> NoKeys, c |-> AllSame], "ok")
    [] op.name = "key"     -> Res([s EXCEPT !.k[op.i] = op.k], "ok")
    [] op.name = "touch"   -> Res([s EXCEPT !.c[op.x] = op.v], "ok")
    [] op.name = "open"    -> Res(s, IF Opens(s, op.i) THEN "ok" ELSE "bad")
    [] op.name = "foreign" -> Res(s, "bad")        \* through a recipient object that is not in the message

Ops(s) ==
       {[name |-> "receive", w |-> w] : w \in Wires}
  \cup {[name |-> "key", i |-> i, k |-> k] : i \in Idx, k \in Keys}
  \cup {[name |-> "open", i |-> i] : i \in Idx}
  \cup {[name |-> "touch", x |-> x, v |-> v] : x \in Touched, v \in BOOLEAN}
  \cup {[name |-> "foreign"]}

Do(op) == st' = Apply(st, op).st
Transport == \E op \in {o \in Ops(st) : o.name = "receive"} : Do(op)
SetKey    == \E op \in {o \in Ops(st) : o.name = "key"} : Do(op)
Touch     == \E op \in {o \in Ops(st) : o.name = "touch"} : Do(op)
Open      == \E op \in {o \in Ops(st) : o.name \in {"open", "foreign"}} : Do(op)
Init == st \in InitStates
Next == Transport \/ SetKey \/ Touch \/ Open
Spec == Init /\ [][Next]_st

TypeOK == st.w \in Wires /\ st.k \in [Idx -> Keys] /\ st.c \in [{"aad", "body"} -> BOOLEAN]
\* opening changes nothing that a later attempt depends on
Memoryless == \A i, j \in Idx : Apply(Apply(st, [name |-> "open", i |-> i]).st, [name |-> "open", i |-> j]).out =
                                Apply(st, [name |-> "open", i |-> j]).out
\* only the entry's own key opens it, and only if nobody changed it
Exclusive == \A i \in Idx : Apply(st, [name |-> "open", i |-> i]).out = "ok" <=> (st.k[i] = "own" /\ st.w[i] = "ok" /\ st.c["aad"] /\ st.c["body"])
\* the other entries do not matter
Separate == \A i, j \in Idx : \A c \in Conds : \A k \in Keys : i # j =>
               Opens([st EXCEPT !.w[j] = c, !.k[j] = k], i) = Opens(st, i)

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
