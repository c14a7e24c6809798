------------------------------- MODULE PolicyM -------------------------------
(***************************************************************************)
(* Two operations ("scenes") and two key objects K and L of the same       *)
(* material.  The alg and key_ops of the key objects change, the scenes    *)
(* are given one key object or the other, and operations are executed in   *)
(* any order: each is decided by what the key it holds says now.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SameOp,    \* the key_ops value that allows scene 1 allows scene 2 as well
          SameAlg,   \* both scenes use algorithm "a"; otherwise scene 2 uses "b"
          Detach     \* a scene can be without key

VARIABLE st

Keys   == {"K", "L"}
Scenes == {"1", "2"}
Algs   == {"-", "a", "b"}
\* what key_ops says: nothing, only the operation of scene 1 / 2 (with SameOp "2" is some other operation), both
OpVals == {"-", "1", "2", "12"}
Holds  == IF Detach THEN Keys \cup {"-"} ELSE Keys

AlgOf(i)   == IF SameAlg \/ i = "1" THEN "a" ELSE "b"
Allow(i)   == IF SameOp THEN {"-", "1", "12"} ELSE {"-", i, "12"}

States == [K : [alg : Algs, ops : OpVals], L : [alg : Algs, ops : OpVals], h : [Scenes -> Holds]]

Accepted(s, i) == /\ s.h[i] # "-"
                  /\ s[s.h[i]].alg \in {"-", AlgOf(i)}
                  /\ s[s.h[i]].ops \in Allow(i)

Ops == [name : {"alg"}, k : Keys, v : Algs] \cup [name : {"ops"}, k : Keys, v : OpVals]
       \cup [name : {"give"}, i : Scenes, v : Holds] \cup [name : {"use"}, i : Scenes]

Apply(s, o) == CASE o.name = "alg"  -> [s EXCEPT ![o.k].alg = o.v]
                 [] o.name = "ops"  -> [s EXCEPT ![o.k].ops = o.v]
                 [] o.name = "give" -> [s EXCEPT !.h[o.i] = o.v]
                 [] OTHER -> s
Result(s, o) == IF o.name = "use" THEN (IF Accepted(s, o.i) THEN "ok" ELSE "refused") ELSE "ok"

SetAlg(k, v) == st' = Apply(st, [name |-> "alg", k |-> k, v |-> v])
SetOps(k, v) == st' = Apply(st, [name |-> "ops", k |-> k, v |-> v])
Give(i, v)   == st' = Apply(st, [name |-> "give", i |-> i, v |-> v])

First(s) == /\ \A k \in Keys : s[k].alg \in {"-", "a"} /\ s[k].ops \in {"-", "1"}
            /\ s.h = [i \in Scenes |-> IF Detach THEN "-" ELSE "K"]

Init == st \in {s \in States : First(s)}
Next == \/ \E k \in Keys, v \in Algs : SetAlg(k, v)
        \/ \E k \in Keys, v \in OpVals : SetOps(k, v)
        \/ \E i \in Scenes, v \in Holds : Give(i, v)
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == st \in States
\* the other key object does not matter
Own == \A i \in Scenes : st.h[i] # "-" =>
         LET other == IF st.h[i] = "K" THEN "L" ELSE "K" IN
         \A a \in Algs, o \in OpVals : Accepted([st EXCEPT ![other] = [alg |-> a, ops |-> o]], i) <=> Accepted(st, i)
\* removing restrictions never makes an operation refused
Relax == \A i \in Scenes, k \in Keys : Accepted(st, i) =>
           Accepted([st EXCEPT ![k].alg = "-"], i) /\ Accepted([st EXCEPT ![k].ops = "-"], i)
\* what two restrictions refuse, one of them refuses alone
Separately == \A i \in Scenes : (st.h[i] # "-" /\ ~Accepted(st, i)) =>
                ~(Accepted([st EXCEPT ![st.h[i]].alg = "-"], i) /\ Accepted([st EXCEPT ![st.h[i]].ops = "-"], i))

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> First(st),
                               x |-> {[o |-> o, r |-> Result(st, o), t |-> Apply(st, o)] : o \in Ops}]))
=============================================================================
