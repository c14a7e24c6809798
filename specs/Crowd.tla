-------------------------------- MODULE Crowd --------------------------------
(***************************************************************************)
(* Numbers and sizes: what holds for two recipients, one signer, a few     *)
(* header parameters and short strings holds for any number of them and    *)
(* any length - in particular around the places where CBOR changes the     *)
(* form of its lengths (24, 256, 65536).  One initial state is one case.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts, Entries, Sizes, Deepest, Kinds, Types

VARIABLE c

By     == {"library", "reference"}                     \* who protects; the other one opens
Place  == {"first", "any", "last"}
Keys   == {"own", "neighbour", "stranger"}
\* what is as long as stated, and whether it is authenticated
Fields == {"payload", "detached", "aad", "protected value", "protected label", "unprotected value", "unprotected label"}
Covered(f) == f \notin {"unprotected value", "unprotected label"}

Recipients == [what : {"recipients"}, n : Counts, at : Place, key : Keys, by : By]
Signers    == [what : {"signers"}, n : Counts, at : Place, key : Keys, by : By, alter : BOOLEAN]
Headers    == [what : {"entries"}, n : Entries, in : {"protected", "unprotected"}, type : Types, by : By, alter : BOOLEAN]
Strings    == [what : {"size"}, n : Sizes, of : Fields, type : Types, by : By, alter : BOOLEAN]
\* content keys that are wrapped again and again, and the level whose ciphertext is changed (0: none)
Depths     == [what : {"depth"}, n : 1..Deepest, level : 0..Deepest, key : {"own", "stranger"}, by : By]

\* certificates in a header parameter
Containers == [what : {"certificates"}, n : Entries \ {0}, made : {"bag", "chain"}, in : {"protected", "unprotected"}, type : Types]

Possible(x) ==
  CASE x.what \in {"recipients", "signers"} -> x.n > 1 \/ x.key # "neighbour"
    [] x.what = "entries" -> x.n > 0 \/ ~x.alter
    [] x.what = "size" -> /\ (x.of = "detached" => x.type \in {"Sign1", "Sign"})
                          /\ (x.n = 0 => ~x.alter)
    [] x.what = "certificates" -> TRUE
    [] OTHER -> x.level <= x.n

Expected(x) ==
  CASE x.what = "recipients" -> x.key = "own"
    [] x.what = "signers" -> x.key = "own" /\ ~x.alter
    [] x.what = "entries" -> ~(x.alter /\ x.in = "protected")
    [] x.what = "size" -> ~(x.alter /\ Covered(x.of))
    [] x.what = "certificates" -> TRUE
    [] OTHER -> x.key = "own" /\ x.level = 0

All == (IF "recipients" \in Kinds THEN Recipients ELSE {}) \cup (IF "signers" \in Kinds THEN Signers ELSE {})
       \cup (IF "entries" \in Kinds THEN Headers ELSE {}) \cup (IF "size" \in Kinds THEN Strings ELSE {})
       \cup (IF "certificates" \in Kinds THEN Containers ELSE {}) \cup (IF "depth" \in Kinds THEN Depths ELSE {})

Init == \E x \in All : Possible(x) /\ c = x
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* the number, the place and the size are of no importance
Whatever == \A n \in Counts \cup Entries \cup Sizes : LET d == [c EXCEPT !.n = n] IN (c.what # "depth" /\ Possible(d)) => Expected(d) = Expected(c)
\* whoever protects
Both == "by" \in DOMAIN c => Expected([c EXCEPT !.by = "library"]) = Expected([c EXCEPT !.by = "reference"])
Sound == Expected(c) => ("key" \in DOMAIN c => c.key = "own")

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
