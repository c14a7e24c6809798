------------------------------- MODULE KeyLen -------------------------------
(***************************************************************************)
(* The lengths of symmetric keys: of key objects, of the keys algorithms   *)
(* work with, and of the keys carried or derived by recipients (RFC 8152,  *)
(* sections 9, 10, 12).  A decision table: one state per case.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS ObjLens,   \* lengths tried for key objects
          CekLens    \* lengths tried for carried keys

VARIABLE c

Legal == {16, 24, 32}

\* ways to give a key object its value
Hows == {"constructor", "dict by class", "dict by label", "dict by name", "CBOR", "CBOR generic", "attribute", "item by class", "item by label",
         "item by name", "update", "header"}
Types == {"bytes", "text", "list", "number", "array", "nil", "bool"}
\* other parameters of the key
Withs == {"algorithm", "operations", "identifier", "nonce", "other", "everything"}

\* key lengths of the algorithms, in bytes
KeyLen(a) == CASE a \in {1, 10, 12, 14, 25, 30, 32, -3} -> 16
               [] a \in {2, -4} -> 24
               [] a \in {3, 11, 13, 15, 26, 31, 33, -5, 5, 4} -> 32
               [] a = 6 -> 48
               [] a = 7 -> 64

ENC    == {1, 2, 3, 10, 11, 12, 13, 30, 31, 32, 33}
AESMAC == {14, 15, 25, 26}
KW     == {-3, -4, -5}
OAEP   == {-40, -41, -42}
KAD    == {-25, -26, -27, -28}
KAW    == {-29, -30, -31, -32, -33, -34}

\* a key object accepts a value; after a refusal it still has the old one
Object == {[t |-> "obj", how |-> h, type |-> ty, n |-> n, with |-> "nothing"] : h \in Hows, ty \in Types, n \in ObjLens}
          \cup {[t |-> "obj", how |-> h, type |-> "bytes", n |-> n, with |-> w] : h \in Hows, n \in ObjLens, w \in Withs}
\* generate_key
Gen    == {[t |-> "gen", n |-> n] : n \in ObjLens}
\* keys of a given length with every algorithm, each direction
Use    == {[t |-> "use", alg |-> a, n |-> n, op |-> o] : a \in ENC, n \in Legal, o \in {"enc0E", "enc0D", "encE", "encD"}}
          \cup {[t |-> "use", alg |-> a, n |-> n, op |-> o] : a \in AESMAC, n \in Legal, o \in {"mac0C", "mac0V", "macC", "macV"}}
          \cup {[t |-> "use", alg |-> a, n |-> n, op |-> o] : a \in KW, n \in Legal, o \in {"kwW", "kwU"}}
\* content keys: generated or derived, given by the caller, received; host: algorithm of the message
Cek    == {[t |-> "cek", host |-> h, via |-> v, src |-> "generated", n |-> 0, m |-> m] : h \in ENC \cup AESMAC \cup {4, 5}, v \in KW \cup OAEP \cup KAD \cup KAW, m \in {1}}
          \cup {[t |-> "cek", host |-> h, via |-> v, src |-> "generated", n |-> 0, m |-> 2] : h \in {1, 2, 3, 14, 26, 5}, v \in {-3, -5, -41, -29, -33}}
          \cup {[t |-> "cek", host |-> h, via |-> v, src |-> s, n |-> n, m |-> 1] :
                  h \in ENC \cup AESMAC, v \in {-3, -5, -40, -42, -29, -34}, s \in {"given", "received"}, n \in CekLens}
\* key encryption keys obtained from the recipients of a key wrap recipient
Kek    == {[t |-> "kek", host |-> h, via |-> v, inner |-> i, src |-> "generated", n |-> 0] : h \in {1, 26}, v \in KW, i \in KW \cup OAEP \cup KAD \cup KAW}
          \cup {[t |-> "kek", host |-> h, via |-> v, inner |-> i, src |-> s, n |-> n] :
                  h \in {1, 26}, v \in KW, i \in {-3, -5, -41, -31, -32}, s \in {"given", "received"}, n \in CekLens}

Cases == Object \cup Gen \cup Use \cup Cek \cup Kek

\* the length of the key in use; 0: refused
Expected(x) ==
  CASE x.t = "obj" -> IF x.type = "bytes" /\ x.n \in Legal THEN x.n ELSE 0
    [] x.t = "gen" -> IF x.n \in Legal THEN x.n ELSE 0
    [] x.t = "use" -> IF x.n = KeyLen(x.alg) THEN x.n ELSE 0
    [] x.t = "cek" -> IF x.src = "generated" \/ x.n = KeyLen(x.host) THEN KeyLen(x.host) ELSE 0
    [] x.t = "kek" -> IF x.src = "generated" \/ x.n = KeyLen(x.via) THEN KeyLen(x.via) ELSE 0

Init == \/ c \in Object
        \/ c \in Gen
        \/ c \in Use
        \/ c \in Cek
        \/ c \in Kek
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

AlwaysLegal == Expected(c) \in Legal \cup {0}
Exact       == (c.t = "use" /\ Expected(c) # 0) => \A n \in Legal \ {c.n} : Expected([c EXCEPT !.n = n]) = 0

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
