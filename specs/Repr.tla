-------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* The text representation of messages, recipients, signers and keys in    *)
(* the states these objects reach.  A text is modelled as the fields it    *)
(* shows and how many bytes of each: byte strings are cut after Cut bytes, *)
(* so that a key is never shown in full.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Cut

VARIABLE c

Messages   == {"Enc0", "Enc", "Mac0", "Mac", "Sign1", "Sign"}
Recipients == {"Direct", "KeyWrap", "DirectKA", "KAKW"}
Layers     == Messages \cup Recipients \cup {"Signer"}
Nesting    == {"Enc", "Mac", "Sign", "KeyWrap", "KAKW"}

Payloads == {"nil", "empty", "short", "long"}
Hdrs     == {"none", "alg", "iv", "piv", "kid", "uint", "utext", "deep", "eckey", "symkey", "okpkey", "rsakey", "list", "party", "x5t", "many"}
States   == {"built", "assigned", "protected", "decoded", "changed"}

Layer(o, st, pl, p, u, n, k) == [t |-> "layer", obj |-> o, state |-> st, payload |-> pl, p |-> p, u |-> u, nested |-> n, key |-> k]

Keys    == {"EC2", "OKP", "RSA", "RSA multi", "Symmetric"}
Parts   == {"private", "public", "secret only", "half", "odd"}      \* odd: secret of an unusual length
Extras  == {"none", "kid", "alg", "ops", "no ops", "base iv", "uint", "utext", "deep", "all"}
Origins == {"constructor", "dict", "CBOR", "generated", "changed", "PEM"}

\* states that exist
Exists(k, pt, og) == /\ k = "Symmetric" => pt = "private"
                     /\ k \in {"RSA", "RSA multi"} => pt \in {"private", "public", "odd"}
                     /\ k = "RSA multi" => pt = "private" /\ og \in {"constructor", "dict", "CBOR"}
                     /\ pt = "half" => k = "EC2" /\ og = "changed"
                     /\ pt = "secret only" => og = "changed" \/ (k = "OKP" /\ og \in {"constructor", "dict", "CBOR"})
                     /\ pt = "odd" => k # "Symmetric" /\ og \in {"constructor", "dict", "CBOR", "changed"}
                     /\ og \in {"generated", "PEM"} => pt = "private" \/ (pt = "public" /\ og = "PEM")
                     /\ og = "PEM" => k # "Symmetric"

Init == \/ \E o \in Layers, st \in States, pl \in Payloads, h \in Hdrs, n \in 0..3, k \in BOOLEAN :
             /\ (n > 0 => o \in Nesting) /\ (o = "Sign" => n <= 2)
             /\ \E side \in {"p", "u"} : c = Layer(o, st, pl, IF side = "p" THEN h ELSE "alg", IF side = "u" THEN h ELSE "none", n, k)
        \/ \E o \in Layers, st \in States, p, u \in Hdrs : c = Layer(o, st, "short", p, u, IF o \in Nesting THEN 1 ELSE 0, TRUE)
        \/ \E k \in Keys, pt \in Parts, ex \in Extras, og \in Origins :
             Exists(k, pt, og) /\ c = [t |-> "key", obj |-> k, parts |-> pt, extra |-> ex, origin |-> og]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* the secrets an object holds, and their length
Secret(h) == IF h \in {"eckey", "symkey", "okpkey", "rsakey", "many"} THEN {h} ELSE {}
Secrets == IF c.t = "key" THEN (IF c.parts \in {"private", "secret only", "half", "odd"} THEN {"d"} ELSE {})
           ELSE Secret(c.p) \cup Secret(c.u) \cup (IF c.key THEN {"key"} ELSE {}) \cup (IF c.obj \in {"KeyWrap", "KAKW"} /\ c.state = "protected" THEN {"cek"} ELSE {})
ShownBytes(s) == Cut
NoSecret == \A s \in Secrets : ShownBytes(s) < 16

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> [text |-> TRUE, secrets |-> Cardinality(Secrets)]]))
=============================================================================
