---------------------------- MODULE HeaderTypes ----------------------------
(***************************************************************************)
(* Which values a header parameter may have (RFC 8152, tables 2, 19, 20),  *)
(* whatever way the header comes in.  A decision table: every state is one *)
(* case, Expected is its outcome.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Layers, Entries

VARIABLE c

BstrLabels == {4, 5, 6, 9, 10}
KeyLabels  == {"ephemeral", "static"}
FreeLabels == {7, 32, 33, 34, 35}
Labels     == {1, 2, 3} \cup BstrLabels \cup FreeLabels
Buckets    == {"p", "u"}

Shapes == {"bstr", "bstr0", "tstr", "tstr0", "uint", "zero", "nint", "null", "float", "list0", "list int", "list tstr", "list mixed",
           "list bstr", "list float", "list null", "map", "map0", "alg id", "alg name", "alg unknown id", "alg unknown name", "key map", "tag", "array"}

\* "uint" and "nint" stand for integers that are no registered algorithm
Expected(x) ==
  CASE x.l \in BstrLabels -> IF x.s \in {"bstr", "bstr0"} THEN "ok" ELSE "bad"
    [] x.l = 1 -> IF x.s \in {"alg id", "alg name"} THEN "ok" ELSE "bad"
    [] x.l = 2 -> IF x.s \in {"list int", "list tstr", "list mixed"} THEN "ok" ELSE "bad"
    [] x.l = 3 -> IF x.s \in {"uint", "zero", "tstr", "tstr0"} THEN "ok"
                  ELSE IF x.s \in {"alg unknown name", "alg name"} THEN "ok" ELSE "bad"
    [] OTHER -> "ok"

\* shapes that overlap or whose status is open for the label are left out
Relevant(x) ==
  /\ x.l \notin {1} => x.s \notin {"alg id", "alg unknown id"}
  /\ x.l = 1 => x.s \notin {"list0", "list int", "list tstr", "list mixed", "list bstr", "list float", "list null"}
  /\ x.s = "key map" => x.l \in FreeLabels \cup BstrLabels
  /\ x.s = "array" => x.l \notin FreeLabels /\ x.e # "recv"        \* a mutable array of bytes is no byte string
  /\ x.s = "tag" => x.l \in BstrLabels \cup {2, 3}

Cases == {x \in [l : Labels, s : Shapes, layer : Layers, e : Entries, b : Buckets] : Relevant(x)}

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
\* the outcome depends on the parameter and the value alone
Uniform == \A layer \in Layers, e \in Entries, b \in Buckets :
             Expected([c EXCEPT !.layer = layer, !.e = e, !.b = b]) = Expected(c)
Typed   == (Expected(c) = "ok" /\ c.l \in BstrLabels) => c.s \in {"bstr", "bstr0"}

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
