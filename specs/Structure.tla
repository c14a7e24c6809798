------------------------------ MODULE Structure ------------------------------
(***************************************************************************)
(* Which lists of recipients a message may have (RFC 8152, section 12.1 to *)
(* 12.5): a decision table over lists of recipients of all classes, with   *)
(* at most one of them malformed, at the top of a message or as the        *)
(* recipients of a key wrap recipient, sent or received.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* length of the lists
          Hosts,       \* subset of {96, 97}
          Levels       \* subset of 0..2: how many key wrap recipients are around the list

VARIABLE c

Classes == {"DIR", "KW", "OAEP", "ESD", "SSD", "ESW", "SSW"}
\* the ways a recipient of each class can be malformed; "key twice": several parts at once
Faults(k, way) ==
  (CASE k = "DIR" -> {"nested", "phdr", "no alg"}
     [] k = "KW" -> {"phdr", "no alg"}
     [] k = "OAEP" -> {"no alg"}
     [] k = "ESD" -> {"nested", "no eph", "no alg"}
     [] k = "SSD" -> {"nested", "no alg"}
     [] k = "ESW" -> {"no eph", "no alg"}
     [] k = "SSW" -> {"no alg"})
  \cup (IF way = "send" THEN {"other alg"} \cup (IF k = "OAEP" THEN {"phdr"} ELSE {})
        ELSE IF k \in {"DIR", "ESD", "SSD"} THEN {"ct", "nil"} ELSE {"no ct", "nil"})
  \cup (IF way = "receive" THEN {"content alg", "no array", "short"} \cup (IF k \in {"ESD", "ESW"} THEN {"static eph"} ELSE {}) ELSE {})
\* what a sender is given but does not send
Ignored(k, way) == IF way = "send" /\ k \in {"DIR", "ESD", "SSD"} THEN {"ct"} ELSE {}

Range(q) == {q[i] : i \in DOMAIN q}

Combination(l) == /\ "DIR" \in Range(l) => Range(l) = {"DIR"}
                  /\ Range(l) \cap {"ESD", "SSD"} # {} => Len(l) = 1

\* a key wrap recipient cannot get its key encryption key from direct encryption
Expected(x) == IF /\ Combination(x.l)
                  /\ x.level > 0 => "DIR" \notin Range(x.l)
                  /\ x.fault \in {"-"} \cup Ignored(x.l[x.at], x.way)
               THEN "ok" ELSE "bad"

Lists == UNION {[1..n -> Classes] : n \in 1..MaxLen}

Init == \/ \E h \in Hosts, w \in {"send", "receive"}, v \in Levels, l \in Lists :
             c = [t |-> "list", host |-> h, way |-> w, level |-> v, l |-> l, at |-> 1, fault |-> "-"]
        \/ \E h \in Hosts, w \in {"send", "receive"}, v \in Levels, l \in Lists : \E at \in DOMAIN l :
             \E f \in Faults(l[at], w) \cup Ignored(l[at], w) :
               c = [t |-> "list", host |-> h, way |-> w, level |-> v, l |-> l, at |-> at, fault |-> f]
        \/ \E h \in {96, 97, 0}, a, b \in 0..3, k \in {"constructor", "assign"}, bad \in {"-", "not a recipient", "no list"} :
             c = [t |-> "assign", host |-> h, first |-> a, second |-> b, how |-> k, bad |-> bad, l |-> <<"KW">>, at |-> 1, fault |-> "-",
                  level |-> 0, way |-> "send"]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Outcome(x) == IF x.t = "assign" THEN (IF x.bad = "-" THEN ToString(x.second) ELSE ToString(x.first)) ELSE Expected(x)

\* a sender never produces what a receiver has to refuse
Agree == c.t = "list" /\ c.way = "send" /\ Expected(c) = "ok" => Expected([c EXCEPT !.way = "receive", !.fault = "-"]) = "ok"
\* a list with a malformed member is never better than the list without the fault
Worse == c.t = "list" /\ Expected(c) = "ok" => Expected([c EXCEPT !.fault = "-"]) = "ok"
\* permission does not depend on order
Order == c.t = "list" /\ c.fault = "-" => \A p \in {q \in [DOMAIN c.l -> DOMAIN c.l] : \A i, j \in DOMAIN c.l : i # j => q[i] # q[j]} :
            Expected([c EXCEPT !.l = [i \in DOMAIN c.l |-> c.l[p[i]]]]) = Expected(c)

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Outcome(c)]))
=============================================================================
