------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* A received message has many header layers: its own, those of all its    *)
(* signers, of all its recipients, of their recipients, and so on.  Every  *)
(* layer is read by the same rules, wherever it is: what it says is kept,  *)
(* a value outside the domain of its parameter refuses the message, and so *)
(* does an unregistered label if the receiver asked for that.              *)
(* A decision table over shapes of messages.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pairs       \* BOOLEAN: two findings in one message

VARIABLE c

Singles == {16, 17, 18}
Layered == {96, 97, 98}

\* positions: <<>> is the message, <<2, 1>> the first recipient of its second recipient
Flat(n) == {<<>>} \cup {<<i>> : i \in 1..n}
Nest(n, i, k) == Flat(n) \cup {<<i, j>> : j \in 1..k}
Deep(n, i, k, l) == Nest(n, i, k) \cup {<<i, k, j>> : j \in 1..l}

Shapes(t) == CASE t \in Singles -> {Flat(0)}
               [] t = 98 -> {Flat(n) : n \in 1..4}
               [] OTHER  -> {Flat(n) : n \in 1..4}
                            \cup {Nest(n, i, k) : n \in 1..3, i \in 1..3, k \in 1..3} \cup {Deep(n, i, k, l) : n \in 1..2, i \in 1..2, k \in 1..2, l \in 1..2}
\* positions are consecutive
Sane(S) == \A p \in S : (p = <<>>) \/ (SubSeq(p, 1, Len(p) - 1) \in S /\ (p[Len(p)] = 1 \/ [p EXCEPT ![Len(p)] = @ - 1] \in S))

Inner(S, p) == p # <<>> /\ \E q \in S : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p
\* a recipient with recipients uses AES key wrap, which has an empty protected header
Buckets(S, p) == IF Inner(S, p) THEN {"u"} ELSE {"p", "u"}

Kinds == {"bad", "unknown"}
Findings(S) == UNION {[p : {p}, b : Buckets(S, p), k : Kinds] : p \in S}

Expected(x) == IF \E f \in x.f : f.k = "bad" THEN "bad"
               ELSE IF x.policy = "deny" /\ \E f \in x.f : f.k = "unknown" THEN "bad" ELSE "ok"

ShapesOf == [t \in Singles \cup Layered |-> {S \in Shapes(t) : Sane(S)}]

Init == \E t \in Singles \cup Layered : \E S \in ShapesOf[t] :
          LET F == Findings(S) IN
          \E fs \in {{}} \cup {{f} : f \in F} \cup (IF Pairs /\ Cardinality(S) <= 4 THEN {{f, g} : f, g \in F} ELSE {}) :
          \E pol \in {"default", "allow", "deny"}, cls \in {"generic", "own"} :
            c = [t |-> t, s |-> S, f |-> fs, policy |-> pol, cls |-> cls]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* where something is found makes no difference
Anywhere == Cardinality(c.f) = 1 => LET f == CHOOSE f \in c.f : TRUE IN
              \A p \in c.s : \A b \in Buckets(c.s, p) : Expected([c EXCEPT !.f = {[f EXCEPT !.p = p, !.b = b]}]) = Expected(c)
\* findings add up
Worse == \A f \in c.f : Expected([c EXCEPT !.f = @ \ {f}]) = "bad" => Expected(c) = "bad"
Same  == Expected([c EXCEPT !.policy = "allow"]) = Expected([c EXCEPT !.policy = "default"])

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
