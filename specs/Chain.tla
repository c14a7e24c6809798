-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Verification of certificate chains (x5chain, RFC 9360): the first       *)
(* certificate is the one to be used; the others only help to find a path  *)
(* to a root that the verifying side trusts.  Certificates are records: a  *)
(* signature is valid exactly if it was made with the key of the issuer.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Longest

VARIABLE c

X(s, i, k, b, ca, u, n) == [subj |-> s, iss |-> i, key |-> k, by |-> b, ca |-> ca, use |-> u, now |-> n]
Sign == "digital_signature"
Cert == "key_cert_sign"
Non  == "non_repudiation"
Make(x) ==
  CASE x = "R" -> X("root", "root", "r", "r", TRUE, {Cert}, TRUE)          \* the trusted root
    [] x = "Q" -> X("root", "root", "q", "q", TRUE, {Sign, Cert}, TRUE)    \* one that only has the same name
    [] x = "T" -> X("other", "other", "t", "t", TRUE, {Sign, Cert}, TRUE)  \* one that is not trusted
    [] x = "I" -> X("int", "root", "i", "r", TRUE, {Sign, Cert}, TRUE)
    [] x = "J" -> X("int", "root", "i", "r", FALSE, {Sign}, TRUE)          \* not an authority
    [] x = "K" -> X("int", "root", "k", "r", TRUE, {Sign, Cert}, TRUE)     \* another one of the same name
    [] x = "Z" -> X("int", "root", "i", "r", TRUE, {Sign, Cert}, FALSE)    \* expired
    [] x = "U" -> X("int", "root", "i", "q", TRUE, {Sign, Cert}, TRUE)     \* certified by the root of the same name
    [] x = "L" -> X("sub", "int", "l", "i", TRUE, {Sign, Cert}, TRUE)
    [] x = "E" -> X("leaf", "int", "e", "i", FALSE, {Sign}, TRUE)
    [] x = "F" -> X("leaf", "int", "e", "x", FALSE, {Sign}, TRUE)          \* forged
    [] x = "N" -> X("leaf", "int", "e", "i", FALSE, {Non}, TRUE)           \* not for signatures
    [] x = "O" -> X("leaf", "int", "e", "i", FALSE, {Sign}, FALSE)         \* expired, or not valid yet
    [] x = "S" -> X("under", "leaf", "s", "e", FALSE, {Sign}, TRUE)        \* issued by a leaf
    [] x = "D" -> X("direct", "root", "d", "r", FALSE, {Sign, Non}, TRUE)
    [] x = "M" -> X("deep", "sub", "m", "l", FALSE, {Sign}, TRUE)
Trusted == {"R"}

Certifies(p, x) == LET a == Make(p) b == Make(x) IN a.subj = b.iss /\ a.key = b.by /\ a.ca /\ Cert \in a.use
RECURSIVE Path(_, _)
Path(x, S) == \/ x \in Trusted
              \/ /\ Make(x).now
                 /\ \E p \in (S \cup Trusted) \ {x} : Certifies(p, x) /\ Path(p, S \ {x})
Others(q) == {q[i] : i \in 2..Len(q)}
Accepted(q, u) == Path(q[1], Others(q)) /\ u \subseteq Make(q[1]).use

\* RFC 9360: each certificate certifies the one before it.  Other arrangements are not required to work
Ordered(q) == \A i \in 1..Len(q) - 1 : Certifies(q[i + 1], q[i])

Chains == UNION {[1..n -> Names] : n \in 1..Longest}
Usages == {{Sign}, {Non}, {Cert}, {Sign, Non}}
\* verified when it is made, later, for another use, or not at all
Init == \E q \in Chains : \E h \in {"made", "later", "never"} : \E u \in IF h = "later" THEN Usages ELSE {{Sign}} :
          /\ h # "made" => Len(q) <= 2
          /\ c = [q |-> q, h |-> h, u |-> u]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* what is accepted
Leaf      == (c.h = "made" /\ Accepted(c.q, c.u)) => Sign \in Make(c.q[1]).use /\ Make(c.q[1]).now
NoForgery == "F" = c.q[1] => ~Accepted(c.q, c.u)
\* it is the first certificate that counts, the order of the others is of no importance, and more of them do no harm
Order     == Len(c.q) = 3 => (Accepted(c.q, c.u) <=> Accepted(<<c.q[1], c.q[3], c.q[2]>>, c.u))
Grows     == \A n \in Names : Accepted(c.q, c.u) => Accepted(Append(c.q, n), c.u)
InOrder   == (Ordered(c.q) /\ c.u \subseteq Make(c.q[1]).use /\ \A i \in 1..Len(c.q) : Make(c.q[i]).now) =>
               (Accepted(c.q, c.u) <=> \E i \in 1..Len(c.q) : c.q[i] \in Trusted \/ \E t \in Trusted : Certifies(t, c.q[i]))
\* everything that is accepted needs the trusted root
Anchored  == Accepted(c.q, c.u) => \E x \in {c.q[i] : i \in 1..Len(c.q)} : x \in Trusted \/ Make(x).by = "r"

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> IF c.h = "never" THEN "ok" ELSE IF ~Accepted(c.q, c.u) THEN "bad"
                                        ELSE IF Ordered(c.q) THEN "ok" ELSE "open"]))
=============================================================================
