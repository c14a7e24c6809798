-------------------------------- MODULE Carry --------------------------------
(***************************************************************************)
(* Keys inside header parameters (ephemeral and static keys of RFC 9053):  *)
(* a key stands in either header of any layer of any message, is sent with *)
(* exactly its parameters whichever way it is written down, and is a key   *)
(* with exactly these parameters when it is received.  What describes no   *)
(* key is refused there as it is anywhere else.                            *)
(*                                                                         *)
(* One initial state is one case.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Types

VARIABLE c

\* the layer: of the message, of a signer of it, of its recipient, of a recipient of that recipient
Layers(t) == {"message"} \cup (IF t = "Sign" THEN {"signer"} ELSE {}) \cup (IF t \in {"Enc", "Mac"} THEN {"recipient", "inner"} ELSE {})
\* recipients that use key wrap have no protected header
Buckets(l) == IF l \in {"recipient", "inner"} THEN {"unprotected"} ELSE {"protected", "unprotected"}

Good == {"EC2 public", "EC2 private", "EC2 sign", "EC2 other sign", "EC2 x", "EC2 d", "OKP public", "OKP private", "OKP d", "Sym", "RSA public", "RSA private"}
Bad  == {"no type", "other type", "unknown type", "other curve", "no curve", "off the curve", "wrong value", "no value", "short", "partial", "no map"}

\* sent: written into the headers in one of these ways; received: in a message of somebody else
Ways == {"constructor", "assigned", "updated"}
\* the key is an object, or a dictionary under names, labels, classes or a mixture
Forms == {"object", "names", "labels", "classes", "mixed"}

Sent == [how : Ways, form : Forms, kind : Good \cup Bad]
Received == [how : {"received"}, form : {"labels"}, kind : Good \cup Bad]

Possible(x) == /\ x.layer \in Layers(x.type) /\ x.in \in Buckets(x.layer)
               /\ (x.form = "object" => x.kind \in Good)
               /\ (x.kind \in Bad => ~x.more)

\* the coordinates, and what else belongs to the key: "own" is as given, "known" is not given but determined, "either" determined up to the sign
Key(x, y, d) == [out |-> "ok", x |-> x, y |-> y, d |-> d]
Expected(x) ==
  CASE x.kind \in Bad -> [out |-> "bad", x |-> "-", y |-> "-", d |-> "-"]
    [] x.kind = "EC2 public"     -> Key("own", "own", "-")
    [] x.kind = "EC2 private"    -> Key("own", "own", "own")
    [] x.kind = "EC2 sign"       -> Key("own", "own", "-")
    [] x.kind = "EC2 other sign" -> Key("own", "negated", "-")
    [] x.kind = "EC2 x"          -> Key("own", "either", "-")
    [] x.kind = "EC2 d"          -> Key("own", "own", "own")
    [] x.kind = "OKP public"     -> Key("own", "-", "-")
    [] x.kind = "OKP private"    -> Key("own", "-", "own")
    [] x.kind = "OKP d"          -> Key("-", "-", "own")
    [] OTHER                     -> Key("-", "-", "-")

Init == \E t \in Types : \E l \in Layers(t) : \E b \in Buckets(l) : \E s \in Sent \cup Received :
        \E a \in {"ephemeral", "static"}, m \in BOOLEAN :
          LET x == [type |-> t, layer |-> l, in |-> b, how |-> s.how, form |-> s.form, kind |-> s.kind, as |-> a, more |-> m] IN
          Possible(x) /\ c = x
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* nothing but the key decides
Anywhere == \A l \in {"message", "signer", "recipient", "inner"}, b \in {"protected", "unprotected"}, a \in {"ephemeral", "static"} :
              Expected([c EXCEPT !.layer = l, !.in = b, !.as = a, !.how = "received", !.form = "labels"]) = Expected(c)
Refused == (Expected(c).out = "bad") <=> (c.kind \notin Good)
\* a public key stays a public key
Secret == Expected(c).d # "-" => c.kind \in {"EC2 private", "EC2 d", "OKP private", "OKP d"}

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
