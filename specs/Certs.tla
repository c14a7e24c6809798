-------------------------------- MODULE Certs --------------------------------
(***************************************************************************)
(* Certificate bags, chains and references as header values (RFC 9360):    *)
(* COSE_X509 = bstr / [ 2*certs: bstr ].  Slots hold objects that are      *)
(* made from certificates, from each other's encoding and from what a      *)
(* message carried, and are sent as header parameters.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Names,   \* certificates
          Longest

VARIABLE st

Kinds == {"bag", "chain"}
Lists == UNION {[1..n -> Names] : n \in 1..Longest}
Absent == [k |-> "-", c |-> <<>>]
Values == [k : Kinds, c : Lists] \cup [k : {"uri"}, c : {<<x>> : x \in Names}]

\* the CBOR item: a byte string for one certificate, an array for more
Form(v) == CASE v.k = "uri" -> "text"
             [] Len(v.c) = 1 -> "one"
             [] OTHER -> "array"
Item(v) == [f |-> Form(v), c |-> v.c]
\* what an item stands for
Back(k, i) == [k |-> k, c |-> i.c]

Ops == [n : {"make"}, s : Slots, k : Kinds, c : Lists, f : {"one", "array"}]
       \cup [n : {"uri"}, s : Slots, c : {<<x>> : x \in Names}]
       \cup [n : {"encode", "header"}, s : Slots]
       \cup [n : {"from"}, s : Slots, u : Slots, k : Kinds]
       \cup [n : {"match"}, s : Slots, x : Names]

Enabled(s, o) ==
  CASE o.n = "make" -> o.f = "one" => Len(o.c) = 1
    [] o.n = "uri" -> TRUE
    [] o.n = "from" -> s[o.u].k \in Kinds
    [] o.n = "match" -> s[o.s].k \in Kinds
    [] OTHER -> s[o.s] # Absent

Apply(s, o) ==
  CASE o.n = "make" -> [s EXCEPT ![o.s] = [k |-> o.k, c |-> o.c]]
    [] o.n = "uri" -> [s EXCEPT ![o.s] = [k |-> "uri", c |-> o.c]]
    [] o.n = "from" -> [s EXCEPT ![o.s] = Back(o.k, Item(s[o.u]))]
    [] OTHER -> s

\* which of the certificates a thumbprint of x matches
Result(s, o) ==
  CASE o.n = "encode" -> Item(s[o.s])
    [] o.n = "match" -> {i \in 1..Len(s[o.s].c) : s[o.s].c[i] = o.x}
    [] OTHER -> "ok"

Do(o) == Enabled(st, o) /\ st' = Apply(st, o)
Make == \E o \in {p \in Ops : p.n \in {"make", "uri", "from"}} : Do(o)
Use  == \E o \in {p \in Ops : p.n \in {"encode", "header", "match"}} : Do(o)
Init == st = [s \in Slots |-> Absent]
Next == Make \/ Use
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == \A s \in Slots : st[s] \in Values \cup {Absent}
\* the item determines the certificates, and an array never has one element
Faithful == \A s \in Slots : st[s] # Absent => /\ Back(st[s].k, Item(st[s])) = st[s]
                                               /\ Form(st[s]) = "array" <=> Len(st[s].c) > 1
\* equal items, equal certificates
Injective == \A s, t \in Slots : (st[s].k \in Kinds /\ st[t].k \in Kinds) => (Item(st[s]) = Item(st[t]) <=> st[s].c = st[t].c)

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st = [s \in Slots |-> Absent],
                               x |-> {[o |-> o, r |-> Result(st, o), t |-> Apply(st, o)] : o \in {p \in Ops : Enabled(st, p)}}]))
=============================================================================
