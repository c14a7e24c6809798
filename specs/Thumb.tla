-------------------------------- MODULE Thumb --------------------------------
(***************************************************************************)
(* Certificate thumbprints (RFC 9360, x5t).  Digests are terms H(a, c):    *)
(* equal exactly if algorithm and hashed bytes are.  Slots hold thumbprint *)
(* objects that are made, changed, transported and compared.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Algs, Certs

VARIABLE st

\* byte strings: a certificate <<"c">>, CBOR-wrapped <<"w", "c">>, a changed certificate <<"n", "c">>
Plain == {<<x>> : x \in Certs}
Wrapped == {<<"w", x>> : x \in Certs}
Near == {<<"n", x>> : x \in Certs}
Things == Plain \cup Wrapped \cup Near
\* what a byte string stands for, when it is said to be CBOR-encoded or not; "?" for nothing
Denotes(x, cbor) == IF ~cbor THEN x ELSE IF x[1] = "w" /\ Len(x) = 2 THEN <<x[2]>> ELSE <<"?">>

H(a, c) == <<"H", a, c>>
Odd == {<<"none">>, <<"empty">>}
\* a true digest with something added, missing or changed
Spoil == {"longer", "shorter", "flipped"}
Digests == {H(a, c) : a \in Algs, c \in Plain \cup Wrapped} \cup Odd
Values == [alg : Algs, d : Digests \cup {<<k, a, <<x>>>> : k \in Spoil, a \in Algs, x \in Certs}]
Absent == [alg |-> "-", d |-> <<"-">>]
States == [Slots -> Values \cup {Absent}]

Matches(v, x, cbor) == LET c == Denotes(x, cbor) IN c # <<"?">> /\ v.d = H(v.alg, c)
Same(v, w) == v = w

Ops == [k : {"make"}, s : Slots, a : Algs, x : Plain \cup Wrapped, cbor : BOOLEAN]
       \cup [k : {"alg"}, s : Slots, a : Algs]
       \cup [k : {"odd"}, s : Slots, d : Odd]
       \cup [k : {"spoil"}, s : Slots, how : Spoil]
       \cup [k : {"item", "wire", "header"}, s : Slots]
       \cup [k : {"copy"}, s : Slots, u : Slots]
       \cup [k : {"match"}, s : Slots, x : Things, cbor : BOOLEAN]
       \cup [k : {"equal"}, s : Slots, u : Slots]

Has(s, x) == s[x] # Absent
Enabled(s, o) ==
  CASE o.k = "make" -> Denotes(o.x, o.cbor) # <<"?">>
    [] o.k = "spoil" -> Has(s, o.s) /\ s[o.s].d[1] = "H" /\ s[o.s].d[3] \in Plain
    [] o.k = "copy" -> Has(s, o.u) /\ o.s # o.u
    [] o.k = "equal" -> Has(s, o.s) /\ Has(s, o.u)
    [] OTHER -> Has(s, o.s)
Apply(s, o) ==
  CASE o.k = "make" -> [s EXCEPT ![o.s] = [alg |-> o.a, d |-> H(o.a, Denotes(o.x, o.cbor))]]
    [] o.k = "alg" -> [s EXCEPT ![o.s].alg = o.a]
    [] o.k = "odd" -> [s EXCEPT ![o.s].d = o.d]
    [] o.k = "spoil" -> [s EXCEPT ![o.s].d = <<o.how, s[o.s].d[2], s[o.s].d[3]>>]
    [] o.k = "copy" -> [s EXCEPT ![o.s] = s[o.u]]
    [] OTHER -> s
Result(s, o) ==
  CASE o.k = "match" -> IF Matches(s[o.s], o.x, o.cbor) THEN "yes" ELSE "no"
    [] o.k = "equal" -> IF Same(s[o.s], s[o.u]) THEN "yes" ELSE "no"
    [] OTHER -> "ok"

Do(o) == Enabled(st, o) /\ st' = Apply(st, o)
Init == st = [s \in Slots |-> Absent]
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == st \in States
\* a thumbprint matches at most one byte string, the one it was made from
AtMostOne == \A s \in Slots : Has(st, s) => Cardinality({c \in Things : Matches(st[s], c, FALSE)}) <= 1
\* without a digest it matches nothing, nor does a spoiled one
NothingElse == \A s \in Slots : (Has(st, s) /\ st[s].d[1] # "H") => \A x \in Things, b \in BOOLEAN : ~Matches(st[s], x, b)
\* plain and wrapped form of a certificate are matched alike
Alike == \A s \in Slots, x \in Certs : Has(st, s) => (Matches(st[s], <<x>>, FALSE) <=> Matches(st[s], <<"w", x>>, TRUE))

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st = [s \in Slots |-> Absent],
                               x |-> {[o |-> o, r |-> Result(st, o), t |-> Apply(st, o)] : o \in {p \in Ops : Enabled(st, p)}}]))

----------------------------------------------------------------------------
\* the registered hash algorithms (RFC 9054): function and digest length
Hash == (-14 :> [f |-> "sha1", n |-> 20]) @@ (-15 :> [f |-> "sha256", n |-> 8]) @@ (-16 :> [f |-> "sha256", n |-> 32]) @@
        (-17 :> [f |-> "sha512_256", n |-> 32]) @@ (-18 :> [f |-> "shake_128", n |-> 32]) @@ (-43 :> [f |-> "sha384", n |-> 48]) @@
        (-44 :> [f |-> "sha512", n |-> 64]) @@ (-45 :> [f |-> "shake_256", n |-> 64])
HashCases == [a : DOMAIN Hash, len : 0..300]
InitHash == st \in HashCases
SpecHash == InitHash /\ [][UNCHANGED st]_st
Truncated == \A a \in DOMAIN Hash, b \in DOMAIN Hash : (Hash[a] = Hash[b]) => a = b
DumpHash == PrintT("@@" \o ToJson([c |-> st, e |-> Hash[st.a]]))
=============================================================================
