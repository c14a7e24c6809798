------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* Which keys an operation accepts (RFC 8152, sections 7.1, 8, 9, 10, 12;  *)
(* RFC 8230): the type and curve, the private part, the length of a        *)
(* symmetric key, the alg and key_ops parameters of the key, and the alg   *)
(* parameter of the layer the key is used in.                              *)
(* A decision table: one state per case.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes,    \* the sizes of key_ops sets tried, 0..10 in full
          Wide      \* TRUE: every algorithm of the family in every part of the table

VARIABLE c

ECDSA  == {-7, -35, -36}
PSS    == {-37, -38, -39}
PKCS1  == {-65535, -257, -258, -259}
SIGN   == ECDSA \cup PSS \cup PKCS1 \cup {-8}
HMAC   == {4, 5, 6, 7}
AESMAC == {14, 15, 25, 26}
GCM    == {1, 2, 3}
CCM    == {10, 11, 12, 13, 30, 31, 32, 33}
KW     == {-3, -4, -5}
OAEP   == {-40, -41, -42}
KAD    == {-25, -26, -27, -28}
KAW    == {-29, -30, -31, -32, -33, -34}
HASH   == {-14, -15, -16, -17, -18, -43, -44, -45}
All    == SIGN \cup HMAC \cup AESMAC \cup GCM \cup CCM \cup KW \cup OAEP \cup KAD \cup KAW \cup HASH \cup {-6, -10, -11, -12, -13}

Families == [sign |-> SIGN, mac |-> HMAC \cup AESMAC, enc |-> GCM \cup CCM, kw |-> KW, oaep |-> OAEP, kad |-> KAD, kaw |-> KAW]
Recipient == {"kw", "oaep", "kad", "kaw"}

\* the operations: family, the key_ops that allow them, whether they need the private part
\* ka?S/R: sender, receiver; ..L: the local key, ..P: the public key of the peer
Op == [sign1   |-> [fam |-> "sign", ops |-> {1}, priv |-> TRUE],
       verify1 |-> [fam |-> "sign", ops |-> {2}, priv |-> FALSE],
       signS   |-> [fam |-> "sign", ops |-> {1}, priv |-> TRUE],
       verifyS |-> [fam |-> "sign", ops |-> {2}, priv |-> FALSE],
       mac0C   |-> [fam |-> "mac", ops |-> {9}, priv |-> FALSE],
       mac0V   |-> [fam |-> "mac", ops |-> {10}, priv |-> FALSE],
       macC    |-> [fam |-> "mac", ops |-> {9}, priv |-> FALSE],
       macV    |-> [fam |-> "mac", ops |-> {10}, priv |-> FALSE],
       enc0E   |-> [fam |-> "enc", ops |-> {3}, priv |-> FALSE],
       enc0D   |-> [fam |-> "enc", ops |-> {4}, priv |-> FALSE],
       encE    |-> [fam |-> "enc", ops |-> {3}, priv |-> FALSE],
       encD    |-> [fam |-> "enc", ops |-> {4}, priv |-> FALSE],
       kwW     |-> [fam |-> "kw", ops |-> {3, 5}, priv |-> FALSE],
       kwU     |-> [fam |-> "kw", ops |-> {4, 6}, priv |-> FALSE],
       oaepW   |-> [fam |-> "oaep", ops |-> {3, 5}, priv |-> FALSE],
       oaepU   |-> [fam |-> "oaep", ops |-> {4, 6}, priv |-> TRUE],
       kadSL   |-> [fam |-> "kad", ops |-> {7, 8}, priv |-> TRUE],
       kadSP   |-> [fam |-> "kad", ops |-> {7, 8}, priv |-> FALSE],
       kadRL   |-> [fam |-> "kad", ops |-> {7, 8}, priv |-> TRUE],
       kadRP   |-> [fam |-> "kad", ops |-> {7, 8}, priv |-> FALSE],
       kawSL   |-> [fam |-> "kaw", ops |-> {7, 8}, priv |-> TRUE],
       kawSP   |-> [fam |-> "kaw", ops |-> {7, 8}, priv |-> FALSE],
       kawRL   |-> [fam |-> "kaw", ops |-> {7, 8}, priv |-> TRUE],
       kawRP   |-> [fam |-> "kaw", ops |-> {7, 8}, priv |-> FALSE]]
Ops    == DOMAIN Op
Fam(o) == Families[Op[o].fam]

EC   == {"P-256", "P-384", "P-521"}
SYM  == {"S16", "S24", "S32"}
Kinds == EC \cup {"secp256k1", "Ed25519", "Ed448", "X25519", "X448", "RSA"} \cup SYM
Asym  == Kinds \ SYM

\* the keys an algorithm works with
Len16 == {1, 10, 12, 14, 25, 30, 32, -3}
Len24 == {2, -4}
Len32 == {3, 11, 13, 15, 26, 31, 33, -5}
Fits(a, k) == CASE a = -7  -> k = "P-256"
                [] a = -35 -> k = "P-384"
                [] a = -36 -> k = "P-521"
                [] a = -8  -> k \in {"Ed25519", "Ed448"}
                [] a \in PSS \cup PKCS1 \cup OAEP -> k = "RSA"
                [] a \in HMAC -> k \in SYM
                [] a \in Len16 -> k = "S16"
                [] a \in Len24 -> k = "S24"
                [] a \in Len32 -> k = "S32"
                [] a \in KAD \cup KAW -> k \in EC
                [] OTHER -> FALSE

\* an ephemeral key is generated when the sender gives none
Ephemeral == {-25, -26, -29, -30, -31}

\* what is wrong with a case
Faults(x) ==
  LET o == Op[x.op] IN
    (IF x.loc = "-" THEN {"no algorithm"} ELSE {})
    \cup (IF x.loc # "-" /\ x.alg \notin Fam(x.op) THEN {"algorithm of another kind"} ELSE {})
    \cup (IF x.kind = "-"
          THEN (IF x.op \in {"kadSL", "kawSL"} /\ x.alg \in Ephemeral THEN {} ELSE {"no key"})
          ELSE (IF x.loc # "-" /\ x.alg \in Fam(x.op) /\ ~Fits(x.alg, x.kind) THEN {"key type, curve or length"} ELSE {})
               \cup (IF o.priv /\ ~x.priv THEN {"no private key"} ELSE {})
               \cup (IF x.kalg # 0 /\ x.loc # "-" /\ x.kalg # x.alg THEN {"algorithm of the key"} ELSE {})
               \cup (IF x.ops # {} /\ x.ops \cap o.ops = {} THEN {"key operations"} ELSE {}))
Accepted(x) == Faults(x) = {}

----------------------------------------------------------------------------
Least(S) == CHOOSE s \in S : \A t \in S : s <= t
Rep(o)   == IF Wide THEN Fam(o) ELSE {Least(Fam(o)), CHOOSE a \in Fam(o) : \A b \in Fam(o) : b <= a}
Locs(o)  == IF Op[o].fam \in {"kw", "oaep"} THEN {"u"} ELSE {"p", "u"}
Privs(k) == IF k \in Asym THEN BOOLEAN ELSE {TRUE}
\* public keys where they suffice
Enough(o, k) == IF Op[o].priv THEN {TRUE} ELSE Privs(k)
\* secp256k1 in key agreement is left open
Known(o, k) == ~(k = "secp256k1" /\ Op[o].fam \in {"kad", "kaw"})

Case(o, l, a, k, p, ka, os) == [op |-> o, loc |-> l, alg |-> a, kind |-> k, priv |-> p, kalg |-> ka, ops |-> os]

RepOf    == [o \in Ops |-> Rep(o)]
SubsOf(n) == {S \in SUBSET (1..10) : Cardinality(S) = n}
OpSets  == UNION {SubsOf(n) : n \in Sizes}

\* every algorithm of the family with every key
Types   == \E o \in Ops, k \in Kinds : \E l \in Locs(o), a \in Fam(o), p \in Privs(k) :
             Known(o, k) /\ c = Case(o, l, a, k, p, 0, {})
\* algorithms of other kinds (a recipient's algorithm decides its class)
Foreign == \E o \in Ops, k \in {"P-256", "Ed25519", "RSA", "S16", "S32"} :
           \E l \in Locs(o), a \in (IF Op[o].fam \in Recipient THEN Families.sign \cup Families.mac \cup Families.enc ELSE All) \ Fam(o) :
             c = Case(o, l, a, k, TRUE, 0, {})
\* every algorithm in the key
KeyAlgs == \E o \in Ops, k \in Kinds : \E a \in Fam(o) :
             /\ Fits(a, k) /\ Known(o, k) /\ (Wide \/ k \notin {"Ed448", "P-384", "S24"} \/ a \in {-35, 2, -4})
             /\ \E ka \in All, l \in Locs(o), os \in {{}, 1..10} :
                  (Wide \/ l = "u") /\ (Wide \/ os = {} \/ ka = a) /\ \E p \in Enough(o, k) : c = Case(o, l, a, k, p, ka, os)
\* every set of operations in the key
KeyOps  == \E o \in Ops, k \in Kinds \ {"Ed448"} : \E a \in RepOf[o] :
             /\ Fits(a, k) /\ Known(o, k) /\ (a \in KAD \cup KAW \cup HMAC => k \in {"P-256", "P-521", "S16", "S32"})
             /\ \E ka \in {0, a}, os \in OpSets, p \in Enough(o, k) : c = Case(o, "u", a, k, p, ka, os)
\* no key, no algorithm
None    == \/ \E o \in Ops : \E l \in Locs(o) \cup {"-"}, a \in Fam(o) : c = Case(o, l, a, "-", FALSE, 0, {})
           \/ \E o \in Ops, k \in Kinds : \E a \in Fam(o) :
                Fits(a, k) /\ Known(o, k) /\ \E ka \in {0, 1} \cup Fam(o) : c = Case(o, "-", a, k, TRUE, ka, {})

Init == Types \/ Foreign \/ KeyAlgs \/ KeyOps \/ None
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
\* an accepted case stays accepted when restrictions are removed from the key, and each restriction decides on its own
Monotone == Accepted(c) => /\ Accepted([c EXCEPT !.kalg = 0]) /\ Accepted([c EXCEPT !.ops = {}])
                           /\ c.kind # "-" => Accepted([c EXCEPT !.kalg = c.alg, !.ops = Op[c.op].ops, !.priv = TRUE])
\* a key for one direction is never accepted for the other
Opposite == [sign1 |-> "verify1", verify1 |-> "sign1", signS |-> "verifyS", verifyS |-> "signS", mac0C |-> "mac0V", mac0V |-> "mac0C",
             macC |-> "macV", macV |-> "macC", enc0E |-> "enc0D", enc0D |-> "enc0E", encE |-> "encD", encD |-> "encE",
             kwW |-> "kwU", kwU |-> "kwW", oaepW |-> "oaepU", oaepU |-> "oaepW"]
OneWay   == (c.op \in DOMAIN Opposite /\ Accepted(c) /\ c.kind # "-" /\ c.ops # {} /\ c.ops \subseteq Op[c.op].ops)
              => ~Accepted([c EXCEPT !.op = Opposite[c.op], !.priv = TRUE])
\* signature keys never serve another kind of operation and the other way round
Separate == (Accepted(c) /\ c.kind # "-" /\ c.kalg # 0) =>
              \A o \in Ops : Accepted([c EXCEPT !.op = o]) => Op[o].fam = Op[c.op].fam

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Faults(c)]))
=============================================================================
