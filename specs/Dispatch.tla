------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which byte strings are COSE messages, and of which type (RFC 8152,      *)
(* section 2 and the CDDL of each structure).  A decision table over the   *)
(* CBOR tag, the class decoding is called on, and the array: the shape of  *)
(* one of the six types with fields replaced or cut off.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tags,        \* CBOR tags, 0 = not tagged
          Classes,     \* the class decode() is called on, 0 = any message
          MaxDev       \* number of replaced fields

VARIABLE c

COSE == {16, 17, 18, 96, 97, 98}

\* P: protected header, M: map, B: byte string, N: byte string or nil, R: recipients, S: signatures
Shape(t) == CASE t = 16 -> <<"P", "M", "N">>
              [] t = 17 -> <<"P", "M", "N", "B">>
              [] t = 18 -> <<"P", "M", "N", "B">>
              [] t = 96 -> <<"P", "M", "N", "R">>
              [] t = 97 -> <<"P", "M", "N", "B", "R">>
              [] t = 98 -> <<"P", "M", "N", "S">>

Values == {"bstr0", "hdr", "hdr0", "bytes", "nil", "undef", "int", "tstr", "bool", "float", "tagged", "map", "arr of int", "arr of nil", "recs", "sigs"}

\* "bytes" is a byte string that is no encoded map
Fits(f, v) == CASE f = "P" -> v \in {"bstr0", "hdr", "hdr0"}
                [] f = "M" -> v = "map"
                [] f = "B" -> v \in {"bstr0", "hdr", "hdr0", "bytes"}
                [] f = "N" -> v \in {"bstr0", "hdr", "hdr0", "bytes", "nil"}
                [] f = "R" -> v = "recs"
                [] f = "S" -> v = "sigs"
Default(f) == CASE f = "P" -> "hdr" [] f = "M" -> "map" [] f = "B" -> "bytes" [] f = "N" -> "bytes" [] f = "R" -> "recs" [] f = "S" -> "sigs"

Base(t) == [i \in 1..Len(Shape(t)) |-> Default(Shape(t)[i])]

RECURSIVE Deviate(_, _)
Deviate(bodies, n) == IF n = 0 THEN bodies
                      ELSE Deviate(bodies \cup UNION {{[b EXCEPT ![i] = v] : i \in 1..Len(b), v \in Values} : b \in bodies}, n - 1)
Bodies == UNION {Deviate({Base(t)}, MaxDev) \cup {SubSeq(Base(t), 1, n) : n \in 0..(Len(Base(t)) - 1)} : t \in COSE}

\* A COSE_Encrypt or COSE_Mac message without the recipients field is left open.
Open(t, b) == t \in {96, 97} /\ Len(b) = Len(Shape(t)) - 1 /\ \A i \in 1..Len(b) : Fits(Shape(t)[i], b[i])
\* fields after the last one are left open
TooLong(t, b) == Len(b) > Len(Shape(t))

IsA(t, b) == Len(b) = Len(Shape(t)) /\ \A i \in 1..Len(b) : Fits(Shape(t)[i], b[i])

Expected(x) == IF x.tag \in COSE /\ x.cls \in {0, x.tag} /\ IsA(x.tag, x.body) THEN x.tag ELSE 0

Cases == {x \in [tag : Tags, cls : Classes, body : Bodies] :
            (x.tag \in COSE /\ x.cls \in {0, x.tag}) => ~Open(x.tag, x.body) /\
              ~(TooLong(x.tag, x.body) /\ IsA(x.tag, SubSeq(x.body, 1, Len(Shape(x.tag)))))
              \* a recipient without recipients has the shape of a signature
              /\ ~(x.tag = 98 /\ Len(x.body) >= 4 /\ x.body[4] = "recs")}

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
\* a message has at most one type, and a class decodes only its own
TypeOf  == Expected(c) \in {0, c.tag}
OwnOnly == (Expected(c) # 0 /\ c.cls # 0) => c.cls = Expected(c)
\* no array is accepted under two tags, except COSE_Mac0 and COSE_Sign1, which have the same shape
Unambiguous == \A t, u \in COSE : (IsA(t, c.body) /\ IsA(u, c.body)) => (t = u \/ {t, u} = {17, 18})

----------------------------------------------------------------------------
\* the elements of the recipients and signatures fields: one of them deformed in one way
InnerShape(t) == IF t = 98 THEN <<"P", "M", "B">> ELSE <<"P", "M", "B">>
InnerCases == {x \in [t : {96, 97, 98}, pos : 0..3, v : Values \cup {"-"}, cut : 0..3, whole : Values \cup {"-"}, others : 0..1, deep : BOOLEAN] :
                 /\ (x.pos = 0) = (x.v = "-")
                 /\ Cardinality({k \in {"pos", "cut", "whole"} : CASE k = "pos" -> x.pos # 0 [] k = "cut" -> x.cut # 3 [] k = "whole" -> x.whole # "-"}) <= 1
                 /\ x.deep => x.t # 98
                 /\ x.whole \notin {"recs", "sigs"}
                 \* an AES key wrap recipient has an empty protected header and some ciphertext; without ciphertext is left open here
                 /\ x.t # 98 => ~(x.pos = 3 /\ x.v = "nil") /\ ~(x.pos = 1 /\ x.v = "hdr0")
                 /\ ~(x.pos = 2 /\ x.v = "map" /\ x.t = 98)}
InnerExpected(x) ==
  /\ x.cut = 3
  /\ x.whole = "-"
  /\ x.pos # 0 => Fits(InnerShape(x.t)[x.pos], x.v)
  /\ x.t # 98 => ~(x.pos = 1 /\ x.v = "hdr") /\ ~(x.pos = 3 /\ x.v = "bstr0")
InitInner == c \in InnerCases
SpecInner == InitInner /\ [][Next]_c
DumpInner == PrintT("@@" \o ToJson([c |-> c, e |-> InnerExpected(c)]))

\* the fourth field of a recipient: further recipients, or nothing.  Only key wrap may carry them; an empty list and
\* recipients below key agreement with key wrap are left open
MoreValues == Values \cup {"map0", "tstr0", "zero", "false", "arr of bstr", "arr of arr0"}
MoreCases == {x \in [t : {96, 97}, kind : {"wrap", "direct", "agree", "agree+wrap"}, v : MoreValues, others : 0..1, deep : BOOLEAN] :
                /\ ~(x.kind = "agree+wrap" /\ x.v = "recs")
                /\ (x.kind \in {"direct", "agree"}) => (x.others = 0)
                /\ ~(x.kind \in {"direct", "agree"} /\ x.deep)}
MoreExpected(x) == x.kind = "wrap" /\ x.v = "recs"
InitMore == c \in MoreCases
SpecMore == InitMore /\ [][Next]_c
DumpMore == PrintT("@@" \o ToJson([c |-> c, e |-> MoreExpected(c)]))

\* anything else that is not a tagged array
Hows == {"cut", "indefinite", "not bytes", "empty", "bstr", "twice", "tag inside", "map", "int", "nil", "tstr", "in array", "in bstr", "empty array", "random", "set"}
InitGarbage == c \in [t : COSE, cls : Classes, how : Hows]
SpecGarbage == InitGarbage /\ [][Next]_c
DumpGarbage == PrintT("@@" \o ToJson([c |-> c, e |-> c.how = "indefinite" /\ c.cls \in {0, c.t}]))

\* a message inside another tag, or with another tag inside its own, is not a message.  Tags that say nothing about
\* their content are left to the CBOR decoder: 28 (shared value), 256 (string references), 55799 (self-described CBOR)
Transparent == {28, 256, 55799}
AllTags == ((0..300) \cup {55800, 65535, 65536, 15309736}) \ Transparent
InitTagged == \E o \in AllTags, t \in COSE, k \in Classes :
                 c \in {[t |-> t, cls |-> k, outer |-> o, how |-> "outside"], [t |-> t, cls |-> k, outer |-> o, how |-> "inside"]}
SpecTagged == InitTagged /\ [][Next]_c
DumpTagged == PrintT("@@" \o ToJson([c |-> c, e |-> FALSE]))

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
