--------------------------------- MODULE Kdf ---------------------------------
(***************************************************************************)
(* Key derivation of key agreement recipients (RFC 8152, sections 11 and   *)
(* 12.4): which key is derived from which inputs.  The derived key is a    *)
(* symbolic term, Hkdf(hash, secret, salt, COSE_KDF_Context, length); the  *)
(* driver evaluates the context printed here with concrete values and      *)
(* compares the resulting keys with those of the library.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets     \* algorithms of the keys derived directly

VARIABLE c

Agreement == {-25, -26, -27, -28}
Wrapping  == {-29, -30, -31, -32, -33, -34}
Algs      == Agreement \cup Wrapping

Hash(a)   == IF a \in {-26, -28} THEN "sha512" ELSE "sha256"
WrapOf(a) == CASE a \in {-29, -32} -> -3 [] a \in {-30, -33} -> -4 [] a \in {-31, -34} -> -5
KeyBits(a) == CASE a \in {1, 10, 12, 14, 25, 30, 32, -3} -> 128
                [] a \in {2, -4} -> 192
                [] a \in {3, 4, 5, 11, 13, 15, 26, 31, 33, -5} -> 256

Fields == {"uid", "unonce", "uother", "vid", "vnonce", "vother", "salt", "pub", "priv"}
\* "-": absent, "e": present and empty, "a", "b": two values
Vals(f) == IF f \in {"salt", "pub", "priv"} THEN {"-", "a", "b"} ELSE {"-", "e", "a", "b"}

\* the AlgorithmID of the context is the algorithm the derived key is for
Target(x) == IF x.alg \in Wrapping THEN WrapOf(x.alg) ELSE x.target

V(x, f)  == IF x.f[f] = "-" THEN <<"nil", "-">> ELSE <<f, x.f[f]>>
Context(x) == <<Target(x),
                <<V(x, "uid"), V(x, "unonce"), V(x, "uother")>>,
                <<V(x, "vid"), V(x, "vnonce"), V(x, "vother")>>,
                IF x.f["pub"] = "-" THEN <<KeyBits(Target(x)), <<"protected", x.form>>>>
                                    ELSE <<KeyBits(Target(x)), <<"protected", x.form>>, V(x, "pub")>> >>
              \o IF x.f["priv"] = "-" THEN << >> ELSE <<V(x, "priv")>>
Derived(x) == [hash |-> Hash(x.alg), salt |-> V(x, "salt"), info |-> Context(x), bits |-> KeyBits(Target(x))]

Forms == {"empty", "canonical", "other form"}

Present(m) == [f \in Fields |-> IF f \in m THEN "a" ELSE "-"]
Uniform(v) == [f \in Fields |-> v]

\* every combination of present and absent inputs, both directions; every single empty one
Base(x) == \E a \in Algs, t \in Targets, w \in {"send", "receive"} :
            /\ x.alg = a /\ x.way = w /\ x.target = IF a \in Wrapping THEN 0 ELSE t

Init ==
  \/ \E a \in Algs, w \in {"send", "receive"}, m \in SUBSET Fields, form \in Forms :
       /\ ~(w = "send" /\ form = "other form")
       /\ c = [t |-> "same", way |-> w, alg |-> a, target |-> 0, f |-> Present(m), form |-> form, diff |-> "-", to |-> "-"]
  \/ \E a \in Algs, w \in {"send", "receive"}, g \in Fields \ {"salt", "pub", "priv"}, v \in {"-", "a"}, form \in {"empty", "canonical"} :
       c = [t |-> "same", way |-> w, alg |-> a, target |-> 0, f |-> [Uniform(v) EXCEPT ![g] = "e"], form |-> form, diff |-> "-", to |-> "-"]
  \/ \E a \in Agreement, t \in Targets, w \in {"send", "receive"}, v \in {"-", "a"}, form \in {"empty", "canonical"} :
       c = [t |-> "same", way |-> w, alg |-> a, target |-> t, f |-> Uniform(v), form |-> form, diff |-> "-", to |-> "-"]
  \* one input differs between the two sides
  \/ \E a \in Algs, g \in Fields, form \in {"empty", "canonical"} : \E v \in Vals(g), o \in {"-", "a"} : \E n \in Vals(g) \ {v} :
       c = [t |-> "differ", way |-> "receive", alg |-> a, target |-> 0, f |-> [Uniform(o) EXCEPT ![g] = v], form |-> form, diff |-> g, to |-> n]
  \/ \E a \in Algs, o \in {"-", "a"}, form \in Forms, g \in {"form", "target", "bits", "hash"} : \E n \in IF g = "form" THEN Forms \ {form} ELSE {"-"} :
       c = [t |-> "differ", way |-> "receive", alg |-> a, target |-> 0, f |-> Uniform(o), form |-> form, diff |-> g, to |-> n]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* target 0: any; the driver substitutes one
T(x) == IF x.alg \in Agreement /\ x.target = 0 THEN [x EXCEPT !.target = 1] ELSE x

\* the derived keys differ as soon as one input differs
Other(x) == IF x.diff \in Fields THEN [x EXCEPT !.f[x.diff] = x.to] ELSE IF x.diff = "form" THEN [x EXCEPT !.form = x.to] ELSE x
Depends   == (c.t = "differ" /\ c.diff \in Fields \cup {"form"}) => Derived(T(c)) # Derived(T(Other(c)))
\* (the algorithm and the direction make no difference here)
Pick == c.alg \in {-25, -29} /\ c.way = "receive" /\ c.t = "same"
Injective == Pick => \A g \in Fields : \A n \in Vals(g) \ {c.f[g]} : Derived(T([c EXCEPT !.f[g] = n])) # Derived(T(c))
\* one input never takes the place of another
Apart     == Pick => \A g, h \in Fields : (g # h /\ c.f[g] # c.f[h]) =>
                Derived(T([c EXCEPT !.f[g] = c.f[h], !.f[h] = c.f[g]])) # Derived(T(c))

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Derived(T(c))]))
=============================================================================
