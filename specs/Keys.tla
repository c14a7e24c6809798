-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* A key object under any sequence of changes.                             *)
(*                                                                         *)
(* The state maps every parameter of the key to an abstract value; "-" is  *)
(* absent.  Values "1" and "2" of the coordinates of an EC2 key belong to  *)
(* two key pairs on curve "1", value "3" to a key pair on curve "2".  The  *)
(* driver writes every parameter and value in any of its spellings.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kty,        \* "EC2", "OKP", "RSA", "Sym"
          Focus       \* "own", "common", "multi": the parameters that are changed

VARIABLE st

Common == {"alg", "kid", "ops", "biv", "unk"}
RsaPriv == {"d", "p", "q", "dp", "dq", "qinv"}
RsaMore == {"other", "r_i", "d_i", "t_i"}

Own == CASE Kty = "EC2" -> {"crv", "x", "y", "d"}
         [] Kty = "OKP" -> {"crv", "x", "d"}
         [] Kty = "RSA" -> {"n", "e"} \cup RsaPriv \cup RsaMore
         [] Kty = "Sym" -> {"k"}
Params == Own \cup Common

Changed == CASE Focus = "common" -> Common
             [] Focus = "own"    -> Own \ RsaMore
             [] Focus = "multi"  -> {"n", "d", "qinv"} \cup RsaMore

Dom(p) == CASE p = "crv" -> {"1", "2"}
            [] Kty = "EC2" /\ p \in {"x", "y", "d"} -> {"1", "2", "3"}
            [] Kty = "RSA" /\ p \in RsaPriv \ {"d"} -> {"1"}
            [] Kty = "RSA" /\ p \in RsaMore -> {"1"}
            [] OTHER -> {"1", "2"}

\* parameters that are not an attribute of the object
ItemOnly == {"unk"}
\* parameters whose values are not restricted
Free == {"unk"}
\* parameters that are always there
Fixed == {"crv", "k", "n", "e"}

Has(s, p) == s[p] # "-"

InitStates ==
  {s \in [Params -> {"-", "1"}] :
     /\ \A p, q \in Common : s[p] = s[q]
     /\ CASE Kty = "EC2" -> s["crv"] = "1" /\ s["x"] = "1" /\ s["y"] = "1"
          [] Kty = "OKP" -> s["crv"] = "1" /\ (s["x"] = "1" \/ s["d"] = "1")
          [] Kty = "RSA" -> /\ s["n"] = "1" /\ s["e"] = "1"
                            /\ \A p, q \in RsaPriv : s[p] = s[q]
                            /\ \A p, q \in RsaMore : s[p] = s[q]
                            /\ s["other"] = "1" => s["d"] = "1"
                            /\ Focus # "multi" => s["other"] = "-"
          [] Kty = "Sym" -> s["k"] = "1"}

----------------------------------------------------------------------------
\* what makes the object a usable key of its type
Usable(s) ==
  CASE Kty = "EC2" -> Has(s, "crv") /\ (Has(s, "x") \/ Has(s, "d"))
    [] Kty = "OKP" -> Has(s, "crv") /\ (Has(s, "x") \/ Has(s, "d"))
    [] Kty = "RSA" -> Has(s, "n") /\ Has(s, "e")
    [] Kty = "Sym" -> Has(s, "k")

Without(s, p) ==
  IF Kty = "EC2" /\ p \in {"x", "y"} /\ Has(s, "d")
  THEN [s EXCEPT !["x"] = "-", !["y"] = "-"]       \* one coordinate is meaningless without the other
  ELSE [s EXCEPT ![p] = "-"]

Removable(s, p) ==
  CASE p \in Fixed -> FALSE
    [] ~Has(s, p)  -> FALSE
    [] Kty = "EC2" /\ p = "d" -> Has(s, "x") /\ Has(s, "y")
    [] Kty = "EC2" /\ p = "x" -> Has(s, "d")
    [] Kty = "OKP" /\ p = "d" -> Has(s, "x")
    [] Kty = "OKP" /\ p = "x" -> Has(s, "d")
    [] OTHER -> TRUE

\* the curve that a key pair belongs to
CurveOf(v) == IF v = "3" THEN "2" ELSE "1"

\* what reading the encoded key yields
Decoded(s) ==
  CASE Kty = "EC2" ->
         IF Has(s, "d") THEN
              IF CurveOf(s["d"]) # s["crv"] THEN "open"
              ELSE IF \E p \in {"x", "y"} : Has(s, p) /\ s[p] # s["d"] THEN "bad"
              ELSE IF Has(s, "x") /\ Has(s, "y") THEN "same" ELSE "completed"
         ELSE IF Has(s, "y") THEN IF s["x"] = s["y"] /\ CurveOf(s["x"]) = s["crv"] THEN "same" ELSE "open"
         ELSE IF CurveOf(s["x"]) = s["crv"] THEN "completed" ELSE "open"
    [] Kty = "OKP" -> "same"
    [] Kty = "Sym" -> "same"
    [] Kty = "RSA" ->
         IF \A p \in RsaPriv \cup RsaMore : ~Has(s, p) THEN "same"
         ELSE IF (\A p \in RsaPriv : Has(s, p)) /\ ((\A p \in RsaMore : Has(s, p)) \/ (\A p \in RsaMore : ~Has(s, p))) THEN "same"
         ELSE "bad"

Res(s, o) == [st |-> s, out |-> o]

Apply(s, op) ==
  CASE op.name = "set" -> IF op.v = "bad" THEN Res(s, "bad") ELSE Res([s EXCEPT ![op.p] = op.v], "ok")
    [] op.name = "kty" -> Res(s, IF op.v = "same" THEN "ok" ELSE "bad")
    [] op.name = "sdef" -> IF Has(s, op.p) THEN Res(s, s[op.p])
                           ELSE IF op.v = "bad" THEN Res(s, "bad") ELSE Res([s EXCEPT ![op.p] = op.v], op.v)
    [] op.name = "del" -> IF op.p # "kty" /\ Removable(s, op.p) THEN Res(Without(s, op.p), "ok") ELSE Res(s, "bad")
    [] op.name = "pop" -> IF ~Has(s, op.p) THEN Res(s, IF op.d = "none" THEN "bad" ELSE op.d)
                          ELSE IF Removable(s, op.p) THEN Res(Without(s, op.p), s[op.p]) ELSE Res(s, "bad")
    [] op.name = "get" -> Res(s, IF Has(s, op.p) THEN s[op.p] ELSE IF op.d = "none" THEN "bad" ELSE op.d)
    [] op.name = "recode" -> Res(s, Decoded(s))

Values(p) == Dom(p) \cup (IF p \in Free THEN {} ELSE {"bad"})

Ops(s) ==
       {[name |-> "set", p |-> p, v |-> v, via |-> w] : p \in Changed, v \in {"1", "2", "3", "bad"}, w \in {"attr", "item"}}
  \cup {[name |-> "kty", v |-> v, via |-> w] : v \in {"same", "other", "bad"}, w \in {"attr", "item"}}
  \cup {[name |-> "sdef", p |-> p, v |-> v] : p \in Changed, v \in {"1", "bad"}}
  \cup {[name |-> "del", p |-> p] : p \in Changed \cup {"kty"}}
  \cup {[name |-> n, p |-> p, d |-> d] : n \in {"pop", "get"}, p \in Changed, d \in {"none", "dflt"}}
  \cup {[name |-> "recode"]}

Possible(op) == /\ op.name \in {"set", "sdef"} => op.v \in Values(op.p)
                /\ op.name = "set" => ~(op.via = "attr" /\ op.p \in ItemOnly)
Enabled(s) == {op \in Ops(s) : Possible(op)}

Do(op) == st' = Apply(st, op).st
Assign == \E op \in {o \in Enabled(st) : o.name \in {"set", "kty", "sdef"}} : Do(op)
Remove == \E op \in {o \in Enabled(st) : o.name \in {"del", "pop"}} : Do(op)
Read   == \E op \in {o \in Enabled(st) : o.name \in {"get", "recode"}} : Do(op)

Init == st \in InitStates
Next == Assign \/ Remove \/ Read
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == \A p \in Params : st[p] \in Dom(p) \cup {"-"}

AlwaysUsable == Usable(st)

\* a refused change leaves the key as it was; a change touches its parameter only
Atomic == \A op \in Enabled(st) : LET r == Apply(st, op) IN
            /\ r.out = "bad" => r.st = st
            /\ op.name \in {"get", "recode", "kty"} => r.st = st
            /\ op.name \in {"set", "sdef"} => \A p \in Params \ {op.p} : r.st[p] = st[p]
            /\ op.name \in {"del", "pop"} =>
                 \A p \in Params \ {op.p} : r.st[p] = st[p] \/ (Kty = "EC2" /\ {p, op.p} = {"x", "y"})

\* nothing is refused that would have left a usable key, except one coordinate of a public point
Necessary == \A op \in Enabled(st) :
               (op.name = "del" /\ op.p # "kty" /\ Has(st, op.p) /\ Apply(st, op).out = "bad")
                 => \/ ~Usable(Without(st, op.p))
                    \/ (Kty = "EC2" /\ op.p = "d" /\ ~(Has(st, "x") /\ Has(st, "y")))

\* the type never changes, and no operation yields a key of half a point together with a private value
NoRetype == \A op \in Enabled(st) : (op.name = "kty" /\ op.v # "same") => Apply(st, op).out = "bad"

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Enabled(st)}]))
=============================================================================
