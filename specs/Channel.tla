------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* Several message objects of all six types, honest parties that fill them *)
(* in, protect and check them, and an adversary who owns the network: it   *)
(* puts together messages of any type from any protected headers, payloads *)
(* and nonces it likes and any signature, tag or ciphertext that was ever  *)
(* sent (or junk).  The adversary has no keys.                             *)
(*                                                                         *)
(* st.obj   the message objects                                            *)
(* st.net   authentication data seen on the network, in order of sending   *)
(* st.sent  what honest parties protected (history)                        *)
(***************************************************************************)
EXTENDS CoseTerms, TLC, Json

CONSTANTS Objs,       \* message objects, 1..n
          Types,      \* subset of {"Sign1","Sign","Mac0","Mac","Enc0","Enc"}
          AlgIn,      \* where the algorithm header is: "p" or "u"
          Hdrs,       \* contents of protected headers; "e" is the empty one
          Pays, Aads, Keys, Ivs,
          MaxNet

VARIABLE st

Fam(t) == CASE t \in {"Sign1", "Sign"} -> "sign" [] t \in {"Mac0", "Mac"} -> "mac" [] OTHER -> "enc"
Ctx(t) == IF t \in {"Sign1", "Mac0", "Enc0"} THEN "A" ELSE "B"

Canon(v) == [v |-> v, n |-> FALSE]
Blank(t) == [typ |-> t, ph |-> Canon("e"), sp |-> Canon("e"), pay |-> IF Fam(t) = "sign" THEN "none" ELSE "z", aad |-> "z", key |-> "none",
             iv |-> IF Fam(t) = "enc" THEN "i" ELSE "-", auth |-> NoTerm]

Term(o, pay) == Tbs(Fam(o.typ), Ctx(o.typ), o.ph, o.sp, o.aad, pay)
HasAlg(al, o)  == al = "u" \/ (IF o.typ = "Sign" THEN o.sp.v ELSE o.ph.v) # "e"
EffPay(o, d) == IF Fam(o.typ) # "sign" THEN o.pay
                ELSE IF d = "none" THEN o.pay ELSE IF o.pay = "none" THEN d ELSE "none"

Protectable(al, o, d) == HasAlg(al, o) /\ o.key \in {"k1", "k2"} /\ EffPay(o, d) \notin {"none", "ct"}
AuthOf(o, d) == <<"auth", Term(o, EffPay(o, d)), KeyId(o.key), o.iv, IF Fam(o.typ) = "enc" THEN o.pay ELSE "-">>

Accepts(al, o, d) ==
  /\ HasAlg(al, o) /\ o.key # "none"
  /\ IF Fam(o.typ) = "enc" THEN o.pay = "ct" ELSE EffPay(o, d) # "none"
  /\ o.auth[1] = "auth"
  /\ o.auth[2] = Term(o, EffPay(o, d)) /\ o.auth[3] = KeyId(o.key) /\ o.auth[4] = o.iv

Res(s, o) == [st |-> s, out |-> o]

Apply(s, op) ==
  LET o == s.obj[op.i] IN
  CASE op.name = "set" ->
         Res([s EXCEPT !.obj[op.i] = CASE op.f = "ph"  -> [o EXCEPT !.ph = Canon(op.v)]
                                       [] op.f = "sp"  -> [o EXCEPT !.sp = Canon(op.v)]
                                       [] op.f = "pay" -> [o EXCEPT !.pay = op.v, !.auth = IF Fam(o.typ) = "enc" THEN NoTerm ELSE @]
                                       [] op.f = "aad" -> [o EXCEPT !.aad = op.v]
                                       [] op.f = "key" -> [o EXCEPT !.key = op.v]
                                       [] op.f = "iv"  -> [o EXCEPT !.iv = op.v]], "ok")
    [] op.name = "protect" ->
         IF Protectable(s.al, o, op.d)
         THEN Res([s EXCEPT !.net = Append(@, AuthOf(o, op.d)), !.sent = @ \cup {AuthOf(o, op.d)},
                            !.obj[op.i] = IF Fam(o.typ) = "mac" THEN [o EXCEPT !.auth = AuthOf(o, "none")] ELSE o], "ok")
         ELSE Res(s, "bad")
    [] op.name = "hand" ->      \* the value is computed without encoding, and put into the object by the caller
         IF Protectable(s.al, o, op.d)
         THEN Res([s EXCEPT !.net = Append(@, AuthOf(o, op.d)), !.sent = @ \cup {AuthOf(o, op.d)},
                            !.obj[op.i] = [o EXCEPT !.auth = AuthOf(o, op.d), !.pay = IF Fam(o.typ) = "enc" THEN "ct" ELSE @]], "ok")
         ELSE Res(s, "bad")
    [] op.name = "deliver" ->                 \* whatever the adversary likes
         Res([s EXCEPT !.obj[op.i] = [typ |-> op.typ, ph |-> op.ph, sp |-> IF op.typ = "Sign" THEN op.sp ELSE Canon("e"),
                                      pay |-> IF Fam(op.typ) = "enc" THEN "ct" ELSE op.pay, aad |-> "z", key |-> "none",
                                      iv |-> IF Fam(op.typ) = "enc" THEN op.iv ELSE "-",
                                      auth |-> IF op.a = 0 THEN JunkTerm ELSE s.net[op.a]]], "ok")
    [] op.name = "fresh" -> Res([s EXCEPT !.obj[op.i] = Blank(op.typ)], "ok")
    [] op.name = "check" -> Res(s, IF Accepts(s.al, o, op.d) THEN "ok" ELSE "bad")

PhForms == {[v |-> v, n |-> n] : v \in Hdrs, n \in BOOLEAN}
Fields(o) == {"ph", "aad", "key", "pay"} \cup (IF o.typ = "Sign" THEN {"sp"} ELSE {}) \cup (IF Fam(o.typ) = "enc" THEN {"iv"} ELSE {})
Values(f) == CASE f \in {"ph", "sp"} -> Hdrs [] f = "aad" -> Aads [] f = "key" -> Keys [] f = "pay" -> Pays [] f = "iv" -> Ivs

Ops(s) ==
       UNION {UNION {{[name |-> "set", i |-> i, f |-> f, v |-> v] : v \in Values(f)} : f \in Fields(s.obj[i])} : i \in Objs}
  \cup {[name |-> n, i |-> i, d |-> d] : n \in {"protect", "hand"}, i \in {j \in Objs : s.obj[j].pay # "ct" /\ Len(s.net) < MaxNet}, d \in {"none"}}
  \cup {[name |-> "deliver", i |-> i, typ |-> t, ph |-> p, sp |-> Canon("e"), pay |-> v, iv |-> n, a |-> a] :
           i \in Objs, t \in Types, p \in PhForms, v \in Pays \ {"none"}, n \in Ivs, a \in 0..Len(s.net)}
  \cup {[name |-> "check", i |-> i, d |-> "none"] : i \in Objs}

Do(op) == st' = Apply(st, op).st
Fill    == \E op \in {o \in Ops(st) : o.name = "set"} : Do(op)
Protect == \E op \in {o \in Ops(st) : o.name \in {"protect", "hand"}} : Do(op)
Attack  == \E op \in {o \in Ops(st) : o.name = "deliver"} : Do(op)
Check   == \E op \in {o \in Ops(st) : o.name = "check"} : Do(op)

InitStates == {[al |-> AlgIn, obj |-> o, net |-> <<>>, sent |-> {}] : o \in [Objs -> {Blank(t) : t \in Types}]}
Init == st \in InitStates
Next == Fill \/ Protect \/ Attack \/ Check
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
\* C01-C03: nothing is accepted that the holder of the key did not protect, as exactly this type of message with
\* exactly this protected header (as serialized), external data, payload and nonce
AcceptedWasSent(s) ==
  \A i \in DOMAIN s.obj : LET o == s.obj[i] IN
    Accepts(s.al, o, "none") =>
      \E x \in s.sent : /\ x[2] = Term(o, o.pay)
                        /\ x[2][2] = CtxString(Fam(o.typ), Ctx(o.typ))
                        /\ x[3] = KeyId(o.key) /\ x[4] = o.iv
NothingForged == AcceptedWasSent(st)

\* C01-C03: and an honest message is accepted whatever else happened
HonestAccepted(s) ==
  \A i \in DOMAIN s.obj : LET o == s.obj[i] IN
    Protectable(s.al, o, "none") =>
      LET a == AuthOf(o, "none")
          r == [o EXCEPT !.auth = a, !.pay = IF Fam(o.typ) = "enc" THEN "ct" ELSE @]
      IN Accepts(s.al, r, "none")
Agreement == HonestAccepted(st)

\* an adversary's message is accepted under one key only, and by one type only
Separated == \A i, j \in DOMAIN st.obj : LET o == st.obj[i] q == st.obj[j] IN
   (o.auth = q.auth /\ Accepts(st.al, o, "none") /\ Accepts(st.al, q, "none")) => o.typ = q.typ /\ KeyId(o.key) = KeyId(q.key)

TypeOK == /\ \A i \in DOMAIN st.obj : st.obj[i].auth[1] \in {"none", "junk", "auth"}
          /\ \A k \in DOMAIN st.net : st.net[k] \in st.sent
=============================================================================
