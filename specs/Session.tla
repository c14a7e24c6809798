------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of one protected message object: it is filled in through its   *)
(* setters, protected and sent, possibly modified in transit, decoded by a *)
(* receiver, given a key and external AAD, checked, changed again,         *)
(* re-encoded, re-protected ... in any order.                              *)
(*                                                                         *)
(* Family "sign": A = COSE_Sign1, B = COSE_Sign with one signer            *)
(* Family "mac" : A = COSE_Mac0,  B = COSE_Mac with a direct recipient     *)
(* Family "enc" : A = COSE_Encrypt0, B = COSE_Encrypt with a direct recip. *)
(*                                                                         *)
(* Semantics is given by the function Apply(s, op) = [st, out]; out is     *)
(* what the caller of the library observes:                                *)
(*    "ok"      the operation succeeded (signature verified, decrypted...) *)
(*    "bad"     it raised, or verification returned False; nothing changed *)
(***************************************************************************)
EXTENDS CoseTerms, TLC, Json

CONSTANTS Family,     \* "sign", "mac", "enc"
          Ctxs,       \* message types that occur: subset of {"A", "B"}
          AlgLocs,    \* where the algorithm header is: subset of {"p", "u"}
          PhVals,     \* contents of the body protected header: subset of {"e","a","b"}
          SpVals,     \* contents of the signer protected header (Family "sign", B)
          PayVals,    \* payloads: subset of {"none","z","a","b"}
          AadVals,    \* external AADs: subset of {"z","a","b"}
          KeyVals,    \* keys: subset of {"none","k1","p1","k2"}
          IvVals,     \* IVs: subset of {"i","j"}
          DetVals,    \* detached payloads passed to a call: subset of {"none","z","a","b"}
          Tampers,    \* modifications in transit
          Srcs        \* who protects: subset of {"lib","ref","refn"}

VARIABLE st

SignB(s) == Family = "sign" /\ s.ctx = "B"

CurTbs(s, pay) == Tbs(Family, s.ctx, s.ph, s.sp, s.aad, pay)

HasAlg(s) == \/ s.al = "u"
             \/ IF SignB(s) THEN s.sp.v # "e" ELSE s.ph.v # "e"

CanProtectWith(k) == k \in {"k1", "k2"}

\* which payload an operation works on, given the detached payload d of the call
EffPay(s, d) ==
  IF Family # "sign" THEN s.pay
  ELSE IF d = "none" THEN s.pay
  ELSE IF s.pay = "none" THEN d
  ELSE "none"                            \* both: refused

Canon(v) == [v |-> v, n |-> FALSE]

\* ----------------------------------------------------------------- initial
InitStates ==
  { [ctx |-> c, al |-> l, ph |-> Canon(v), sp |-> IF Family = "sign" /\ c = "B" THEN Canon(w) ELSE Canon("e"),
     pay |-> p, aad |-> "z", key |-> "none", iv |-> IF Family = "enc" THEN "i" ELSE "-",
     auth |-> NoTerm] :
       c \in Ctxs, l \in AlgLocs, v \in PhVals, w \in SpVals, p \in PayVals }

\* ------------------------------------------------------------- protection
Protectable(s, d) ==
  /\ HasAlg(s)
  /\ CanProtectWith(s.key)
  /\ EffPay(s, d) \notin {"none", "ct"}

AuthTerm(s, d) ==
  <<"auth", CurTbs(s, EffPay(s, d)), KeyId(s.key), s.iv,
    IF Family = "enc" THEN s.pay ELSE "-">>

\* the message as it leaves the sender, seen as the object a receiver decodes
Sent(s, d) ==
  [s EXCEPT !.aad = "z", !.key = "none",
            !.auth = AuthTerm(s, d),
            !.pay  = IF Family = "enc" THEN "ct" ELSE s.pay]

NonCanon(s) == [s EXCEPT !.ph = [v |-> s.ph.v, n |-> TRUE],
                         !.sp = IF SignB(s) THEN [v |-> s.sp.v, n |-> TRUE] ELSE s.sp]

\* ------------------------------------------------- modifications in transit
TamperOn(r, t) ==
  CASE t = "none"   -> r
    [] t = "ph:e"   -> [r EXCEPT !.ph = Canon("e")]
    [] t = "ph:a"   -> [r EXCEPT !.ph = Canon("a")]
    [] t = "ph:b"   -> [r EXCEPT !.ph = Canon("b")]
    [] t = "phform" -> [r EXCEPT !.ph = [v |-> r.ph.v, n |-> ~r.ph.n]]
    [] t = "sp:e"   -> [r EXCEPT !.sp = Canon("e")]
    [] t = "sp:a"   -> [r EXCEPT !.sp = Canon("a")]
    [] t = "sp:b"   -> [r EXCEPT !.sp = Canon("b")]
    [] t = "spform" -> [r EXCEPT !.sp = [v |-> r.sp.v, n |-> ~r.sp.n]]
    [] t = "pay:z"  -> [r EXCEPT !.pay = "z"]
    [] t = "pay:a"  -> [r EXCEPT !.pay = "a"]
    [] t = "pay:b"  -> [r EXCEPT !.pay = "b"]
    [] t = "pay:none" -> [r EXCEPT !.pay = "none"]
    [] t = "iv"     -> [r EXCEPT !.iv = IF r.iv = "i" THEN "j" ELSE "i"]
    [] t \in {"flip", "trunc", "ext", "empty"} -> [r EXCEPT !.auth = JunkTerm]
    [] t = "retype" -> [r EXCEPT !.ctx = IF r.ctx = "A" THEN "B" ELSE "A",
                                 !.sp = IF Family = "sign" /\ r.ctx = "A" /\ r.al = "p" THEN Canon("a") ELSE Canon("e")]

Applicable(s, t) ==
  CASE t \in {"sp:e", "sp:a", "sp:b", "spform"} -> SignB(s)
    [] t \in {"pay:z", "pay:a", "pay:b", "pay:none"} -> Family # "enc"
    [] t = "iv" -> Family = "enc"
    [] t = "retype" -> {"A", "B"} \subseteq Ctxs
    [] OTHER -> TRUE

\* ---------------------------------------------------------------- checking
Accepts(s, d) ==
  /\ HasAlg(s)
  /\ s.key # "none"
  /\ IF Family = "enc" THEN s.pay = "ct" ELSE EffPay(s, d) # "none"
  /\ s.auth[1] = "auth"
  /\ s.auth[2] = CurTbs(s, EffPay(s, d))
  /\ s.auth[3] = KeyId(s.key)
  /\ s.auth[4] = s.iv

Ok(s)  == [st |-> s, out |-> "ok"]
Bad(s) == [st |-> s, out |-> "bad"]

Apply(s, op) ==
  CASE op.name = "setPh"  -> Ok([s EXCEPT !.ph = Canon(op.v)])
    [] op.name = "updPh"  -> Ok([s EXCEPT !.ph = Canon(op.v)])
    [] op.name = "setSp"  -> Ok([s EXCEPT !.sp = Canon(op.v)])
    [] op.name = "setPay" -> Ok([s EXCEPT !.pay = op.v,
                                          !.auth = IF Family = "enc" THEN NoTerm ELSE @])
    [] op.name = "setAad" -> Ok([s EXCEPT !.aad = op.v])
    [] op.name = "setKey" -> Ok([s EXCEPT !.key = op.v])
    [] op.name = "setIv"  -> Ok([s EXCEPT !.iv = op.v])
    [] op.name = "junkSig" -> Ok([s EXCEPT !.auth = JunkTerm])
    [] op.name = "check"  -> IF Accepts(s, op.d) THEN Ok(s) ELSE Bad(s)
    [] op.name = "stay"   ->        \* protect and encode, the sender's object lives on
         IF Protectable(s, op.d)
         THEN Ok(IF Family = "mac" THEN [s EXCEPT !.auth = AuthTerm(s, "none")] ELSE s)
         ELSE Bad(s)
    [] op.name = "send"   ->
         LET src == IF op.src = "refn" THEN NonCanon(s) ELSE s
         IN  IF Protectable(s, op.d)
             THEN Ok(TamperOn(Sent(src, op.d), op.t))
             ELSE Bad(s)
    [] op.name = "resend" ->        \* encode without protecting again, decode
         Ok([s EXCEPT !.aad = "z", !.key = "none"])

Ops(s) ==
       { [name |-> "setPh", v |-> v] : v \in PhVals }
  \cup { [name |-> "updPh", v |-> v] : v \in PhVals \ {"e"} }
  \cup (IF SignB(s) THEN { [name |-> "setSp", v |-> v] : v \in SpVals } ELSE {})
  \cup { [name |-> "setPay", v |-> v] : v \in PayVals }
  \cup { [name |-> "setAad", v |-> v] : v \in AadVals }
  \cup { [name |-> "setKey", v |-> v] : v \in KeyVals }
  \cup (IF Family = "enc" THEN { [name |-> "setIv", v |-> v] : v \in IvVals } ELSE {})
  \cup (IF Family # "enc" THEN { [name |-> "junkSig"] } ELSE {})
  \cup { [name |-> "check", d |-> d] : d \in DetVals }
  \cup (IF s.pay = "ct" THEN {}           \* encrypting a ciphertext once more is not modelled
        ELSE { [name |-> "stay", d |-> d] : d \in DetVals }
             \cup { [name |-> "send", d |-> d, t |-> "none", src |-> "lib"] : d \in DetVals }
             \cup { [name |-> "send", d |-> "none", t |-> t, src |-> "lib"] : t \in {x \in Tampers : Applicable(s, x)} })
  \cup { [name |-> "send", d |-> d, t |-> "none", src |-> r] :
            d \in {x \in DetVals : Protectable(s, x)}, r \in Srcs \ {"lib"} }
  \cup (IF s.ctx = "A" /\ s.auth # NoTerm /\ Family \in {"sign", "enc"}
           /\ (Family = "enc" => s.pay = "ct")
        THEN { [name |-> "resend"] } ELSE {})

\* ------------------------------------------------- behaviours as named actions
Do(op) == st' = Apply(st, op).st

SetProtected   == \E op \in {o \in Ops(st) : o.name \in {"setPh", "updPh", "setSp"}} : Do(op)
SetContent     == \E op \in {o \in Ops(st) : o.name \in {"setPay", "setIv", "junkSig"}} : Do(op)
SetCallerData  == \E op \in {o \in Ops(st) : o.name \in {"setAad", "setKey"}} : Do(op)
ProtectAndSend == \E op \in {o \in Ops(st) : o.name = "send" /\ o.t = "none"} : Do(op)
AttackInTransit == \E op \in {o \in Ops(st) : o.name = "send" /\ o.t # "none"} : Do(op)
ProtectAndKeep == \E op \in {o \in Ops(st) : o.name = "stay"} : Do(op)
Forward        == \E op \in {o \in Ops(st) : o.name = "resend"} : Do(op)
CheckIt        == \E op \in {o \in Ops(st) : o.name = "check"} : Do(op)

Init == st \in InitStates
Next == \/ SetProtected \/ SetContent \/ SetCallerData
        \/ ProtectAndSend \/ AttackInTransit \/ ProtectAndKeep \/ Forward \/ CheckIt
Spec == Init /\ [][Next]_st

\* ------------------------------------------------------------- properties
TypeOK == /\ st.ctx \in {"A", "B"}
          /\ st.ph.v \in {"e", "a", "b"} /\ st.sp.v \in {"e", "a", "b"}
          /\ st.aad \in AadVals
          /\ st.auth[1] \in {"none", "junk", "auth"}
          /\ st.auth[1] = "auth" => Len(st.auth) = 5

\* C01-C03: whatever is accepted is exactly what the holder of the key protected
Authenticity ==
  \A d \in DetVals : Accepts(st, d) =>
     LET i == IF SignB(st) THEN 5 ELSE 4
     IN  /\ st.auth[3] = KeyId(st.key)
         /\ st.auth[2][2] = CtxString(Family, st.ctx)
         /\ st.auth[2][3] = IF st.ph.v = "e" THEN <<"empty">> ELSE <<"prot", st.ph.v, st.ph.n>>
         /\ (SignB(st) => st.auth[2][4] = ProtTerm(st.sp))
         /\ st.auth[2][i] = <<"val", st.aad>>
         /\ (Family # "enc" => st.auth[2][i + 1] = <<"val", EffPay(st, d)>>)

\* C01-C03: what an honest sender protects, an honest receiver accepts
Agreement ==
  \A d \in DetVals : Protectable(st, d) =>
     LET r == [Sent(st, d) EXCEPT !.aad = st.aad, !.key = IF st.key = "k1" /\ "p1" \in KeyVals THEN "p1" ELSE st.key]
     IN  Accepts(r, d) \/ (Family # "sign" /\ Accepts(r, "none"))

\* C01-C03: every modification in transit is detected, except the ones that
\* leave the authenticated bytes alone (re-encoding an empty header)
TamperDetected ==
  \A t \in {x \in Tampers : Applicable(st, x)} :
     Protectable(st, "none") =>
       LET r  == Sent(st, "none")
           r2 == [TamperOn(r, t) EXCEPT !.aad = st.aad, !.key = st.key]
       IN  Accepts(r2, "none") =>
             \/ (r2.ph = r.ph /\ r2.sp = r.sp /\ r2.pay = r.pay /\ r2.ctx = r.ctx /\ r2.iv = r.iv /\ r2.auth = r.auth)
             \/ (r2.ph.v = "e" /\ r.ph.v = "e")
             \/ (r2.sp.v = "e" /\ r.sp.v = "e")

\* C04: the structures are injective and the six types live in separate domains
TbsInjective ==
  \A x, y \in { <<f, c, v, w, a, p>> : f \in {"sign","mac","enc"}, c \in {"A","B"},
                    v \in {"e","a"}, w \in {"e","a"}, a \in {"z","a"}, p \in {"z","a"} } :
     LET T(q) == Tbs(q[1], q[2], Canon(q[3]), Canon(q[4]), q[5], q[6])
     IN  T(x) = T(y) => /\ x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ x[5] = y[5]
                        /\ (x[1] = "sign" /\ x[2] = "B" => x[4] = y[4])
                        /\ (x[1] # "enc" => x[6] = y[6])
ASSUME TbsInjective

\* C18: a check or protection works on exactly one payload
OnePayload ==
  Family = "sign" => \A d \in DetVals :
     /\ (st.pay # "none" /\ d # "none") => ~Accepts(st, d) /\ ~Protectable(st, d)
     /\ (st.pay = "none" /\ d = "none") => ~Accepts(st, d) /\ ~Protectable(st, d)
     /\ Protectable(st, d) => Sent(st, d).pay = st.pay

\* the complete labelled transition relation, one line per distinct state
Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
