----------------------------- MODULE CoseTerms -----------------------------
(***************************************************************************)
(* Symbolic terms for the bytes that RFC 8152 puts under a signature, tag  *)
(* or AEAD.  Terms are tagged tuples; the conformance harness evaluates    *)
(* them to real bytes with its own CBOR encoder and the primitives of the  *)
(* `cryptography' package, so a term is also a recipe for an independent   *)
(* implementation of the standard.                                         *)
(*                                                                         *)
(* A protected header is a record [v, n]: v is the abstract content ("e"   *)
(* is the empty map), n tells whether it is serialized in a non-canonical  *)
(* way (for v = "e": as h'a0' instead of h'').                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoTerm   == <<"none">>
JunkTerm == <<"junk">>

\* RFC 8152 section 3/4.4/5.3/6.3: a zero-length map is always the empty bstr
ProtTerm(ph) == IF ph.v = "e" THEN <<"empty">> ELSE <<"prot", ph.v, ph.n>>

CtxString(family, ctx) ==
  CASE family = "sign" /\ ctx = "A" -> "Signature1"
    [] family = "sign" /\ ctx = "B" -> "Signature"
    [] family = "mac"  /\ ctx = "A" -> "MAC0"
    [] family = "mac"  /\ ctx = "B" -> "MAC"
    [] family = "enc"  /\ ctx = "A" -> "Encrypt0"
    [] family = "enc"  /\ ctx = "B" -> "Encrypt"

\* the to-be-authenticated structure (Sig_structure, MAC_structure, Enc_structure)
Tbs(family, ctx, ph, sp, aad, pay) ==
  CASE family = "sign" /\ ctx = "B" ->
         <<"tbs", CtxString(family, ctx), ProtTerm(ph), ProtTerm(sp), <<"val", aad>>, <<"val", pay>>>>
    [] family = "sign" /\ ctx = "A" ->
         <<"tbs", CtxString(family, ctx), ProtTerm(ph), <<"val", aad>>, <<"val", pay>>>>
    [] family = "mac" ->
         <<"tbs", CtxString(family, ctx), ProtTerm(ph), <<"val", aad>>, <<"val", pay>>>>
    [] family = "enc" ->
         <<"tbs", CtxString(family, ctx), ProtTerm(ph), <<"val", aad>>>>

\* the private half "k" and the public half "p" of an asymmetric key
KeyId(k) == CASE k \in {"k1", "p1"} -> "1"
              [] k \in {"k2", "p2"} -> "2"
              [] OTHER -> "-"
=============================================================================
