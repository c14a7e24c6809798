------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* A group of parties, each with a recipient object of the sender, several *)
(* messages of COSE_Encrypt and COSE_Mac that the sender protects for      *)
(* changing lists of them, and a network that gives the receivers any      *)
(* message with any entries of the recipient lists that were ever sent.    *)
(*                                                                         *)
(* Recipient objects live longer than messages: the one that wraps a       *)
(* content key keeps it until it is given another ("ck"), the one that     *)
(* derives it keeps its ephemeral key until it is renewed ("ep").          *)
(*                                                                         *)
(* Content keys are numbered in the order in which they are first used;    *)
(* st.known describes them.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NWrap, NAgree, NDirect,    \* parties of each kind
          Algs,       \* content algorithms of the model: subset of {"e16", "e32", "e32b", "m16", "m"}
          Nmsg, Nrx,  \* objects of the sender and of the receivers
          Given,      \* content keys provided by the caller
          Pays, Aads,
          MaxSent

VARIABLE st

None == [t |-> "none", x |-> "", s |-> 0, e |-> 0, len |-> 0]
GivenKey(s, x) == [t |-> "given", x |-> x, s |-> 0, e |-> 0, len |-> s.given[x]]

\* an algorithm: [fam, len]; len 0: keys of any length
Fits(s, k, a) == s.algs[a].len \in {0, k.len}
Want(s, a)    == IF s.algs[a].len = 0 THEN 32 ELSE s.algs[a].len

Range(q)      == {q[i] : i \in DOMAIN q}
KindsOf(s, l) == {s.kind[i] : i \in Range(l)}
Permitted(s, l) == /\ l # <<>>
                   /\ "direct" \in KindsOf(s, l) => KindsOf(s, l) = {"direct"}
                   /\ "agree" \in KindsOf(s, l) => Len(l) = 1
Held(s, l)    == {s.ck[i] : i \in Range(l)} \ {None}

Derived(s, i, ep, a) == [t |-> "agreed", x |-> a, s |-> i, e |-> ep, len |-> Want(s, a)]
NewKey(s, a)         == [t |-> "new", x |-> "", s |-> 0, e |-> Len(s.known) + 1, len |-> Want(s, a)]

\* the content key of message m, None if it cannot be protected; g: the key of the message (for direct encryption)
ContentKey(s, m, g) ==
  LET l == m.rs k == KindsOf(s, l) IN
  IF ~Permitted(s, l) THEN None
  ELSE LET c == IF k = {"direct"} THEN GivenKey(s, g)
                ELSE IF k = {"agree"} THEN Derived(s, l[1], s.ep[l[1]], m.alg)
                ELSE IF Cardinality(Held(s, l)) > 1 THEN None
                ELSE IF Held(s, l) = {} THEN NewKey(s, m.alg)
                ELSE CHOOSE h \in Held(s, l) : TRUE
       IN IF c # None /\ Fits(s, c, m.alg) THEN c ELSE None

Learn(q, c)  == IF c \in Range(q) THEN q ELSE Append(q, c)
Number(q, c) == CHOOSE n \in DOMAIN q : q[n] = c

Res(s, o) == [st |-> s, out |-> o]

\* what the holder of the key of party o obtains from entry e in a message with algorithm a
Obtained(s, e, o, a) == IF o # e.s THEN None
                        ELSE IF s.kind[e.s] = "agree" THEN Derived(s, e.s, e.e, a) ELSE e.c
Slots(ents) == [n \in DOMAIN ents |-> ents[n].s]
Opens(s, x, n, g) ==
  LET r == s.rx[x] b == s.sent[r.w] e == r.ents[n] IN
  /\ r.w # 0
  /\ Permitted(s, Slots(r.ents))
  /\ (IF s.kind[e.s] = "direct" THEN GivenKey(s, g) ELSE Obtained(s, e, r.key[n], b.alg)) = b.key
  /\ r.aad = b.aad

Apply(s, op) ==
  CASE op.name = "assign"  -> Res([s EXCEPT !.m[op.i].rs = op.l], "ok")
    [] op.name = "pay"     -> Res([s EXCEPT !.m[op.i].pay = op.v], "ok")
    [] op.name = "aad"     -> Res([s EXCEPT !.m[op.i].aad = op.v], "ok")
    [] op.name = "alg"     -> Res([s EXCEPT !.m[op.i].alg = op.v], "ok")
    [] op.name = "give"    -> Res([s EXCEPT !.ck[op.s] = IF op.v = "-" THEN None ELSE GivenKey(s, op.v)], "ok")
    [] op.name = "renew"   -> Res([s EXCEPT !.ep[op.s] = @ + 1], "ok")
    [] op.name = "protect" ->
         LET m == s.m[op.i] c == ContentKey(s, m, op.g) IN
         IF c = None THEN Res(s, "bad")
         ELSE LET q == Learn(s.known, c) IN
              Res([s EXCEPT !.known = q,
                            !.ck = [i \in DOMAIN @ |-> IF i \in Range(m.rs) /\ s.kind[i] = "wrap" THEN c ELSE @[i]],
                            !.sent = Append(@, [alg |-> m.alg, pay |-> m.pay, aad |-> m.aad, key |-> c,
                                                ents |-> [n \in DOMAIN m.rs |-> [s |-> m.rs[n], c |-> IF s.kind[m.rs[n]] = "wrap" THEN c ELSE None,
                                                                                 e |-> s.ep[m.rs[n]]]]])],
                  ToString(Number(q, c)))
    [] op.name = "receive" ->        \* the contents of message op.w with the entries op.ents = <<[w, n], ...>> of any messages
         Res([s EXCEPT !.rx[op.x] = [w |-> op.w, aad |-> "z",
                                     ents |-> [j \in DOMAIN op.ents |-> s.sent[op.ents[j].w].ents[op.ents[j].n]],
                                     key |-> [j \in DOMAIN op.ents |-> 0]]], "ok")
    [] op.name = "key"     -> Res([s EXCEPT !.rx[op.x].key[op.n] = op.o], "ok")
    [] op.name = "rxaad"   -> Res([s EXCEPT !.rx[op.x].aad = op.v], "ok")
    [] op.name = "open"    -> Res(s, IF Opens(s, op.x, op.n, op.g) THEN s.sent[s.rx[op.x].w].pay ELSE "bad")
    [] op.name = "foreign" -> Res(s, "bad")    \* message op.x through an entry of the other message op.y

\* ------------------------------------------------------------- bounded model
Parties == 1..(NWrap + NAgree + NDirect)
Kinds   == [i \in Parties |-> IF i <= NWrap THEN "wrap" ELSE IF i <= NWrap + NAgree THEN "agree" ELSE "direct"]
Lists   == {q \in UNION {[1..n -> Parties] : n \in 1..2} : Len(q) = 1 \/ q[1] # q[2]}
Entries(s) == UNION {{[w |-> w, n |-> n] : n \in DOMAIN s.sent[w].ents} : w \in DOMAIN s.sent}
EntLists(s) == UNION {[1..n -> Entries(s)] : n \in 1..2}
HasKind(k) == {i \in Parties : Kinds[i] = k}
Gs(s, l) == IF KindsOf(s, l) = {"direct"} THEN Given ELSE {"-"}

Ops(s) ==
       {[name |-> "assign", i |-> i, l |-> l] : i \in 1..Nmsg, l \in Lists}
  \cup {[name |-> "pay", i |-> i, v |-> v] : i \in 1..Nmsg, v \in Pays}
  \cup {[name |-> "aad", i |-> i, v |-> v] : i \in 1..Nmsg, v \in Aads}
  \cup {[name |-> "alg", i |-> i, v |-> a] : i \in 1..Nmsg, a \in Algs}
  \cup {[name |-> "give", s |-> i, v |-> v] : i \in HasKind("wrap"), v \in Given \cup {"-"}}
  \cup {[name |-> "renew", s |-> i] : i \in {j \in HasKind("agree") : s.ep[j] < 2}}
  \cup UNION {{[name |-> "protect", i |-> i, g |-> g] : g \in Gs(s, s.m[i].rs)} : i \in {j \in 1..Nmsg : Len(s.sent) < MaxSent}}
  \cup {[name |-> "receive", x |-> x, w |-> w, ents |-> e] : x \in 1..Nrx, w \in DOMAIN s.sent, e \in EntLists(s)}
  \cup UNION {{[name |-> "key", x |-> x, n |-> n, o |-> o] : n \in DOMAIN s.rx[x].ents, o \in {0} \cup Parties} : x \in 1..Nrx}
  \cup {[name |-> "rxaad", x |-> x, v |-> v] : x \in {y \in 1..Nrx : s.rx[y].w # 0}, v \in Aads}
  \cup UNION {{[name |-> "open", x |-> x, n |-> n, g |-> g] : n \in DOMAIN s.rx[x].ents, g \in Gs(s, Slots(s.rx[x].ents))} : x \in {y \in 1..Nrx : s.rx[y].w # 0}}

AlgTable == [a \in {"e16", "e32", "e32b", "m16", "m"} |->
               CASE a = "e16" -> [fam |-> "enc", len |-> 16] [] a \in {"e32", "e32b"} -> [fam |-> "enc", len |-> 32]
                 [] a = "m16" -> [fam |-> "mac", len |-> 16] [] a = "m" -> [fam |-> "mac", len |-> 0]]
GivenTable == [g \in {"p", "q", "-"} |-> IF g = "p" THEN 16 ELSE 32]
Start(kind, algs, given, as, nrx) ==
  [kind |-> kind, algs |-> algs, given |-> given, known |-> <<>>, sent |-> <<>>,
   m |-> [i \in DOMAIN as |-> [alg |-> as[i], rs |-> <<>>, pay |-> "a", aad |-> "z"]],
   ck |-> [i \in DOMAIN kind |-> None], ep |-> [i \in DOMAIN kind |-> 1],
   rx |-> [x \in 1..nrx |-> [w |-> 0, aad |-> "z", ents |-> <<>>, key |-> <<>>]]]

Do(op) == st' = Apply(st, op).st
Compose == \E op \in {o \in Ops(st) : o.name \in {"assign", "pay", "aad", "alg", "give", "renew"}} : Do(op)
Protect == \E op \in {o \in Ops(st) : o.name = "protect"} : Do(op)
Network == \E op \in {o \in Ops(st) : o.name = "receive"} : Do(op)
Receiver == \E op \in {o \in Ops(st) : o.name \in {"key", "rxaad", "open"}} : Do(op)
Init == \E as \in [1..Nmsg -> Algs] : st = Start(Kinds, AlgTable, GivenTable, as, Nrx)
Next == Compose \/ Protect \/ Network \/ Receiver
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
\* every entry of a message carries (or derives) the one content key of the message, which fits its algorithm
OneKey(s) == \A w \in DOMAIN s.sent : LET b == s.sent[w] IN
   /\ Permitted(s, Slots(b.ents)) /\ Fits(s, b.key, b.alg) /\ b.key \in Range(s.known)
   /\ \A n \in DOMAIN b.ents : s.kind[b.ents[n].s] # "direct" => Obtained(s, b.ents[n], b.ents[n].s, b.alg) = b.key
EntriesAgree == OneKey(st)

\* every party on the list opens the message as it was sent
AllOpen(s) == \A w \in DOMAIN s.sent : LET b == s.sent[w] IN
   \A n \in DOMAIN b.ents :
      LET r == [w |-> w, aad |-> b.aad, ents |-> b.ents, key |-> [j \in DOMAIN b.ents |-> IF j = n THEN b.ents[n].s ELSE 0]]
      IN Opens([s EXCEPT !.rx[1] = r], 1, n, IF b.key.t = "given" THEN b.key.x ELSE "-")
EveryRecipient == AllOpen(st)

\* whatever the network does, a party opens a message only under a content key that the sender gave to this party,
\* and only with the external data of the sender
OnlyRecipients(s) == \A x \in DOMAIN s.rx : s.rx[x].w # 0 =>
   \A n \in DOMAIN s.rx[x].ents : \A g \in DOMAIN s.given :
      LET b == s.sent[s.rx[x].w] o == s.rx[x].key[n] IN
      Opens(s, x, n, g) =>
         /\ s.rx[x].aad = b.aad
         /\ IF b.key.t = "given" /\ b.key.x = g /\ s.kind[s.rx[x].ents[n].s] = "direct" THEN TRUE
            ELSE \E u \in DOMAIN s.sent : s.sent[u].key = b.key /\ o \in Range(Slots(s.sent[u].ents))
NobodyElse == OnlyRecipients(st)

\* two messages have the same content key only if the caller gave it, or a recipient (object) of both carried it over
KeysApart(s) == \A u, v \in DOMAIN s.sent : (u < v /\ s.sent[u].key = s.sent[v].key /\ s.sent[u].key.t # "given") =>
   \E w \in 1..(v - 1) : s.sent[w].key = s.sent[v].key /\ Range(Slots(s.sent[w].ents)) \cap Range(Slots(s.sent[v].ents)) # {}
FreshKeys == KeysApart(st)

TypeOK == /\ \A i \in DOMAIN st.ck : st.ck[i] = None \/ (st.kind[i] = "wrap" /\ (st.ck[i].t = "given" \/ st.ck[i] \in Range(st.known)))
          /\ \A x \in DOMAIN st.rx : st.rx[x].w \in 0..Len(st.sent) /\ DOMAIN st.rx[x].ents = DOMAIN st.rx[x].key
=============================================================================
