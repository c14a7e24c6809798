------------------------------- MODULE Signers -------------------------------
(***************************************************************************)
(* Two COSE_Sign messages and their signer objects.  Signers are given to  *)
(* a message by its constructor or by assignment, may be moved from one    *)
(* message to the other, or be in both.  A signer signs the contents of    *)
(* the message that is encoded, and verifies against the contents of the   *)
(* message it was given to.                                                *)
(*                                                                         *)
(* con: contents (payload and protected header) of a message               *)
(* lst: the signers a message has                                          *)
(* sig: the contents the signature in a signer object covers               *)
(* own: the message a signer belongs to; "?" where that is left open       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Msgs, Sgs, Cons

VARIABLE st

Other(m) == CHOOSE n \in Msgs : n # m

InitStates == {[con |-> [m \in Msgs |-> c], lst |-> [m \in Msgs |-> {}], sig |-> [s \in Sgs |-> "-"], own |-> [s \in Sgs |-> "-"]] : c \in Cons}

Res(s, o) == [st |-> s, out |-> o]

\* who belongs where after message m was given the signers S: those taken from m belong nowhere for sure
Owners(s, m, S) == [g \in Sgs |-> IF g \in S THEN m
                                  ELSE IF g \in s.lst[m] THEN (IF s.own[g] = m \/ g \in s.lst[Other(m)] THEN "?" ELSE s.own[g])
                                  ELSE s.own[g]]

Apply(s, op) ==
  CASE op.name = "set" -> Res([s EXCEPT !.lst[op.m] = op.S, !.own = Owners(s, op.m, op.S)], "ok")
    [] op.name = "new" -> Res([s EXCEPT !.lst[op.m] = op.S, !.con[op.m] = op.c, !.own = Owners(s, op.m, op.S)], "ok")
    [] op.name = "con" -> Res([s EXCEPT !.con[op.m] = op.c], "ok")
    [] op.name = "enc" -> Res([s EXCEPT !.own = [g \in Sgs |-> IF g \in s.lst[op.m] THEN (IF g \in s.lst[Other(op.m)] THEN "?" ELSE op.m) ELSE @[g]]],
                              s.con[op.m])
    [] op.name = "recv" -> Res([s EXCEPT !.sig = [g \in Sgs |-> IF g \in s.lst[op.m] THEN s.con[op.m] ELSE @[g]],
                                         !.own = [g \in Sgs |-> IF g \in s.lst[op.m] THEN op.m ELSE @[g]]], "ok")
    [] op.name = "ver" -> Res(s, IF s.sig[op.g] # "-" /\ s.sig[op.g] = s.con[s.own[op.g]] THEN "true" ELSE "bad")

Ops(s) ==
       {[name |-> "set", m |-> m, S |-> S] : m \in Msgs, S \in SUBSET Sgs}
  \cup {[name |-> "new", m |-> m, S |-> S, c |-> c] : m \in Msgs, S \in SUBSET Sgs, c \in Cons}
  \cup {[name |-> "con", m |-> m, c |-> c] : m \in Msgs, c \in Cons}
  \cup {[name |-> "enc", m |-> m] : m \in {x \in Msgs : s.lst[x] # {}}}
  \cup {[name |-> "recv", m |-> m] : m \in {x \in Msgs : s.lst[x] # {} /\ s.lst[x] \cap s.lst[Other(x)] = {}}}
  \cup {[name |-> "ver", g |-> g] : g \in {x \in Sgs : s.own[x] \in Msgs}}

Do(op)   == st' = Apply(st, op).st
Give     == \E op \in {o \in Ops(st) : o.name \in {"set", "new"}} : Do(op)
Change   == \E op \in {o \in Ops(st) : o.name = "con"} : Do(op)
Send     == \E op \in {o \in Ops(st) : o.name \in {"enc", "recv"}} : Do(op)
Verify   == \E op \in {o \in Ops(st) : o.name = "ver"} : Do(op)

Init == st \in InitStates
Next == Give \/ Change \/ Send \/ Verify
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == /\ st.con \in [Msgs -> Cons] /\ st.lst \in [Msgs -> SUBSET Sgs]
          /\ st.sig \in [Sgs -> Cons \cup {"-"}] /\ st.own \in [Sgs -> Msgs \cup {"-", "?"}]

\* a signer that belongs to a message is one of its signers, and one that was just given to it belongs to it
Member == \A g \in Sgs : st.own[g] \in Msgs => g \in st.lst[st.own[g]]
Taken  == \A op \in Ops(st) : op.name \in {"set", "new"} => \A g \in op.S : Apply(st, op).st.own[g] = op.m

\* nothing verifies over contents it was not made for, whatever way the signer took
Authentic == \A op \in Ops(st) : (op.name = "ver" /\ Apply(st, op).out = "true") => st.sig[op.g] = st.con[st.own[op.g]]

\* after transport every signer of the message verifies, until its contents change
Received == \A op \in Ops(st) : op.name = "recv" =>
              LET t == Apply(st, op).st IN \A g \in t.lst[op.m] : Apply(t, [name |-> "ver", g |-> g]).out = "true"

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st \in InitStates,
           x |-> {[o |-> op, r |-> Apply(st, op).out, t |-> Apply(st, op).st] : op \in Ops(st)}]))
=============================================================================
