----------------------------- MODULE GroupTrace -----------------------------
(***************************************************************************)
(* Histories of a group recorded from the library: every recorded call     *)
(* must be a step of Group with the recorded outcome.  What can be seen of *)
(* a sent message (who its entries are for, what they carry) was examined  *)
(* with an independent implementation and is part of the record.           *)
(***************************************************************************)
EXTENDS Group

Traces == JsonDeserialize("traces.json")
VARIABLES k, n

Ev(j, m) == Traces[j].ev[m]
Seen(s, t) == \* lists of recipients of the sender's messages
  \A i \in DOMAIN t : s.m[i].rs = t[i]
Allowed(s, e) == LET r == Apply(s, e.o) IN r.out = e.r /\ Seen(r.st, e.t)

TInit == /\ k \in DOMAIN Traces /\ n = 1
         /\ LET i == Traces[k].init IN st = Start(i.kind, i.algs, i.given, i.msgs, i.nrx)
TNext == /\ n <= Len(Traces[k].ev) /\ Allowed(st, Ev(k, n))
         /\ st' = Apply(st, Ev(k, n).o).st /\ n' = n + 1 /\ k' = k
TSpec == TInit /\ [][TNext]_<<st, k, n>>

\* always true; reports the step that the specification does not allow
Conforms == (n <= Len(Traces[k].ev) /\ ~Allowed(st, Ev(k, n))) =>
               PrintT("@@" \o ToJson([k |-> k, n |-> n, r |-> Apply(st, Ev(k, n).o).out, t |-> Apply(st, Ev(k, n).o).st.m]))
=============================================================================
