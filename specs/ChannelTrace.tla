---------------------------- MODULE ChannelTrace ----------------------------
(***************************************************************************)
(* Histories recorded from the library: every recorded call must be a step *)
(* of Channel with the recorded outcome, and the contents of the objects   *)
(* seen afterwards those of the specification.  The values that occur are  *)
(* not bounded here; the properties are evaluated in every state.          *)
(***************************************************************************)
EXTENDS Channel

Traces == JsonDeserialize("traces.json")
VARIABLES k, n

Ev(j, m) == Traces[j].ev[m]
Seen(s, t) ==       \* what was observed of one object
  LET o == s.obj[t.i] IN /\ o.typ = t.typ /\ o.ph = t.ph /\ o.sp = t.sp /\ o.pay = t.pay /\ o.aad = t.aad /\ o.key = t.key /\ o.iv = t.iv
Allowed(s, e) == LET r == Apply(s, e.o) IN r.out = e.r /\ \A x \in DOMAIN e.t : Seen(r.st, e.t[x])

TInit == /\ k \in DOMAIN Traces /\ n = 1
         /\ st = [al |-> Traces[k].init.al, obj |-> [i \in DOMAIN Traces[k].init.typ |-> Blank(Traces[k].init.typ[i])], net |-> <<>>, sent |-> {}]
TNext == /\ n <= Len(Traces[k].ev) /\ Allowed(st, Ev(k, n))
         /\ st' = Apply(st, Ev(k, n).o).st /\ n' = n + 1 /\ k' = k
TSpec == TInit /\ [][TNext]_<<st, k, n>>

\* always true; reports the step that the specification does not allow
Conforms == (n <= Len(Traces[k].ev) /\ ~Allowed(st, Ev(k, n))) =>
               PrintT("@@" \o ToJson([k |-> k, n |-> n, r |-> Apply(st, Ev(k, n).o).out, t |-> Apply(st, Ev(k, n).o).st.obj]))
=============================================================================
