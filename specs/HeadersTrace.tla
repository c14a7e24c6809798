---------------------------- MODULE HeadersTrace ----------------------------
(***************************************************************************)
(* Histories of several objects of any kind with many header parameters,   *)
(* recorded from the library: every recorded call is a step of Headers on  *)
(* one object with the recorded outcome, and all objects look as specified *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Headers

Traces == JsonDeserialize("traces.json")
VARIABLES k, n          \* st is the sequence of the states of the objects

Ev(j, m) == Traces[j].ev[m]
After(s, e) == [s EXCEPT ![e.o.i] = Apply(s[e.o.i], e.o).st]
Seen(o, t) == o.p = t.p /\ o.u = t.u /\ (o.src = "recv" => t.raw)
Allowed(s, e) == /\ Apply(s[e.o.i], e.o).out = e.r
                 /\ \A x \in DOMAIN e.t : Seen(After(s, e)[e.t[x].i], e.t[x])

TInit == /\ k \in DOMAIN Traces /\ n = 1 /\ st = Traces[k].init
TNext == /\ n <= Len(Traces[k].ev) /\ Allowed(st, Ev(k, n))
         /\ st' = After(st, Ev(k, n)) /\ n' = n + 1 /\ k' = k
TSpec == TInit /\ [][TNext]_<<st, k, n>>

\* the invariants of Headers, of every object
Types == \A i \in DOMAIN st : st[i].p \in Maps /\ st[i].u \in Maps /\ st[i].src \in {"own", "recv"}
AllGood == \A i \in DOMAIN st : ~IsBad(st[i].p) /\ ~IsBad(st[i].u)

Conforms == (n <= Len(Traces[k].ev) /\ ~Allowed(st, Ev(k, n))) =>
               PrintT("@@" \o ToJson([k |-> k, n |-> n, r |-> Apply(st[Ev(k, n).o.i], Ev(k, n).o).out, t |-> After(st, Ev(k, n))]))
=============================================================================
