----------------------------- MODULE KeysTrace -----------------------------
(***************************************************************************)
(* Histories of several key objects of all types, recorded from the        *)
(* library, with any parameter changing at any time.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES st, k, n        \* st: the sequence of [kty, s]
Traces == JsonDeserialize("traces.json")

E == INSTANCE Keys WITH Kty <- "EC2", Focus <- "own"
O == INSTANCE Keys WITH Kty <- "OKP", Focus <- "own"
R == INSTANCE Keys WITH Kty <- "RSA", Focus <- "own"
Y == INSTANCE Keys WITH Kty <- "Sym", Focus <- "own"

KApply(q, o) == CASE q.kty = "EC2" -> E!Apply(q.s, o)
                  [] q.kty = "OKP" -> O!Apply(q.s, o)
                  [] q.kty = "RSA" -> R!Apply(q.s, o)
                  [] q.kty = "Sym" -> Y!Apply(q.s, o)
KUsable(q) == CASE q.kty = "EC2" -> E!Usable(q.s)
                [] q.kty = "OKP" -> O!Usable(q.s)
                [] q.kty = "RSA" -> R!Usable(q.s)
                [] q.kty = "Sym" -> Y!Usable(q.s)
Ev(j, m) == Traces[j].ev[m]
App(e, s) == KApply(s[e.o.i], e.o)
After(s, e) == [s EXCEPT ![e.o.i].s = App(e, s).st]
Allowed(s, e) == /\ App(e, s).out \in {"open", e.r}
                 /\ \A x \in DOMAIN e.t : After(s, e)[e.t[x].i].s = e.t[x].s

TInit == /\ k \in DOMAIN Traces /\ n = 1 /\ st = Traces[k].init
TNext == /\ n <= Len(Traces[k].ev) /\ Allowed(st, Ev(k, n))
         /\ st' = After(st, Ev(k, n)) /\ n' = n + 1 /\ k' = k
TSpec == TInit /\ [][TNext]_<<st, k, n>>

Usable == \A i \in DOMAIN st : KUsable(st[i])
Typed  == \A i \in DOMAIN st : \A p \in DOMAIN st[i].s : st[i].s[p] \in {"-", "1", "2", "3"}

Conforms == (n <= Len(Traces[k].ev) /\ ~Allowed(st, Ev(k, n))) =>
               PrintT("@@" \o ToJson([k |-> k, n |-> n, r |-> App(Ev(k, n), st).out, t |-> After(st, Ev(k, n))]))
=============================================================================
