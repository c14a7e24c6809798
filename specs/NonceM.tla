-------------------------------- MODULE NonceM --------------------------------
(***************************************************************************)
(* A COSE_Encrypt0 or COSE_Encrypt object whose headers and key change     *)
(* between operations: the nonce is always formed from what it holds now.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ivs, Pivs, Bases      \* abstract values; "-" means absent

VARIABLE st

\* "bad": a Partial IV longer than every Base IV
Buckets == {"p", "u"}
Hdr == {h \in [iv : Ivs \cup {"-"}, piv : Pivs \cup {"-"}] : h.iv = "-" \/ h.piv = "-"}
States == {s \in [p : Hdr, u : Hdr, base : Bases \cup {"-"}] :
             \* IV and Partial IV are not combined in one message
             ~(\E b, d \in Buckets : s[b].iv # "-" /\ s[d].piv # "-")}

NonceOf(s) ==
  IF s.p.iv # "-" /\ s.u.iv # "-" THEN <<"bad">>
  ELSE IF s.p.iv # "-" THEN <<"iv", s.p.iv>>
  ELSE IF s.u.iv # "-" THEN <<"iv", s.u.iv>>
  ELSE IF s.base = "-" THEN <<"bad">>
  ELSE IF s.p.piv # "-" /\ s.u.piv # "-" THEN <<"bad">>
  ELSE IF s.p.piv = "-" /\ s.u.piv = "-" THEN <<"bad">>
  ELSE LET v == IF s.p.piv # "-" THEN s.p.piv ELSE s.u.piv IN
       IF v = "long" THEN <<"bad">> ELSE <<"xor", s.base, v>>

Ops == [k : {"assign", "update"}, b : Buckets, h : Hdr]
       \cup [k : {"base", "key"}, v : Bases \cup {"-"}]
       \cup [k : {"encrypt", "decrypt", "transport"}]

Enabled(s, o) == CASE o.k = "update" -> o.h.iv # "-" \/ o.h.piv # "-"
                   [] OTHER -> TRUE
Merge(h, g) == [iv |-> IF g.iv # "-" THEN g.iv ELSE h.iv, piv |-> IF g.piv # "-" THEN g.piv ELSE h.piv]
Apply(s, o) == CASE o.k = "assign" -> [s EXCEPT ![o.b] = o.h]
                 [] o.k = "update" -> [s EXCEPT ![o.b] = Merge(s[o.b], o.h)]
                 [] o.k \in {"base", "key"} -> [s EXCEPT !.base = o.v]
                 [] OTHER -> s
Result(s, o) == IF o.k \in {"encrypt", "decrypt"} THEN NonceOf(s) ELSE <<"ok">>

Assign(b, h) == st' = Apply(st, [k |-> "assign", b |-> b, h |-> h]) /\ st' \in States
Update(b, h) == Enabled(st, [k |-> "update", b |-> b, h |-> h]) /\ st' = Apply(st, [k |-> "update", b |-> b, h |-> h]) /\ st' \in States
SetBase(v)   == st' = Apply(st, [k |-> "base", v |-> v])
SwapKey(v)   == st' = Apply(st, [k |-> "key", v |-> v])

Init == st \in {s \in States : s.p = s.u /\ s.p.iv = "-" /\ s.p.piv = "-"}
Next == \/ \E b \in Buckets, h \in Hdr : Assign(b, h) \/ Update(b, h)
        \/ \E v \in Bases \cup {"-"} : SetBase(v) \/ SwapKey(v)
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
TypeOK == st \in States
\* an IV decides alone; a change of the Base IV changes every nonce formed from it
IvAlone == (NonceOf(st)[1] = "iv") => \A v \in Bases \cup {"-"} : NonceOf([st EXCEPT !.base = v]) = NonceOf(st)
BaseCounts == (NonceOf(st)[1] = "xor") => \A v \in Bases : (v # st.base) => NonceOf([st EXCEPT !.base = v]) # NonceOf(st)
\* the bucket does not matter
Symmetric == NonceOf([st EXCEPT !.p = st.u, !.u = st.p]) = NonceOf(st)

Legal == {o \in Ops : Enabled(st, o) /\ Apply(st, o) \in States}
Dump == PrintT("@@" \o ToJson([s |-> st, i |-> (st.p = st.u /\ st.p.iv = "-" /\ st.p.piv = "-"),
                               x |-> {[o |-> o, r |-> Result(st, o), t |-> Apply(st, o)] : o \in Legal}]))
=============================================================================
