------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* COSE_KDF_Context objects (RFC 8152, section 11.2) as an application     *)
(* uses them: made by hand or by a recipient, their parts changed, refused *)
(* changes, encoded again and again.  Two objects, so that one must not    *)
(* show in the other.  The encoding is a term of what was set last.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Parts       \* the parts that vary in this run

VARIABLE st

Party == {"uid", "unonce", "uother", "vid", "vnonce", "vother"}
All == Party \cup {"len", "prot", "pub", "priv", "alg"}
\* "-": absent; "e": present and empty, which only the parties' information distinguishes
Vals(f) == CASE f \in Party -> {"-", "e", "a", "b"}
             [] f = "len" -> {"16", "24", "32"}
             [] f = "prot" -> {"-", "empty", "map", "map2", "bytes"}   \* a header as a map or as it was received
             [] f = "alg" -> {"a", "b"}
             [] OTHER -> {"-", "a", "b"}
Default(f) == CASE f = "len" -> "16" [] f = "alg" -> "a" [] OTHER -> "-"
OK(x) == \A f \in All : x[f] \in Vals(f)
Gone == [f \in All |-> "?"]
Plain == [f \in All |-> Default(f)]

Ops == [o : {"make"}, s : Slots]                                   \* nothing given but algorithm and length
       \cup [o : {"full"}, s : Slots, u : Slots]                   \* everything given as it is in u, by hand
       \cup [o : {"recipient"}, s : Slots, u : Slots]              \* by a recipient with these inputs
       \cup [o : {"set"}, s : Slots, f : Parts, v : UNION {Vals(f) : f \in Parts}]
       \cup [o : {"badlen"}, s : Slots]

\* what a recipient can express: the length is that of the algorithm
Expressible(x) == x.len = "16" /\ x.alg = "a"

Enabled(s, o) ==
  CASE o.o = "make" -> TRUE
    [] o.o = "full" -> s[o.u] # Gone
    [] o.o = "recipient" -> s[o.u] # Gone /\ Expressible(s[o.u])
    [] o.o = "set" -> s[o.s] # Gone /\ o.v \in Vals(o.f)
    [] OTHER -> s[o.s] # Gone

Apply(s, o) ==
  CASE o.o = "make" -> [s EXCEPT ![o.s] = Plain]
    [] o.o \in {"full", "recipient"} -> [s EXCEPT ![o.s] = s[o.u]]
    [] o.o = "set" -> [s EXCEPT ![o.s][o.f] = o.v]
    [] OTHER -> s
Result(o) == IF o.o = "badlen" THEN "bad" ELSE "ok"

Opt(x, f) == IF x[f] = "-" THEN <<>> ELSE << <<f, x[f]>> >>
Nil(x, f) == IF x[f] = "-" THEN <<"nil", "-">> ELSE <<f, x[f]>>
\* an empty header is the zero-length string, however it was given
Prot(x) == IF x.prot \in {"-", "empty"} THEN <<"prot", "none">> ELSE <<"prot", x.prot>>
Term(x) == << <<"alg", x.alg>>,
              <<Nil(x, "uid"), Nil(x, "unonce"), Nil(x, "uother")>>,
              <<Nil(x, "vid"), Nil(x, "vnonce"), Nil(x, "vother")>>,
              <<<<"bits", x.len>>, Prot(x)>> \o Opt(x, "pub") >> \o Opt(x, "priv")

Init == st = [s \in Slots |-> Gone]
Next == \E o \in Ops : Enabled(st, o) /\ st' = Apply(st, o)
Spec == Init /\ [][Next]_st

TypeOK == \A s \in Slots : st[s] = Gone \/ OK(st[s])
\* the encoding determines everything, but for the ways to give an empty header
Norm(x) == [x EXCEPT !.prot = IF @ = "empty" THEN "-" ELSE @]
Injective == \A s, t \in Slots : (st[s] # Gone /\ st[t] # Gone) => (Term(st[s]) = Term(st[t]) <=> Norm(st[s]) = Norm(st[t]))
\* a change of one object leaves the other one alone, a refused one leaves both
Local == \A o \in Ops : Enabled(st, o) => \A t \in Slots \ {o.s} : Apply(st, o)[t] = st[t]
Refused == \A o \in Ops : (Enabled(st, o) /\ Result(o) = "bad") => Apply(st, o) = st

Out(x) == IF x = Gone THEN <<>> ELSE Term(x)
Dump == PrintT("@@" \o ToJson([s |-> st, i |-> \A s \in Slots : st[s] = Gone,
                               x |-> {[o |-> o, r |-> [out |-> Result(o), e |-> [s \in Slots |-> Out(Apply(st, o)[s])]], t |-> Apply(st, o)] :
                                        o \in {p \in Ops : Enabled(st, p)}}]))
=============================================================================
