-------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Secrets that the library generates.  A secret is an atom: the n-th one  *)
(* ever drawn is the number n, so no two are equal, whatever was drawn     *)
(* before, in this process or in one that was forked from it, and whatever *)
(* the state of the ordinary pseudo random generator.                      *)
(* An ECDSA nonce is a term of the key and the signed contents: it may be  *)
(* repeated for the same contents under the same key, never otherwise.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Msgs, Contents, Max

VARIABLE st

Classes == {"wrap", "nested", "agreewrap", "agree", "given", "directkey"}
\* what protecting a message with recipients of a class draws, in the order content key, key of the inner level, ephemeral key
Roles(c) == CASE c = "wrap" -> <<"cek">>
              [] c = "nested" -> <<"cek", "kek">>
              [] c = "agreewrap" -> <<"cek", "eph">>
              [] c = "agree" -> <<"eph">>
              [] OTHER -> <<>>                     \* the caller has given the content key
None == [r \in {} |-> 0]

Pos(q, r) == CHOOSE i \in 1..Len(q) : q[i] = r
Drawn(n, c) == [r \in {Roles(c)[i] : i \in 1..Len(Roles(c))} |-> n + Pos(Roles(c), r)]

Start == [n |-> 0, key |-> [k \in Keys |-> 0], msg |-> [m \in Msgs |-> None], nonce |-> {}]

Ops == [o : {"gen"}, k : Keys, via : {"here", "fork"}]
       \cup [o : {"build"}, m : Msgs, c : Classes, via : {"here", "fork"}]
       \cup [o : {"seal"}, m : Msgs]               \* the same content key once more for the same RSA key
       \cup [o : {"sign"}, k : Keys, x : Contents]
       \cup [o : {"seed"}]

Enabled(s, p) ==
  CASE p.o = "gen" -> s.n < Max
    [] p.o = "build" -> s.n + Len(Roles(p.c)) <= Max
    [] p.o = "seal" -> s.n < Max
    [] p.o = "sign" -> s.key[p.k] # 0
    [] OTHER -> TRUE

Res(s, o) == [st |-> s, out |-> o]
Apply(s, p) ==
  CASE p.o = "gen" -> LET n == s.n + 1 IN Res([s EXCEPT !.n = n, !.key[p.k] = n], [key |-> n])
    [] p.o = "build" -> LET d == Drawn(s.n, p.c) IN Res([s EXCEPT !.n = s.n + Len(Roles(p.c)), !.msg[p.m] = d], d)
    [] p.o = "seal" -> Res([s EXCEPT !.n = s.n + 1], [seal |-> s.n + 1])
    [] p.o = "sign" -> Res([s EXCEPT !.nonce = @ \cup {<<s.key[p.k], p.x>>}], [nonce |-> <<s.key[p.k], p.x>>])
    [] OTHER -> Res(s, None)

Do(p) == Enabled(st, p) /\ st' = Apply(st, p).st
Generate == \E p \in {q \in Ops : q.o = "gen"} : Do(p)
Protect  == \E p \in {q \in Ops : q.o \in {"build", "seal"}} : Do(p)
Sign     == \E p \in {q \in Ops : q.o = "sign"} : Do(p)
Seed     == Do([o |-> "seed"])
Init == st = Start
Next == Generate \/ Protect \/ Sign \/ Seed
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
\* all secrets in use, by their owner
Held(s) == {<<"key", k, s.key[k]>> : k \in {x \in Keys : s.key[x] # 0}}
           \cup UNION {{<<"msg", <<m, r>>, s.msg[m][r]>> : r \in DOMAIN s.msg[m]} : m \in Msgs}
\* no two owners hold the same secret
Distinct == \A x, y \in Held(st) : x[3] = y[3] => x = y
Bounded  == \A x \in Held(st) : x[3] \in 1..st.n
\* what is drawn was never held by anything before
New == [][\A x \in Held(st') \ Held(st) : x[3] > st.n]_st
\* nonces of different keys or contents differ
Nonces == \A x \in st.nonce : x[1] \in 1..st.n

Dump == PrintT("@@" \o ToJson([s |-> st, i |-> st = Start,
                               x |-> {[o |-> p, r |-> Apply(st, p).out, t |-> Apply(st, p).st] : p \in {q \in Ops : Enabled(st, q)}}]))
=============================================================================
