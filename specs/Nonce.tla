-------------------------------- MODULE Nonce --------------------------------
(***************************************************************************)
(* The nonce of content encryption (RFC 8152, section 3.1, IV and Partial  *)
(* IV): the IV header; without one, the Base IV of the key xor the Partial *)
(* IV, left-padded with zeros to the length of the Base IV.                *)
(* Byte strings are sequences of 0..255.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bitwise

CONSTANTS Lens,       \* nonce lengths (12: AES-GCM; 13, 7: AES-CCM)
          Types, Sides

VARIABLE c

Pats == {"zero", "ff", "ramp", "top", "low", "mix"}
Byte(p, i, n) == CASE p = "zero" -> 0
                   [] p = "ff"   -> 255
                   [] p = "ramp" -> i
                   [] p = "top"  -> IF i = 1 THEN 128 ELSE 0
                   [] p = "low"  -> IF i = n THEN 1 ELSE 0
                   [] p = "mix"  -> (i * 89 + n * 37 + 165) % 256
Str(p, n) == [i \in 1..n |-> Byte(p, i, n)]
Zeros(n)  == [i \in 1..n |-> 0]

Pad(s, n) == Zeros(n - Len(s)) \o s
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Bad       == [ok |-> FALSE, n |-> <<>>]
Good(s)   == [ok |-> TRUE, n |-> s]

\* ivs, pivs: the values in the buckets (at most one bucket each may have one); base: <<>> or <<Base IV>>
Nonce(ivs, pivs, base) ==
  IF Len(ivs) > 1 THEN Bad
  ELSE IF Len(ivs) = 1 THEN Good(ivs[1])
  ELSE IF Len(base) = 0 THEN Bad
  ELSE IF Len(pivs) # 1 THEN Bad
  ELSE IF Len(pivs[1]) > Len(base[1]) THEN Bad
  ELSE Good(XorSeq(base[1], Pad(pivs[1], Len(base[1]))))

In == {"-", "p", "u", "both"}
Times(w, s) == CASE w = "-" -> <<>> [] w = "both" -> <<s, s>> [] OTHER -> <<s>>

Ivs(x)  == Times(x.iv, Str(x.ip, x.il))
Pivs(x) == Times(x.piv, Str(x.pp, x.pl))
Base(x) == IF x.base = "-" THEN <<>> ELSE <<Str(x.base, x.len)>>
Expected(x) == LET e == Nonce(Ivs(x), Pivs(x), Base(x)) IN
               \* an IV of no length is no nonce
               IF e.ok /\ Len(e.n) = 0 THEN Bad ELSE e

Cases == UNION {
  \* an IV header: with and without a Base IV in the key
  {x \in [len : {n}, type : Types, side : Sides, iv : {"p", "u", "both"}, ip : Pats, il : {n}, piv : {"-"}, pp : {"zero"}, pl : {0}, base : {"-", "mix", "ff"}] : TRUE}
  \cup {x \in [len : {n}, type : Types, side : Sides, iv : {"p", "u"}, ip : {"zero"}, il : {0}, piv : {"-"}, pp : {"zero"}, pl : {0}, base : {"-", "mix"}] : TRUE}
  \* next to a Partial IV an IV header is still the nonce, or refused; the Partial IV never takes its place
  \cup {x \in [len : {n}, type : Types, side : Sides, iv : {"p", "u"}, ip : {"ramp", "zero"}, il : {0, n}, piv : {"p", "u"}, pp : {"low", "mix"}, pl : {1, n}, base : {"-", "mix"}] :
        x.il = 0 => x.ip = "zero"}
  \* none
  \cup {x \in [len : {n}, type : Types, side : Sides, iv : {"-"}, ip : {"zero"}, il : {0}, piv : In, pp : Pats, pl : 0..(n + 2), base : Pats \cup {"-"}] :
        /\ x.piv = "-" => x.pl = 0 /\ x.pp = "zero"
        /\ x.pl = 0 => x.pp = "zero"
        /\ x.piv = "both" => x.pp \in {"ff", "zero"} /\ x.pl <= 2
        \* longer than the Base IV but not greater: open
        /\ ~(x.base # "-" /\ x.pl > n /\ \A i \in 1..(x.pl - n) : Byte(x.pp, i, x.pl) = 0)}
  : n \in Lens}

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
FullLength == LET e == Expected(c) IN e.ok => Len(e.n) = c.len
\* different Partial IVs (as numbers) never give the same nonce, and the sender's nonce is the receiver's
Distinct   == (c.iv = "-" /\ c.base # "-" /\ c.piv \in {"p", "u"} /\ c.pl \in 1..c.len) =>
                \A q \in 1..c.len, p \in {"ff", "low", "zero"} :
                   LET d == [c EXCEPT !.pl = q, !.pp = p] IN
                     Expected(d).n = Expected(c).n <=> Pad(Str(p, q), c.len) = Pad(Str(c.pp, c.pl), c.len)
OneSided   == \A s \in Sides : Expected([c EXCEPT !.side = s]) = Expected(c)
NoReuse    == (c.iv = "-" /\ c.piv = "-") => ~Expected(c).ok

Lax == c.iv # "-" /\ c.piv # "-"                  \* may be refused
IvFirst == c.iv \in {"p", "u"} /\ c.il > 0 => Expected(c) = Good(Str(c.ip, c.il))

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> [ok |-> Expected(c).ok, n |-> Expected(c).n, lax |-> Lax]]))
=============================================================================
