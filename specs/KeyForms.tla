------------------------------ MODULE KeyForms ------------------------------
(***************************************************************************)
(* Which key results from components, a dictionary, CBOR, PEM or a         *)
(* generator, and what is refused.                                         *)
(*                                                                         *)
(* EC2 components are named after the key pair they belong to ("p" or     *)
(* "q"); "neg" is the other y of the same x, "bit"/"nbit" only the right / *)
(* the wrong sign of y, "off" an x coordinate of no point, "len" the       *)
(* right coordinate with a zero too much or too few, "bad" a value of a    *)
(* wrong type.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLE c

Sources == {"ctor", "dict", "sub", "cbor"}     \* sub: from_dict of the key class itself
RsaPriv == {"d", "p", "q", "dp", "dq", "qinv"}
RsaMore == {"other", "r_i", "d_i", "t_i"}
None == [none |-> "none"]

Bad  == [out |-> "bad",  x |-> "-", y |-> "-", d |-> "-"]
Open == [out |-> "open", x |-> "-", y |-> "-", d |-> "-"]
Key(x, y, d) == [out |-> "ok", x |-> x, y |-> y, d |-> d]

----------------------------------------------------------------------------
Owner(a) == IF a.x \in {"p", "q"} THEN a.x ELSE IF a.d \in {"p", "q"} THEN a.d ELSE "p"

\* the y coordinate meant by a.y, as the coordinate of a key pair or its negation
GivenY(a) == CASE a.y = "bit" -> Owner(a) [] a.y = "nbit" -> "neg" [] OTHER -> a.y

Ec2(a) ==
  IF a.crv = "okp" /\ a.kty = "other" /\ a.src \in {"dict", "cbor"} THEN Open     \* that may describe a key of another type
  ELSE IF a.crv \in {"okp", "unk", "-"} \/ a.kty \in {"other", "unk"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src \in {"dict", "cbor"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src = "sub" THEN Open
  ELSE IF "bad" \in {a.x, a.y, a.d} THEN Bad
  ELSE IF a.x = "-" /\ a.d = "-" THEN Bad
  ELSE IF a.crv = "other" THEN (IF a.d # "-" /\ (a.x # "-" \/ a.y # "-") THEN Bad ELSE Open)
  ELSE IF a.x = "-" /\ a.y \in {"bit", "nbit"} THEN Open
  ELSE IF a.d # "-" THEN
       IF a.x \notin {"-", a.d} \/ a.y = "len" THEN Bad            \* coordinates have a fixed length
       ELSE IF a.y = "-" \/ GivenY(a) = a.d THEN Key(a.d, a.d, a.d)
       ELSE Bad
  ELSE IF a.x = "off" THEN (IF a.y \in {"-", "bit", "nbit"} THEN Bad ELSE Open)
  ELSE IF a.y = "-" THEN Key(a.x, "either", "-")
  ELSE IF GivenY(a) = "neg" \/ GivenY(a) = a.x THEN Key(a.x, GivenY(a), "-")
  ELSE Open                                              \* a public point that is not on the curve

Ec2Cases ==
  {a \in [src : Sources, x : {"-", "p", "q", "off", "bad"}, y : {"-", "p", "q", "neg", "bit", "nbit", "bad"}, d : {"-", "p", "q", "bad"},
          crv : {"own"}, kty : {"own"}, lz : {"no"}] : TRUE}
  \cup [src : Sources, x : {"-", "p"}, y : {"-", "p", "bit", "neg", "nbit"}, d : {"-", "p"}, crv : {"own"}, kty : {"own"}, lz : {"x", "y", "d"}]
  \cup {a \in [src : Sources, x : {"-", "p", "len"}, y : {"-", "p", "len"}, d : {"p"}, crv : {"own"}, kty : {"own"}, lz : {"no", "x", "y"}] :
          "len" \in {a.x, a.y}}
  \cup [src : Sources, x : {"-", "p"}, y : {"-", "p"}, d : {"-", "p"}, crv : {"own", "other", "okp", "unk", "-"}, kty : {"own", "other", "unk", "-"}, lz : {"no"}]

----------------------------------------------------------------------------
Okp(a) ==
  IF a.crv = "ec2" /\ a.kty = "other" /\ a.src \in {"dict", "cbor"} THEN Open
  ELSE IF a.crv \in {"ec2", "unk", "-"} \/ a.kty \in {"other", "unk"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src \in {"dict", "cbor"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src = "sub" THEN Open
  ELSE IF "bad" \in {a.x, a.d} THEN Bad
  ELSE IF a.x = "-" /\ a.d = "-" THEN Bad
  ELSE IF a.crv = "other" THEN Open
  ELSE Key(a.x, "-", a.d)

OkpCases == [src : Sources, x : {"-", "p", "bad"}, d : {"-", "p", "bad"}, crv : {"own", "other", "ec2", "unk", "-"}, kty : {"own", "other", "unk", "-"}]

----------------------------------------------------------------------------
Sym(a) ==
  IF a.kty \in {"other", "unk"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src \in {"dict", "cbor"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src = "sub" THEN Open
  ELSE IF a.k \in {"-", "short", "bad"} THEN Bad
  ELSE Key("-", "-", "-")

SymCases == [src : Sources, k : {"-", "16", "24", "32", "short", "bad"}, kty : {"own", "other", "unk", "-"}]

----------------------------------------------------------------------------
Rsa(a) ==
  IF a.kty \in {"other", "unk"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src \in {"dict", "cbor"} THEN Bad
  ELSE IF a.kty = "-" /\ a.src = "sub" THEN Open
  ELSE IF a.bad # "-" THEN Bad
  ELSE IF ~({"n", "e"} \subseteq a.have) THEN Bad
  ELSE LET r == a.have \ {"n", "e"} IN
       IF r \in {{}, RsaPriv, RsaPriv \cup RsaMore} THEN Key("-", "-", "-") ELSE Bad

RsaAll == {"n", "e"} \cup RsaPriv
RsaCases ==
       [src : Sources, have : SUBSET RsaAll, kty : {"own"}, bad : {"-"}]
  \cup [src : Sources, have : {RsaAll \cup m : m \in SUBSET RsaMore}, kty : {"own"}, bad : {"-"}]
  \cup [src : Sources, have : {{"n", "e"} \cup m : m \in SUBSET RsaMore}, kty : {"own"}, bad : {"-"}]
  \cup [src : Sources, have : {(RsaAll \ {p}) \cup RsaMore : p \in RsaAll}, kty : {"own"}, bad : {"-"}]
  \cup [src : Sources, have : {{"n", "e"}, RsaAll, RsaAll \cup RsaMore}, kty : {"own", "other", "unk", "-"}, bad : {"-"}]
  \cup {[src |-> s, have |-> h, kty |-> "own", bad |-> b] : s \in Sources, h \in {RsaAll}, b \in RsaAll}
  \cup {[src |-> s, have |-> h, kty |-> "own", bad |-> b] : s \in Sources, h \in {RsaAll \cup RsaMore}, b \in RsaAll \cup RsaMore}

----------------------------------------------------------------------------
\* PEM: fam is the key family of the file, part what is in it, via the entry point
Pem(a) ==
  IF a.fam = "foreign" THEN Bad
  ELSE IF a.via # a.part THEN Bad
  ELSE IF a.opt = "badkty" THEN Bad
  ELSE IF a.pw \in {"wrong", "missing", "superfluous"} THEN Bad
  ELSE Key("p", IF a.fam = "EC2" THEN "p" ELSE "-", IF a.part = "priv" THEN "p" ELSE "-")

PemCases == {a \in [fam : {"EC2", "OKP", "RSA", "foreign"}, part : {"priv", "pub"}, via : {"priv", "pub"}, fmt : {"modern", "old"},
                    pw : {"none", "right", "wrong", "missing", "superfluous"}, opt : {"-", "some", "badkty"}, lz : {"no", "x", "y", "d"}] :
               /\ (a.part = "pub" => a.pw = "none")
               /\ (a.via = "pub" => a.pw \in {"none", "missing"})
               /\ (a.lz # "no" => a.fam = "EC2" /\ a.via = a.part)
               /\ (a.fmt = "old" => a.fam \in {"EC2", "RSA"})
               /\ (a.fmt = "old" /\ a.fam = "EC2" => a.part = "priv")}

----------------------------------------------------------------------------
\* generators; what is the argument: a curve of the type, of another type, unknown; a length
Gen(a) ==
  IF a.arg \in {"foreign", "unk"} THEN Bad
  ELSE IF a.opt = "badkty" THEN Bad
  ELSE CASE a.fam = "EC2" -> Key("p", "p", "p") [] a.fam = "OKP" -> Key("p", "-", "p") [] OTHER -> Key("-", "-", "-")

GenCases == [fam : {"EC2", "OKP", "Sym", "RSA"}, arg : {"own", "foreign", "unk"}, opt : {"-", "some", "badkty"}]

----------------------------------------------------------------------------
\* base64 text of n bytes, in the ordinary or the URL alphabet, with or without padding
Texts == [n : 0..70, alphabet : {"ordinary", "url"}, padded : BOOLEAN]

----------------------------------------------------------------------------
Case(t, a) == [t |-> t, a |-> a]
Expected(x) == CASE x.t = "EC2" -> Ec2(x.a) [] x.t = "OKP" -> Okp(x.a) [] x.t = "Sym" -> Sym(x.a) [] x.t = "RSA" -> Rsa(x.a)
                 [] x.t = "pem" -> Pem(x.a) [] x.t = "gen" -> Gen(x.a)
                 [] x.t = "base64" -> Key("-", "-", "-")

Init == \/ \E a \in Ec2Cases : c = Case("EC2", a)
        \/ \E a \in OkpCases : c = Case("OKP", a)
        \/ \E a \in SymCases : c = Case("Sym", a)
        \/ \E a \in RsaCases : c = Case("RSA", a)
        \/ \E a \in PemCases : c = Case("pem", a)
        \/ \E a \in GenCases : c = Case("gen", a)
        \/ \E a \in Texts : c = Case("base64", a)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
\* every way to state the same components leads to the same key
SameForAll == c.t \in {"EC2", "OKP", "Sym", "RSA"} =>
   \A s \in Sources : (c.a.kty # "-") => LET e == Expected([c EXCEPT !.a.src = s]) IN
      e = Expected(c) \/ "open" \in {e.out, Expected(c).out}

\* an EC2 key never combines parts of different key pairs
OneOwner == (c.t = "EC2" /\ Expected(c).out = "ok") =>
   LET e == Expected(c) IN e.d # "-" => e.x = e.d /\ e.y = e.d

\* whatever is accepted again leads to the same key
Stable == (c.t = "EC2" /\ Expected(c).out = "ok" /\ Expected(c).y # "either") =>
   LET e == Expected(c) IN Ec2([c.a EXCEPT !.x = e.x, !.y = e.y, !.d = e.d]) = e

\* nothing incomplete or of another type is accepted
Complete == Expected(c).out = "ok" =>
   CASE c.t = "EC2" -> c.a.x # "-" \/ c.a.d # "-"
     [] c.t = "RSA" -> {"n", "e"} \subseteq c.a.have
     [] c.t = "Sym" -> c.a.k \in {"16", "24", "32"}
     [] OTHER -> TRUE

Dump == PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
