------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The IANA COSE registries, as far as the library supports them: RFC 8152 *)
(* (9052, 9053), 8230, 8812, 9054, 9360.  Entries are named by integer     *)
(* identifier, by name in any letter case, or by class.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLE c

\* id :> <<name, class>>
Algorithms ==
  (1 :> <<"A128GCM", "A128GCM">>) @@ (2 :> <<"A192GCM", "A192GCM">>) @@ (3 :> <<"A256GCM", "A256GCM">>) @@
  (4 :> <<"HMAC_256_64", "HMAC25664">>) @@ (5 :> <<"HMAC_256", "HMAC256">>) @@ (6 :> <<"HMAC_384", "HMAC384">>) @@ (7 :> <<"HMAC_512", "HMAC512">>) @@
  (10 :> <<"AES_CCM_16_64_128", "AESCCM1664128">>) @@ (11 :> <<"AES_CCM_16_64_256", "AESCCM1664256">>) @@
  (12 :> <<"AES_CCM_64_64_128", "AESCCM6464128">>) @@ (13 :> <<"AES_CCM_64_64_256", "AESCCM6464256">>) @@
  (14 :> <<"AES_MAC_128_64", "AESMAC12864">>) @@ (15 :> <<"AES_MAC_256_64", "AESMAC25664">>) @@
  (25 :> <<"AES_MAC_128_128", "AESMAC128128">>) @@ (26 :> <<"AES_MAC_256_128", "AESMAC256128">>) @@
  (30 :> <<"AES_CCM_16_128_128", "AESCCM16128128">>) @@ (31 :> <<"AES_CCM_16_128_256", "AESCCM16128256">>) @@
  (32 :> <<"AES_CCM_64_128_128", "AESCCM64128128">>) @@ (33 :> <<"AES_CCM_64_128_256", "AESCCM64128256">>) @@
  (-3 :> <<"A128KW", "A128KW">>) @@ (-4 :> <<"A192KW", "A192KW">>) @@ (-5 :> <<"A256KW", "A256KW">>) @@ (-6 :> <<"DIRECT", "Direct">>) @@
  (-7 :> <<"ES256", "Es256">>) @@ (-8 :> <<"EDDSA", "EdDSA">>) @@ (-35 :> <<"ES384", "Es384">>) @@ (-36 :> <<"ES512", "Es512">>) @@
  (-10 :> <<"DIRECT_HKDF_SHA_256", "DirectHKDFSHA256">>) @@ (-11 :> <<"DIRECT_HKDF_SHA_512", "DirecHKDFSHA512">>) @@
  (-12 :> <<"DIRECT_HKDF_AES_128", "DirectHKDFAES128">>) @@ (-13 :> <<"DIRECT_HKDF_AES_256", "DirectHKDFAES256">>) @@
  (-14 :> <<"SHA-1", "Sha1">>) @@ (-15 :> <<"SHA-256/64", "Sha256Trunc64">>) @@ (-16 :> <<"SHA-256", "Sha256">>) @@
  (-17 :> <<"SHA-512/256", "Sha512Trunc256">>) @@ (-18 :> <<"SHAKE-128", "Shake128">>) @@ (-43 :> <<"SHA-384", "Sha384">>) @@
  (-44 :> <<"SHA-512", "Sha512">>) @@ (-45 :> <<"SHAKE-256", "Shake256">>) @@
  (-25 :> <<"ECDH_ES_HKDF_256", "EcdhEsHKDF256">>) @@ (-26 :> <<"ECDH_ES_HKDF_512", "EcdhEsHKDF512">>) @@
  (-27 :> <<"ECDH_SS_HKDF_256", "EcdhSsHKDF256">>) @@ (-28 :> <<"ECDH_SS_HKDF_512", "EcdhSsHKDF512">>) @@
  (-29 :> <<"ECDH_ES_A128KW", "EcdhEsA128KW">>) @@ (-30 :> <<"ECDH_ES_A192KW", "EcdhEsA192KW">>) @@ (-31 :> <<"ECDH_ES_A256KW", "EcdhEsA256KW">>) @@
  (-32 :> <<"ECDH_SS_A128KW", "EcdhSsA128KW">>) @@ (-33 :> <<"ECDH_SS_A192KW", "EcdhSsA192KW">>) @@ (-34 :> <<"ECDH_SS_A256KW", "EcdhSsA256KW">>) @@
  (-37 :> <<"PS256", "Ps256">>) @@ (-38 :> <<"PS384", "Ps384">>) @@ (-39 :> <<"PS512", "Ps512">>) @@
  (-40 :> <<"RSAES_OAEP_SHA_1", "RsaesOaepSha1">>) @@ (-41 :> <<"RSAES_OAEP_SHA_256", "RsaesOaepSha256">>) @@ (-42 :> <<"RSAES_OAEP_SHA_512", "RsaesOaepSha512">>) @@
  (-257 :> <<"RS256", "RsaPkcs1Sha256">>) @@ (-258 :> <<"RS384", "RsaPkcs1Sha384">>) @@ (-259 :> <<"RS512", "RsaPkcs1Sha512">>) @@ (-65535 :> <<"RS1", "RsaPkcs1Sha1">>)

Headers ==
  (0 :> <<"RESERVED", "Reserved">>) @@ (1 :> <<"ALG", "Algorithm">>) @@ (2 :> <<"CRITICAL", "Critical">>) @@ (3 :> <<"CONTENT_TYPE", "ContentType">>) @@
  (4 :> <<"KID", "KID">>) @@ (5 :> <<"IV", "IV">>) @@ (6 :> <<"PARTIAL_IV", "PartialIV">>) @@ (7 :> <<"COUNTER_SIGN", "CounterSignature">>) @@
  (9 :> <<"COUNTER_SIGN0", "CounterSignature0">>) @@ (10 :> <<"KID_CONTEXT", "KIDContext">>) @@ (32 :> <<"X5_BAG", "X5bag">>) @@
  (33 :> <<"X5_CHAIN", "X5chain">>) @@ (34 :> <<"X5_T", "X5t">>) @@ (35 :> <<"X5_U", "X5u">>) @@
  (-1 :> <<"EPHEMERAL_KEY", "EphemeralKey">>) @@ (-2 :> <<"STATIC_KEY", "StaticKey">>) @@ (-3 :> <<"STATIC_KEY_ID", "StaticKeyID">>) @@
  (-20 :> <<"SALT", "Salt">>) @@ (-21 :> <<"PARTY_U_ID", "PartyUID">>) @@ (-22 :> <<"PARTY_U_NONCE", "PartyUNonce">>) @@ (-23 :> <<"PARTY_U_OTHER", "PartyUOther">>) @@
  (-24 :> <<"PARTY_V_ID", "PartyVID">>) @@ (-25 :> <<"PARTY_V_NONCE", "PartyVNonce">>) @@ (-26 :> <<"PARTY_V_OTHER", "PartyVOther">>)

Curves == (0 :> <<"RESERVED", "Reserved">>) @@ (1 :> <<"P_256", "P256">>) @@ (2 :> <<"P_384", "P384">>) @@ (3 :> <<"P_521", "P521">>) @@ (4 :> <<"X25519", "X25519">>) @@
          (5 :> <<"X448", "X448">>) @@ (6 :> <<"ED25519", "Ed25519">>) @@ (7 :> <<"ED448", "Ed448">>) @@ (8 :> <<"SECP256K1", "SECP256K1">>)
KeyTypes == (0 :> <<"RESERVED", "KtyReserved">>) @@ (1 :> <<"OKP", "KtyOKP">>) @@ (2 :> <<"EC2", "KtyEC2">>) @@ (3 :> <<"RSA", "KtyRSA">>) @@ (4 :> <<"SYMMETRIC", "KtySymmetric">>)
KeyOps == (1 :> <<"SIGN", "SignOp">>) @@ (2 :> <<"VERIFY", "VerifyOp">>) @@ (3 :> <<"ENCRYPT", "EncryptOp">>) @@ (4 :> <<"DECRYPT", "DecryptOp">>) @@
          (5 :> <<"WRAP", "WrapOp">>) @@ (6 :> <<"UNWRAP", "UnwrapOp">>) @@ (7 :> <<"DERIVE_KEY", "DeriveKeyOp">>) @@ (8 :> <<"DERIVE_BITS", "DeriveBitsOp">>) @@
          (9 :> <<"MAC_CREATE", "MacCreateOp">>) @@ (10 :> <<"MAC_VERIFY", "MacVerifyOp">>)
Common == (1 :> <<"KTY", "KpKty">>) @@ (2 :> <<"KID", "KpKid">>) @@ (3 :> <<"ALG", "KpAlg">>) @@ (4 :> <<"KEY_OPS", "KpKeyOps">>) @@ (5 :> <<"BASE_IV", "KpBaseIV">>)
Ec2Params == Common @@ (-1 :> <<"CURVE", "EC2KpCurve">>) @@ (-2 :> <<"X", "EC2KpX">>) @@ (-3 :> <<"Y", "EC2KpY">>) @@ (-4 :> <<"D", "EC2KpD">>)
OkpParams == Common @@ (-1 :> <<"CURVE", "OKPKpCurve">>) @@ (-2 :> <<"X", "OKPKpX">>) @@ (-4 :> <<"D", "OKPKpD">>)
SymParams == Common @@ (-1 :> <<"K", "SymKpK">>)
RsaParams == Common @@ (-1 :> <<"N", "RSAKpN">>) @@ (-2 :> <<"E", "RSAKpE">>) @@ (-3 :> <<"D", "RSAKpD">>) @@ (-4 :> <<"P", "RSAKpP">>) @@ (-5 :> <<"Q", "RSAKpQ">>) @@
             (-6 :> <<"DP", "RSAKpDP">>) @@ (-7 :> <<"DQ", "RSAKpDQ">>) @@ (-8 :> <<"QINV", "RSAKpQInv">>) @@ (-9 :> <<"OTHER", "RSAKpOther">>) @@
             (-10 :> <<"R_I", "RSAKpRi">>) @@ (-11 :> <<"D_I", "RSAKpDi">>) @@ (-12 :> <<"T_I", "RSAKpTi">>)

Registries == [alg |-> Algorithms, hdr |-> Headers, crv |-> Curves, kty |-> KeyTypes, ops |-> KeyOps, common |-> Common, ec2 |-> Ec2Params, okp |-> OkpParams,
               sym |-> SymParams, rsa |-> RsaParams]
Kinds == DOMAIN Registries

Spellings == {"id", "name", "lower", "upper", "swap", "class"}
Candidates == -300..300 \cup {-65534, -65535, -65536}

\* what an identifier, or a name that is none, resolves to
Resolve(k, i) == IF i \in DOMAIN Registries[k] THEN Registries[k][i][2] ELSE "none"

NameCases == UNION {[k : {k}, i : DOMAIN Registries[k], s : Spellings] : k \in Kinds}
IdCases == {x \in [k : Kinds, i : Candidates, s : {"id"}] : x.i \notin DOMAIN Registries[x.k]}
OddCases == [k : Kinds, i : {0}, s : {"longer", "shorter", "space", "of others", "empty", "bytes", "none", "digits", "class name", "float"}]

\* names that are almost those of an entry: without its underscores, with other separators, with blanks around, with a part missing or too much, its class
NearCases == UNION {[k : {k}, i : DOMAIN Registries[k], s : {"squashed", "separators", "padded", "clipped", "extended", "decimal", "class text"}] : k \in Kinds}
NamesOf(k) == {Registries[k][i][1] : i \in DOMAIN Registries[k]}

Init == c \in NameCases \cup IdCases \cup OddCases \cup NearCases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Expected(x) == IF x \in OddCases \cup NearCases THEN "none" ELSE Resolve(x.k, x.i)
NameOf(x) == IF x \in NameCases THEN Registries[x.k][x.i][1] ELSE "none"
\* names and classes are unique in a registry, so that name, class and identifier determine each other
Unique == \A k \in Kinds : \A i, j \in DOMAIN Registries[k] : (Registries[k][i][1] = Registries[k][j][1] \/ Registries[k][i][2] = Registries[k][j][2]) => i = j
Dump == PrintT("@@" \o ToJson([c |-> c, e |-> [cls |-> Expected(c), name |-> NameOf(c)]
              @@ (IF c \in NearCases THEN [near |-> Registries[c.k][c.i], all |-> NamesOf(c.k)] ELSE [near |-> <<>>])]))

----------------------------------------------------------------------------
(* Sizes in bytes. *)
AeadSizes == \* id :> <<key, tag, nonce>>
  (1 :> <<16, 16, 12>>) @@ (2 :> <<24, 16, 12>>) @@ (3 :> <<32, 16, 12>>) @@
  (10 :> <<16, 8, 13>>) @@ (11 :> <<32, 8, 13>>) @@ (12 :> <<16, 8, 7>>) @@ (13 :> <<32, 8, 7>>) @@
  (30 :> <<16, 16, 13>>) @@ (31 :> <<32, 16, 13>>) @@ (32 :> <<16, 16, 7>>) @@ (33 :> <<32, 16, 7>>)
MacSizes == \* id :> <<key, tag>>; the key of HMAC may have another length
  (4 :> <<32, 8>>) @@ (5 :> <<32, 32>>) @@ (6 :> <<48, 48>>) @@ (7 :> <<64, 64>>) @@ (14 :> <<16, 8>>) @@ (15 :> <<32, 8>>) @@ (25 :> <<16, 16>>) @@ (26 :> <<32, 16>>)
KwSizes == (-3 :> <<16>>) @@ (-4 :> <<24>>) @@ (-5 :> <<32>>)
CurveSizes == \* id :> <<key type, coordinate>>
  (1 :> <<2, 32>>) @@ (2 :> <<2, 48>>) @@ (3 :> <<2, 66>>) @@ (8 :> <<2, 32>>) @@ (4 :> <<1, 32>>) @@ (5 :> <<1, 56>>) @@ (6 :> <<1, 32>>) @@ (7 :> <<1, 57>>)
EcdsaSizes == \* id :> <<curve, signature>>
  (-7 :> <<1, 64>>) @@ (-35 :> <<2, 96>>) @@ (-36 :> <<3, 132>>)
EcdhSizes == \* id :> <<digest length of the HKDF hash, key wrap algorithm>>, -6 for the derived key itself
  (-25 :> <<32, -6>>) @@ (-26 :> <<64, -6>>) @@ (-27 :> <<32, -6>>) @@ (-28 :> <<64, -6>>) @@
  (-29 :> <<32, -3>>) @@ (-30 :> <<32, -4>>) @@ (-31 :> <<32, -5>>) @@ (-32 :> <<32, -3>>) @@ (-33 :> <<32, -4>>) @@ (-34 :> <<32, -5>>)
EddsaSizes == (6 :> <<64>>) @@ (7 :> <<114>>)
HashSizes == (-14 :> <<20>>) @@ (-15 :> <<8>>) @@ (-16 :> <<32>>) @@ (-17 :> <<32>>) @@ (-18 :> <<32>>) @@ (-43 :> <<48>>) @@ (-44 :> <<64>>) @@ (-45 :> <<64>>)
Sizes == [aead |-> AeadSizes, mac |-> MacSizes, kw |-> KwSizes, crv |-> CurveSizes, ecdsa |-> EcdsaSizes, ecdh |-> EcdhSizes, eddsa |-> EddsaSizes, hash |-> HashSizes]
SizeCases == UNION {[k : {k}, i : DOMAIN Sizes[k]] : k \in DOMAIN Sizes}
InitSizes == c \in SizeCases
SpecSizes == InitSizes /\ [][Next]_c
Sane == /\ \A i \in DOMAIN AeadSizes : i \in DOMAIN Algorithms /\ AeadSizes[i][1] \in {16, 24, 32} /\ AeadSizes[i][3] \in {7, 12, 13}
        /\ \A i \in DOMAIN EcdsaSizes : EcdsaSizes[i][2] = 2 * CurveSizes[EcdsaSizes[i][1]][2]
        /\ \A i \in DOMAIN CurveSizes : i \in DOMAIN Curves
DumpSizes == PrintT("@@" \o ToJson([c |-> c, e |-> Sizes[c.k][c.i]]))
=============================================================================
