"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Signatures verify exactly on what was signed, by whom, in which message type",
 "A COSE_Sign1 message, and every signer of a COSE_Sign message, verifies (returns True) after transport with the signer's public key, the same external AAD and the same (attached or detached) payload, for every registered signature algorithm and matching key. "
 "If the protected headers (of the body or of the signer), the payload, the external AAD, the signature bytes, the message type or the key differ from what was signed, verification never returns True. "
 "The answer depends only on the current contents of the message object, not on how often or in which order it was set up, signed, verified or re-encoded before.",
 ["inputs", "histories"],
 "All signature algorithms, curves and key sizes; payloads, headers and AADs of any length; any sequence of setter calls, encodings, decodings and verifications; any modification of the bytes in transit.",
 "The tests replay a fixed set of RFC vectors and never modify a message in transit, never reuse a message object after changing it, and sample one key per curve.",
 ["pycose/messages/signcommon.py", "pycose/messages/sign1message.py", "pycose/messages/signmessage.py", "pycose/messages/signer.py", "pycose/algorithms.py"],
 [("signature structure", "Sign1Message / CoseSignature, built from the message contents on every call"), ("primitive calls", "pycose/algorithms.py: _Ecdsa, EdDSA, _RsaPss, _RsaPkcs1")],
 [("message object", "headers, payload, external AAD, key, signature", "pycose/messages/*.py")],
 ["Sign1Message.encode/decode/verify_signature", "CoseSignature.verify_signature", "SignMessage.encode/decode"])

prop("C02", "MAC tags verify exactly on what was authenticated",
 "A COSE_Mac0 or COSE_Mac message verifies (returns True) after transport with the same key, external AAD and payload, for every registered MAC algorithm. "
 "If the protected headers, the payload, the external AAD, any byte of the tag, its length, the message type or the key differ from what was authenticated, verification never returns True. "
 "The answer depends only on the current contents of the message object, not on its history.",
 ["inputs", "histories"],
 "All HMAC and AES-MAC algorithms; payloads, headers and AADs of any length; any sequence of setter calls, tag computations, encodings, decodings and verifications; any modification of the bytes in transit, truncated and extended tags included.",
 "The tests only replay passing RFC vectors; no test modifies a tag, a header or the payload, and none reuses a message object.",
 ["pycose/messages/maccommon.py", "pycose/messages/mac0message.py", "pycose/messages/macmessage.py", "pycose/algorithms.py"],
 [("MAC structure", "MacCommon"), ("tag comparison and truncation", "pycose/algorithms.py: _HMAC, _AesMac")],
 [("message object", "headers, payload, external AAD, key, tag", "pycose/messages/maccommon.py")],
 ["Mac0Message/MacMessage encode, decode, compute_tag, verify_tag"])

prop("C03", "Decryption returns exactly the encrypted plaintext or fails",
 "A COSE_Encrypt0 or COSE_Encrypt message decrypts after transport to exactly the plaintext that was encrypted, given the same key, external AAD and nonce, for every registered content-encryption algorithm. "
 "If the protected headers, the external AAD, the nonce, any byte of the ciphertext or tag, the message type or the key differ, decryption raises and never yields a plaintext. "
 "The result depends only on the current contents of the message object, not on its history.",
 ["inputs", "histories"],
 "All AES-GCM and AES-CCM algorithms; plaintexts, headers and AADs of any length, empty ones included; any sequence of setter calls, encryptions, encodings, decodings and decryptions; any modification of the bytes in transit.",
 "The tests replay passing RFC vectors and never tamper with a ciphertext or change a message object between operations.",
 ["pycose/messages/enccommon.py", "pycose/messages/enc0message.py", "pycose/messages/encmessage.py", "pycose/algorithms.py"],
 [("Enc_structure as AAD", "EncCommon"), ("AEAD calls", "pycose/algorithms.py: _AesGcm, _AesCcm")],
 [("message object", "headers, payload, external AAD, key, nonce", "pycose/messages/enccommon.py")],
 ["Enc0Message/EncMessage encode, decode, encrypt, decrypt"])

prop("C04", "Protection interoperates with RFC 8152: both directions, all message types",
 "The signature, tag or ciphertext of every message type is the one RFC 8152 defines: an independent implementation of the standard accepts what this library produces, and this library accepts what it produces, for every algorithm and for every way the protected header can be serialized. "
 "An empty protected header is always authenticated as a zero-length string, and the six message types authenticate under distinct contexts, so moving a protected body between types never verifies.",
 ["inputs", "configurations"],
 "Six message types, all algorithms, empty and non-empty protected headers (canonical or not, h'' or an encoded empty map), all presence combinations of payload, detached payload and external AAD, for body and signers.",
 "The vectors cover a fraction of the combinations (no empty signer header, no non-canonical header, few algorithms) and a library that changes both directions alike still passes a round-trip test.",
 ["pycose/messages/cosemessage.py", "pycose/messages/signer.py", "pycose/messages/sign1message.py", "pycose/messages/maccommon.py", "pycose/messages/enccommon.py", "pycose/algorithms.py"],
 [("context strings and empty-header rule", "CoseMessage base structure and the context attribute of each message class")],
 (), ["bytes produced by encode(), acceptance by decode()+verify/decrypt"])

prop("C05", "The wire format round-trips; received protected headers keep their exact bytes",
 "Encoding emits the CBOR tag and array that RFC 8152 defines for the message type, and decoding yields a message whose headers, payload and authentication data equal those encoded. "
 "A protected header that was received is authenticated and re-emitted exactly as received, however it was serialized, as long as it is not changed. "
 "Encoding with the tag disabled emits the same array without the tag.",
 ["inputs", "histories"],
 "All message types and recipient/signer structures, all header value types, canonical and non-canonical serializations of the protected header, tagged and untagged output, messages re-encoded any number of times.",
 "Tests compare a few canonical vectors; non-canonical protected headers, re-encoding of decoded messages and nested structures are not exercised.",
 ["pycose/messages/cosebase.py", "pycose/messages/cosemessage.py", "pycose/messages/enc0message.py", "pycose/messages/mac0message.py", "pycose/messages/sign1message.py", "pycose/messages/recipient.py", "pycose/messages/signer.py"],
 [("cached encoded protected header", "CoseBase"), ("encode of each message class", "pycose/messages/*.py")],
 [("encoded protected header", "bytes as received, until the bucket is changed", "pycose/messages/cosebase.py")],
 ["encode()", "decode()", "phdr_encoded", "phdr", "uhdr", "payload"])

prop("C06", "Header parameters have one identity; buckets hold exactly what was last set",
 "A header parameter denotes the same entry whether it is named by its class, its integer label or its registered name (in any letter case), in the constructor, in assignment and in update, and is found under its class afterwards, also in received messages; on the wire it appears once, under its integer label. "
 "After any sequence of assignments and updates each bucket contains exactly the resulting entries, and what is encoded, authenticated and looked up afterwards is those entries. "
 "A lookup of a parameter present in both buckets is refused, and a lookup of an absent one returns the caller's default.",
 ["histories", "inputs"],
 "All registered parameters and private labels, all spellings, any sequence of constructor, assignment, update, encode, decode and lookup operations on both buckets.",
 "Tests construct headers once; sequences of updates after encoding or decoding, mixed spellings and duplicated parameters across buckets are only sampled.",
 ["pycose/messages/cosebase.py", "pycose/headers.py", "pycose/utils.py"],
 [("label canonicalisation", "_CoseAttribute.from_id"), ("bucket setters and updates drop the cached encoding", "CoseBase")],
 [("header buckets", "parameter -> value, protected and unprotected", "pycose/messages/cosebase.py")],
 ["phdr, uhdr, phdr_update, uhdr_update, get_attr, encode, decode"])

prop("C07", "Typed header values and the unknown-parameter policy are enforced everywhere",
 "Byte-string parameters (KID, IV, Partial IV, KID context, COUNTER_SIGN0), CRITICAL and CONTENT_TYPE accept exactly the values their definition allows, header parameters that carry a key exactly what describes a key, and an unknown algorithm is refused, wherever the header comes from (constructor, assignment, update, received message, recipient or signer). "
 "Unregistered labels are kept unchanged when unknown attributes are allowed, and refused in every layer of the message when they are not.",
 ["inputs", "configurations"],
 "All registered parameters x all CBOR value types and boundary values x both buckets x every entry point and nesting layer x both settings of the unknown-attribute switch.",
 "Tests cover a few (parameter, bad value) pairs on one message class and one entry point.",
 ["pycose/headers.py", "pycose/messages/cosebase.py", "pycose/utils.py", "pycose/algorithms.py", "pycose/messages/recipient.py", "pycose/messages/signer.py"],
 [("value parsers", "pycose/headers.py"), ("allow_unknown_attributes", "CoseBase, CoseMessage.decode, CoseRecipient, CoseSignature")],
 (), ["constructors, phdr/uhdr assignment and update, CoseMessage.decode(allow_unknown_attributes=...)"])

prop("C08", "No key is used for an operation, algorithm or key type it is not meant for",
 "Every cryptographic operation - sign, verify, MAC create/verify, encrypt, decrypt, key wrap/unwrap and both sides of key agreement - succeeds only with a key of the right type (and curve) whose algorithm, if present, equals the algorithm of the layer it is used in, and whose key operations, if present, allow that operation; otherwise it raises and produces nothing. "
 "A key satisfying these conditions is never refused for them, and a message or recipient without a key or without an algorithm is refused.",
 ["configurations", "inputs"],
 "All operations x all key types and curves x key algorithm absent, equal, different x all 1024 subsets of the ten key operations x algorithm in the protected, unprotected or no bucket.",
 "Tests check a handful of illegal combinations on single-layer messages, none on recipients.",
 ["pycose/keys/cosekey.py", "pycose/messages/signcommon.py", "pycose/messages/maccommon.py", "pycose/messages/enccommon.py", "pycose/messages/recipient.py", "pycose/algorithms.py"],
 [("key verification", "CoseKey.verify and its callers"), ("curve checks", "pycose/algorithms.py")],
 (), ["every message operation taking a key"])

prop("C09", "Symmetric keys have the length their algorithm requires",
 "A symmetric key object always holds a byte string of 16, 24 or 32 bytes, however it is built, decoded, generated or changed. "
 "AES content encryption, AES-MAC and AES key wrap work exactly with keys of the length the algorithm names and refuse every other length, on both sides; keys generated for recipients of a message have the length the content algorithm requires.",
 ["inputs", "configurations"],
 "All AES-GCM, AES-CCM, AES-MAC and AES-KW algorithms and ECDH+KW variants x all key lengths x both directions x every construction path.",
 "Tests use one correct key per vector and a few wrong construction lengths.",
 ["pycose/keys/symmetric.py", "pycose/algorithms.py", "pycose/messages/enccommon.py", "pycose/messages/encmessage.py", "pycose/messages/recipient.py"],
 [("k setter", "SymmetricKey"), ("key length checks", "EncCommon, _AesMac, _AesKw")],
 (), ["SymmetricKey(...), from_dict, decode, generate_key, k; encrypt/decrypt/compute_tag/verify_tag/encode"])

prop("C10", "Every recipient of a message recovers the content key, and nobody else does",
 "For a COSE_Encrypt or COSE_Mac message with any permitted set of recipients (direct, AES key wrap, RSA-OAEP, ECDH-ES/SS with key wrap or direct derivation, and key wrap through nested recipients), each recipient holding its own key recovers the plaintext or verifies the tag, before and after the message object is reused for another message. "
 "With any other key, for any other recipient's entry, or after any change to the encrypted content key or to the x coordinate of the sender's public key, the operation never succeeds. "
 "All recipients of one message are given the same content key.",
 ["inputs", "configurations", "histories"],
 "All recipient algorithms, curves and content algorithms; one to three recipients in any order; preset and generated content keys and ephemeral keys; the right key, every wrong key of the same kind, tampered recipient entries; messages encoded repeatedly.",
 "Tests replay vectors with a single recipient of each class for COSE_Encrypt; COSE_Mac with wrapped or agreed keys, several recipients, nesting and failure cases are untested.",
 ["pycose/messages/recipient.py", "pycose/messages/encmessage.py", "pycose/messages/macmessage.py", "pycose/algorithms.py"],
 [("CEK distribution", "EncMessage.encrypt / MacMessage.compute_tag"), ("CEK recovery", "compute_cek, decrypt of the recipient classes")],
 [("recipient object", "key, payload (CEK or wrapped CEK), nested recipients", "pycose/messages/recipient.py")],
 ["encode(), decode(), decrypt(recipient), verify_tag(recipient)"])

prop("C11", "Forbidden recipient structures are refused when sending and receiving",
 "Direct encryption must not be combined with any other recipient class, a direct key agreement recipient must be the only one, and neither may carry recipients of its own or a non-empty ciphertext where the standard forbids it; key wrap classes must carry a ciphertext, AES key wrap and direct recipients an empty protected header, and ephemeral algorithms an ephemeral key. "
 "A message violating this is refused - never processed as if the offending recipient were absent - and a permitted structure is never refused. "
 "Assigning a list of recipients makes it the complete list of recipients.",
 ["configurations", "inputs"],
 "All multisets of up to three recipient classes, nesting up to two levels, presence or absence of each required or forbidden part, on the sending and the receiving side.",
 "Tests only contain well-formed single-recipient messages plus two malformed ones.",
 ["pycose/messages/recipient.py", "pycose/messages/encmessage.py", "pycose/messages/macmessage.py"],
 [("structure checks", "CoseRecipient.verify_recipients, from_cose_obj and encode of the recipient classes")],
 [("recipient list", "list of recipient objects", "EncMessage / MacMessage / CoseRecipient")],
 ["recipients, encode(), decode(), decrypt(), verify_tag()"])

prop("C12", "Derived keys depend on exactly the KDF context of RFC 8152",
 "The key derived by ECDH key agreement is HKDF, with the algorithm's hash and the salt of the recipient, over the shared secret and the COSE_KDF_Context built from target algorithm, key length, PartyU/PartyV identity, nonce and other, the recipient's protected header as transmitted, and the public and private supplementary information. "
 "An independent implementation derives the same key for every combination of these, and if any of them differs between the two sides the message is rejected. "
 "A context object, made by hand or by a recipient, always encodes to exactly what was last set in it, whatever is set, re-used or refused in between, and key lengths other than 16, 24 and 32 bytes are refused.",
 ["inputs", "configurations", "histories"],
 "All presence combinations of the nine context inputs, each altered on one side, in either header bucket, for all ECDH algorithms, curves and target algorithms, protected headers canonical or not.",
 "The RFC vectors use three context combinations; salt and non-canonical protected headers never occur and no context value is ever altered.",
 ["pycose/messages/context.py", "pycose/messages/recipient.py", "pycose/algorithms.py"],
 [("KDF context", "CoseRecipient.get_kdf_context, CoseKDFContext.encode"), ("HKDF", "_EcdhHkdf.derive_kek")],
 (), ["encode(), decode(), decrypt(recipient)", "CoseKDFContext(...), SuppPubInfo(...), PartyInfo(...), get_kdf_context(alg)"])

prop("C13", "Key objects stay valid under every sequence of changes",
 "Whatever sequence of attribute assignments, item assignments of common parameters and deletions is applied to an EC2, OKP, RSA or symmetric key, it keeps its key type and a curve of that type and never loses the values that make it a usable key of that type; a refused change leaves the key exactly as it was. "
 "A parameter is the same entry under its class, integer label or name, unregistered parameters can be added and removed freely, and key operations can only be set to operations the key type supports.",
 ["histories"],
 "All sequences of set, delete and lookup operations over all parameters in all spellings, valid and invalid values, starting from public, private and full keys of every type.",
 "Tests delete a few parameters of EC2 and symmetric keys once; no sequence of changes is ever explored and refused changes are not checked for side effects.",
 ["pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py"],
 [("deletion guards", "__delitem__ of the key classes"), ("setters", "properties of the key classes")],
 [("parameter store", "parameter -> value", "CoseKey")],
 ["attributes, item access, del, in, len, encode"])

prop("C14", "Keys survive every representation unchanged",
 "A key built from components, from a dictionary in any spelling, from CBOR or from PEM, or generated, encodes - by itself or inside a message header - to a CBOR map with integer labels and decodes to a key with the same parameters; public and private values agree, coordinates keep the fixed length of their curve including leading zeros, and a missing or sign-bit-only y coordinate is reconstructed to the right point. "
 "Values that do not belong together - wrong key type, wrong curve for the type, mismatching public and private parts of an EC2 key, missing mandatory values - are refused. The base64 helpers of keys are inverses of each other and read both alphabets, padded or not.",
 ["inputs"],
 "All key types and curves, all spellings of parameters and values, keys with leading-zero coordinates or small private values, PEM public and private keys with and without password, all incomplete or inconsistent parameter sets.",
 "Tests use a handful of fixed keys; leading-zero coordinates occur with probability 1/256 and are not among them, and compressed points with a sign bit are untested.",
 ["pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/keys/curves.py", "pycose/keys/keyparam.py"],
 [("codec", "CoseKey.from_dict/encode/decode/from_pem_*"), ("point derivation", "EC2Key.__init__")],
 (), ["constructors, from_dict, decode, encode, from_pem_private_key, from_pem_public_key, generate_key"])

prop("C15", "Decoding yields the message type the tag says, or fails",
 "Decoding accepts exactly the six COSE tags with an array of the shape of that type and returns an object of that type; decoding through a specific message class accepts only that class. "
 "Untagged, wrongly tagged, truncated, short or wrongly typed input raises an exception and never yields a message.",
 ["inputs"],
 "All tags, all array lengths up to the full structure, wrong CBOR types at every position, every truncation point, random bytes, each through the base class and each message class.",
 "Tests cover a few malformed inputs; truncation points and type confusion per position are unbounded.",
 ["pycose/messages/cosemessage.py", "pycose/messages/cosebase.py", "pycose/messages/recipient.py", "pycose/messages/signmessage.py"],
 [("tag dispatch", "CoseMessage.decode"), ("field checks", "from_cose_obj of the message classes")],
 (), ["CoseMessage.decode and decode of every message class"])

prop("C16", "The nonce is the IV, or Base IV xor Partial IV at full length",
 "Content encryption uses the IV header of the message, from either bucket, as nonce; without one it uses the key's Base IV xor the Partial IV left-padded with zeros to the length of the Base IV. "
 "If neither can be formed, or the Partial IV does not fit, the operation raises, for encryption and decryption alike.",
 ["inputs"],
 "All IV, Base IV and Partial IV byte values and lengths, leading and trailing zeros, results with leading zero bytes, every presence combination and bucket.",
 "One vector uses a Partial IV, with no leading zero in the result.",
 ["pycose/messages/enccommon.py", "pycose/keys/cosekey.py", "pycose/headers.py"],
 [("nonce computation", "EncCommon")],
 (), ["encode()/decrypt() of COSE_Encrypt0 and COSE_Encrypt"])

prop("C17", "Objects are isolated: no operation changes other objects or caller data",
 "Creating, changing, encoding, decoding, protecting or verifying one message, recipient, signer or key leaves every other such object and every dictionary, list or byte string passed by the caller unchanged, except for the recipients and signers the message itself was given. "
 "The result of an operation depends only on the current contents of the objects it is given, so operations on different objects can be interleaved in any order without changing any result.",
 ["histories", "schedules"],
 "All interleavings of operations on several messages, keys, signers and recipients, objects created with default arguments, shared keys, failed operations in between.",
 "Each test uses fresh objects and looks only at the object it operates on.",
 ["pycose/messages/cosebase.py", "pycose/messages/cosemessage.py", "pycose/messages/recipient.py", "pycose/messages/context.py", "pycose/messages/signmessage.py", "pycose/keys/cosekey.py"],
 [("copying of headers and parameters", "CoseBase, key constructors")],
 [("all live objects", "messages, recipients, signers, keys", "pycose")],
 ["every public operation"])

prop("C18", "Exactly one payload is signed: attached or detached, never neither nor both",
 "Signing and verifying COSE_Sign1 and COSE_Sign use the attached payload, or a detached payload passed to the call when the message has none; supplying both or neither is refused. "
 "A detached payload never appears in the encoded message, an empty payload is distinct from an absent one, and re-encoding a received COSE_Sign1 without signing keeps its signature valid.",
 ["inputs", "histories"],
 "Attached payload absent, empty, non-empty x detached payload absent, empty, non-empty x sign or verify x before or after transport x re-encoding.",
 "Two tests cover one detached example each; empty payloads and illegal combinations on verification are not covered.",
 ["pycose/messages/sign1message.py", "pycose/messages/signmessage.py", "pycose/messages/signer.py", "pycose/messages/signcommon.py"],
 [("payload choice", "Sign1Message and CoseSignature signature structures")],
 [("payload", "bytes or None", "CoseMessage")],
 ["encode(detached_payload=, sign=), verify_signature(detached_payload=)"])

prop("C19", "Certificate thumbprints are the registered hash and match only their cert",
 "Each registered hash algorithm computes its standard digest, at the registered (truncated) length. "
 "A thumbprint made from a certificate encodes to the algorithm and digest, decodes to an equal thumbprint, matches that certificate in plain or CBOR-wrapped form, and matches no other byte string; a thumbprint without a digest matches nothing.",
 ["inputs"],
 "All hash algorithms, certificates of any length and content, single-bit changes, truncated or extended digests, both encodings.",
 "Tests use one certificate with one or two algorithms.",
 ["pycose/extensions/x509.py", "pycose/algorithms.py"],
 [("hash computation and truncation", "_HashAlg"), ("comparison", "X5T")],
 (), ["compute_hash, X5T.from_certificate/encode/decode/matches"])

prop("C20", "Every object has a text representation, and it reveals no secret key",
 "str() and repr() of every message, recipient, signer and key succeed in every state these objects can reach, including detached or missing contents, unregistered parameters and nested structures, and change nothing. "
 "The text never contains the private or symmetric key value, in raw or hexadecimal form.",
 ["histories", "inputs"],
 "All message, recipient and key types in all reachable states: empty, detached, protected, decoded, with custom parameters and embedded keys.",
 "Tests print a few fully populated objects.",
 ["pycose/utils.py", "pycose/messages/cosebase.py", "pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py"],
 [("truncation", "pycose/utils.py, __repr__ of all classes")],
 (), ["repr(), str()"])

prop("C21", "Registered identifiers, names and sizes are IANA's and resolve uniquely",
 "Every supported header parameter, algorithm, curve, key type, key operation and key parameter has its IANA identifier, and identifier, name (in any letter case) and class all resolve to the same entry; unknown ones are refused. "
 "Key, tag, digest and coordinate sizes of algorithms and curves are those of the registry, and the identifiers are what appears on the wire.",
 ["configurations"],
 "All entries of all registries, in all spellings, and all integers around them.",
 "Tests touch the identifiers that occur in the vectors; an identifier or size wrong on both sides round-trips.",
 ["pycose/headers.py", "pycose/algorithms.py", "pycose/utils.py", "pycose/keys/curves.py", "pycose/keys/keytype.py", "pycose/keys/keyops.py", "pycose/keys/keyparam.py"],
 [("registries", "register_attribute / from_id")],
 (), ["from_id of the registries, header and key labels, encode()"])

prop("C22", "Certificate bags, chains and references carry exactly what they were given",
 "An X5Bag or X5Chain made from one certificate, given as a byte string or as a list of one, encodes to that byte string; made from several it encodes to the list of exactly these, in their order. An X5U encodes to its URI. "
 "Sent as the value of their header parameter in either bucket of any layer and rebuilt from what is received, they carry the same certificates or URI, and making one changes nothing the caller passed.",
 ["inputs", "histories"],
 "Lists of every length, equal certificates, certificates of any content, both header buckets, every spelling of the label, objects made from each other's encoding.",
 "Tests build one or two objects and compare the constructor argument.",
 ["pycose/extensions/x509.py", "pycose/headers.py", "pycose/messages/cosebase.py"],
 [("one or many certificates", "X5Bag, X5Chain"), ("reference", "X5U")],
 (), ["X5Bag/X5Chain/X5U constructors and encode(), header parameters X5bag, X5chain, X5u"])

prop("C23", "Generated keys, content keys, ephemeral keys and nonces are never repeated",
 "Every symmetric, EC2, OKP and RSA key the library generates, every content key and key encryption key it generates for the recipients of a message, every ephemeral key it generates and every RSA-OAEP encryption is new: "
 "no two are equal, whatever was generated before, in this process or one forked from it, and whatever the state of Python's ordinary random generator; every byte of a generated key varies. "
 "Two ECDSA signatures of different contents or under different keys never share their nonce. A content key given by the caller is used as given.",
 ["histories", "schedules"],
 "All sequences of generating keys and protecting messages for new recipients of every class, in one process and in forked ones.",
 "Tests generate single keys and cannot see repetition; predictable or repeated secrets still round-trip.",
 ["pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/messages/encmessage.py", "pycose/messages/macmessage.py", "pycose/messages/recipient.py", "pycose/algorithms.py"],
 [("key generation", "generate_key of the key classes"), ("content keys", "EncMessage.encode, MacMessage.encode, KeyWrap"), ("ephemeral keys", "recipient.py"), ("ECDSA", "algorithms.py")],
 (), ["generate_key, encode() of messages with recipients, sign"])

prop("C24", "A verified certificate chain leads from its first certificate to a trusted root",
 "An X5Chain made with verify=True, or whose verify_chain() is called, is accepted only if its first certificate is valid now, allows every requested use (digital signatures when verify=True) and leads, through certificates of the chain that are valid now and are authorities, to a root trusted by the system, "
 "every signature on that path being that of its issuer; everything else is refused with an exception. A chain in which each certificate certifies the one before it, up to one certified by a trusted root, is accepted, also when it consists of one certificate. Without verify=True nothing is refused. Verification changes neither the chain nor the caller's list.",
 ["inputs"],
 "Chains of every length and order over a key infrastructure with forged, expired, renamed, misused and untrusted certificates, every requested use, certificates given as a list or as one byte string.",
 "No test verifies a chain: a chain that is not verified still encodes and decodes.",
 ["pycose/extensions/x509.py"],
 [("verification", "X5Chain.__init__, X5Chain.verify_chain")],
 (), ["X5Chain(..., verify=True), X5Chain.verify_chain"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
