#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the list here, then run this file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "guarded include in src/lib.rs that compiles the harness inside the crate (cfg didcomm_verif); the proof itself needs none"

p("C01", "A JWE is accepted only if its recipients and sender identifier are bound",
  "An encrypted envelope passes the check made before decryption only if its protected apv is the base64url of the SHA-256 of all its recipient key ids sorted and joined by '.', and, when an apu is present, that apu is the base64url of a UTF-8 sender key id that equals the skid when a skid is present. An envelope that announces a skid without an apu is refused, and every envelope with consistent apv, apu and skid is accepted unchanged. Refusals are reported as malformed.",
  ["inputs"], "every JWE envelope: any number and order of recipients, any apv, apu and skid text",
  "The tests check a few fixed envelopes; a forged recipient list, a reordered one, or a skid without apu is one of unboundedly many inputs.",
  ["src/jwe/parse.rs"], [("check of the parsed envelope against apv, apu and skid", "src/jwe/parse.rs verify_didcomm"), ("parsing of the protected header", "src/jwe/parse.rs parse")],
  observe=["the result of checking a parsed envelope", "the error kind (Malformed)"], hook=HOOK)

p("C02", "JWE parsing is total, faithful and reports malformed input as malformed",
  "For every text, parsing an encrypted envelope ends without a panic, either with an error or with exactly the outer fields of the text, the protected header that its protected field decodes to (base64url, then JSON), and the decoded apu and apv. A text that is not such JSON, or whose protected, apu or apv field does not decode as base64url, or whose protected header is not a JWE header, is refused with kind Malformed (a text that ends early is reported as InvalidState).",
  ["inputs"], "every byte string given as envelope; every protected header text inside it",
  "The tests try about twenty fixed envelopes; panics and wrong fields need inputs nobody wrote down.",
  ["src/jwe/parse.rs", "src/jwe/envelope.rs", "src/error.rs"], [("parse", "src/jwe/parse.rs parse"), ("envelope structures", "src/jwe/envelope.rs JWE, ProtectedHeader, Recipient")],
  observe=["the parsed envelope", "the error kind"], hook=HOOK)

p("C03", "Authenticated decryption names a sender only when that sender's key was used",
  "When unpacking an authcrypt message succeeds with the sender-authenticated flag, the sender key id in the metadata is the one in the envelope's apu, belongs to the key agreement section of the DID document its DID resolves to, and the content was decrypted with that sender's public key and a recipient secret of the caller. Sender and recipient keys of different curves, an unknown sender DID, key id or secret lead to an error, never to a plaintext marked as authenticated.",
  ["inputs", "configurations"], "every authcrypt envelope, every DID document and secret store answer",
  "Tests use three fixed parties; a mismatched key type, a key outside key agreement, or an unresolvable sender is one of many combinations.",
  ["src/message/unpack/authcrypt.rs", "src/jwe/decrypt.rs"], [("sender key resolution", "src/message/unpack/authcrypt.rs _try_unpack_authcrypt"), ("decryption with the sender's key", "src/jwe/decrypt.rs decrypt")],
  observe=["unpack result and metadata"], hook=HOOK)

p("C04", "A signed message is accepted only with a valid signature of the named signer",
  "When unpacking a signed message succeeds with the non-repudiation flag, the signature verified over exactly the protected header and payload of the envelope, with the public key that the signer's key id has in the authentication section of the document its DID resolves to and with the algorithm the envelope names. The reported signer is that key id and the returned plaintext is the decoded payload. An unsupported or mismatching algorithm, a key outside the authentication section, an invalid signature or an unknown signer leads to an error.",
  ["inputs", "configurations"], "every signed envelope, every DID document",
  "The tests hold a handful of signed vectors; tampered headers, other sections of the document or swapped algorithms are not sampled.",
  ["src/message/unpack/sign.rs", "src/jws/verify.rs", "src/jws/parse.rs"], [("signature check", "src/jws/verify.rs verify"), ("signer key resolution", "src/message/unpack/sign.rs _try_unpack_sign")],
  observe=["unpack result and metadata"], hook=HOOK)

p("C05", "Unpack metadata says exactly which protections were on the message",
  "After a successful unpack, the encrypted, authenticated, non-repudiation and anonymous-sender flags, the key ids and the algorithms in the metadata are set exactly when a layer of that kind was removed, and with the values of that layer. A plain message yields no protection flags, and a message whose innermost text is not a valid plaintext is refused.",
  ["inputs", "configurations"], "every nesting of plaintext, signature, authcrypt and anoncrypt layers, with or without forwarding",
  "Each test fixes one nesting; flags set too early or left over from a failed attempt need other nestings.",
  ["src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/message/unpack/plaintext.rs"],
  [("layered unpacking", "src/message/unpack/mod.rs Message::unpack"), ("per-layer metadata", "src/message/unpack/*.rs")], observe=["UnpackMetadata"], hook=HOOK)

p("C06", "Encryption goes to exactly the compatible keys of the named recipient",
  "Packing an encrypted message encrypts for exactly those key agreement keys of the recipient's DID document that match the requested key id (all when a DID is given) and share the key type that was chosen, and reports exactly these ids in document order. For authenticated encryption the sender key is the first of the sender's matching key agreement keys that has a stored secret and a supported type for which the recipient has a key; when there is none, packing fails with the documented error kind.",
  ["inputs", "configurations"], "every pair of DID documents, key order and secret store content, recipient and sender given as DID or key id",
  "The tests use one document per party; order, duplicates, unsupported keys in between and partial secret stores are combinations they do not enumerate.",
  ["src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/utils/crypto.rs"], [("recipient and sender key selection", "src/message/pack_encrypted/{anoncrypt,authcrypt}.rs")],
  observe=["recipient key ids in the envelope and in the metadata"], hook=HOOK)

p("C07", "Packing refuses addresses that contradict the message",
  "Packing refuses, as an illegal argument and before resolving anything, a recipient, sender or signer that is not a DID or DID URL, a recipient whose DID is not among the message's recipients when the message has any, and a sender whose DID differs from the message's sender when it has one. It refuses nothing else on these grounds.",
  ["inputs"], "every message and every to, from and sign_by argument", "Tests try a few wrong values each.",
  ["src/message/pack_encrypted/mod.rs", "src/utils/did.rs"], [("argument validation", "src/message/pack_encrypted/mod.rs _validate_pack_encrypted"), ("DID syntax", "src/utils/did.rs is_did, did_or_url")],
  observe=["the result of packing"], hook=HOOK)

p("C08", "A from_prior claim is signed by, and verified against, its issuer",
  "A from_prior JWT is produced only from claims whose issuer and subject are distinct DIDs, signed with a key of the issuer's authentication section that has a stored secret, and names that key. Unpacking one returns its claims only after its signature verified under the authentication key that it names and that key's DID is the issuer (`iss`) of the claims, and returns that key's id.",
  ["inputs", "configurations"], "every claim set, issuer key id, DID document and JWT text", "Tests hold a handful of claim sets and two JWTs.",
  ["src/message/from_prior/mod.rs", "src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs"], [("packing", "src/message/from_prior/pack.rs"), ("unpacking", "src/message/from_prior/unpack.rs")],
  observe=["FromPrior::pack and unpack results"], hook=HOOK)

p("C09", "A forward onion wraps the message once per routing key, in route order",
  "Wrapping for a list of routing keys produces one encrypted forward message per key: the outermost is encrypted for the first routing key, each forward message names the next hop, and the innermost names the final recipient and carries the original message as its JSON attachment. No list of routing keys makes wrapping panic.",
  ["inputs"], "every message, header map, recipient and list of routing keys of any length", "Tests use at most three hops.",
  ["src/protocols/routing/mod.rs"], [("onion construction", "src/protocols/routing/mod.rs wrap_in_forward")], observe=["the sequence of forward messages and encryptions"], hook=HOOK)

p("C10", "Forward messages are recognised exactly, and built ones are recognised",
  "A message is reported as a forward message exactly when its type is the forward type, its body has a string 'next' and its first attachment is a JSON attachment; what is reported is then that next hop and that attachment's JSON. Every forward message the library builds is recognised and yields the same next hop and payload, and carries exactly the headers it was given (as long as none of them has the name of a standard header).",
  ["inputs"], "every message; every payload, next hop and header map", "Tests parse a handful of forward messages.",
  ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs"], [("recognition", "src/protocols/routing/mod.rs try_parse_forward"), ("construction", "src/protocols/routing/mod.rs build_forward_message")],
  observe=["try_parse_forward result"], hook=HOOK)

p("C11", "Routing follows the recipient's DIDComm service and nothing else",
  "With forwarding enabled, the service used is the one with the requested id, or else the first DIDComm messaging service of the recipient's document that accepts the DIDComm v2 profile or lists no profiles; a requested service that is missing, of another type or does not accept the profile is refused. A service endpoint that is a DID is followed one level, and the resulting routing keys are the mediator endpoint followed by the service's routing keys. With forwarding disabled or no service found the message is not wrapped.",
  ["inputs", "configurations"], "every DID document and service list, every option setting", "Tests use a few documents.",
  ["src/protocols/routing/mod.rs"], [("service selection", "src/protocols/routing/mod.rs find_did_comm_service"), ("chain resolution", "src/protocols/routing/mod.rs resolve_did_comm_services_chain, wrap_in_forward_if_needed")],
  observe=["messaging service metadata and routing keys used"], hook=HOOK)

p("C12", "A message keeps every field through its JSON form, under the specified names",
  "The JSON of a message has exactly the members id, typ, type, body, from, to, thid, pthid, created_time, expires_time, from_prior and attachments, with absent optional values left out, plus its extra headers as top-level members. Reading that JSON gives back an equal message whenever no extra header reuses one of those names. Reading any JSON object keeps every unknown member as an extra header and refuses, as malformed, one that lacks id, type or body or has a known member of the wrong type.",
  ["inputs"], "every message value and every JSON object", "Tests hold a few messages; a renamed, dropped or swapped member shows only for messages that use it.",
  ["src/message/message.rs", "src/message/attachment.rs"], [("derived JSON mapping", "src/message/message.rs Message"), ("reading", "src/message/message.rs Message::from_str")],
  observe=["serialised JSON", "read message or error kind"], hook=HOOK)

p("C13", "Only messages of the plaintext media type are accepted as plaintext",
  "A plaintext is accepted exactly when its typ is application/didcomm-plain+json or is absent, in which case that value is supplied; any other typ is refused as malformed. Acceptance changes no field of the message, and a built message always carries that typ.",
  ["inputs"], "every message and every typ text", "Tests try one wrong typ.",
  ["src/message/message.rs", "src/message/unpack/plaintext.rs"], [("validation", "src/message/message.rs Message::validate, default_typ")], observe=["accepted message or error kind"], hook=HOOK)

p("C14", "Builders return exactly what was put into them",
  "After any sequence of builder calls, the built message, attachment or from-prior claim set holds for each single-valued field the last value given (absent if none), for recipients and attachments all values given in order of the calls, and for extra headers the last value per name. Nothing else is set, except that the message gets the plaintext media type.",
  ["inputs", "histories"], "every sequence of builder calls with any arguments", "Tests make a few fixed call sequences.",
  ["src/message/message.rs", "src/message/attachment.rs", "src/message/from_prior/mod.rs"], [("builders", "MessageBuilder, AttachmentBuilder, FromPriorBuilder")], observe=["the built values"], hook=HOOK)

p("C15", "Attachment data keeps its kind and content through JSON",
  "Every attachment's JSON holds its data under the member 'data' as an object with base64, json, or links and hash, plus jws when present, and its other members id, description, filename, media_type, format, lastmod_time and byte_count only when set. Reading it gives back an equal attachment of the same kind. A data object with none of the three kinds is refused, and one whose base64 is a string (and whose jws, if any, is one too) is always read as base64.",
  ["inputs"], "every attachment value; every data object", "The kind is found by trial in a fixed order; tests hold few objects, none with members of several kinds.",
  ["src/message/attachment.rs"], [("derived untagged mapping", "src/message/attachment.rs AttachmentData")], observe=["serialised JSON", "read attachment"], hook=HOOK)

p("C16", "Key material is read as the key type it declares, or refused",
  "For every verification method and secret, a key is produced only when the declared type and the form of the material agree, and it is then a key of exactly the type that the method or secret reports; for multibase material the multicodec prefix must name that same kind of key. Every other combination or content is refused with an error, and no material of any length or content makes the reading panic.",
  ["inputs"], "every method and secret type, every JWK, base58 and multibase text", "Tests read a few well-formed keys; short or oversized material is not tried.",
  ["src/utils/did.rs", "src/utils/crypto.rs", "src/jwk.rs"], [("key type", "src/utils/did.rs key_alg"), ("key reading", "src/utils/did.rs as_key_pair"), ("multicodec", "src/utils/did.rs _from_multicodec")], observe=["key pair or error kind"], hook=HOOK)

p("C17", "Algorithm identifiers map one to one to their registered names",
  "Every JWE key agreement and content encryption algorithm and every JWS signature algorithm has exactly its registered JOSE name in envelopes, in both directions, and its textual form is that name. A name that is not one of them is kept unchanged and never taken for a known algorithm.",
  ["inputs"], "every algorithm value and every name text", "Tests see the known names only inside fixed envelopes.",
  ["src/jwe/envelope.rs", "src/jws/envelope.rs"], [("derived name mapping", "src/jwe/envelope.rs Algorithm, EncAlgorithm; src/jws/envelope.rs Algorithm"), ("textual form", "src/jwe/envelope.rs Algorithm::as_str")], observe=["header JSON", "algorithm values"], hook=HOOK)

p("C18", "DID documents and secrets keep their content and key form through JSON",
  "The JSON of a DID document, verification method, service and secret uses the camelCase member names of the DID specification and, when read back, gives a value with the same ids, types, key material kind and text, service kind, endpoint, profiles and routing keys. Key material given as JWK, multibase or base58 is read as that form and no other. Material or service objects without the required members are refused; accept may be absent and routing keys default to none.",
  ["inputs"], "every document and secret value, every JSON object for them", "Tests hold a few documents.",
  ["src/did/did_doc.rs", "src/secrets/mod.rs"], [("derived mappings", "src/did/did_doc.rs; src/secrets/mod.rs")], observe=["serialised JSON", "read values"], hook=HOOK)

p("C19", "The example resolvers return exactly the entry asked for",
  "Resolving a DID with the example DID resolver returns the first known document whose id equals the DID, unchanged, or nothing; looking up a secret does the same for secret ids. The list of found secret ids is exactly the sublist of the requested ids that have a stored secret, in the requested order and multiplicity.",
  ["inputs"], "every list of documents and secrets, every requested id list", "Tests ask for a few present ids; prefixes, duplicates and absent ids are not sampled.",
  ["src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"], [("lookup", "ExampleDIDResolver::resolve, ExampleSecretsResolver::get_secret, find_secrets")], observe=["resolver results"], hook=HOOK)

p("C20", "An error keeps its kind, and causes are classified as documented",
  "The kind of every error built from a kind, or from a failed result given a kind, is that kind, adding context to an error keeps its kind, and a successful result passes through unchanged. JSON errors become Malformed for syntax or data errors and InvalidState for end of input or I/O, base58 decoding errors become Malformed except that a too small buffer is InvalidState, and base58 encoding errors become InvalidState.",
  ["inputs"], "every error value, kind and result", "The tests cover no error conversion directly.",
  ["src/error.rs"], [("error conversions", "src/error.rs")], observe=["Error::kind"], hook=HOOK)

p("C21", "DID and DID URL splitting is exact",
  "A text is taken for a DID or DID URL exactly when it has at least three ':'-separated parts of which the first is 'did'. Splitting a text at its first '#' gives the text before it and, as key id, the whole text; without '#' it gives the whole text and no key id.",
  ["inputs"], "every text", "Tests try a few DIDs.",
  ["src/utils/did.rs"], [("syntax test and split", "src/utils/did.rs is_did, did_or_url")], observe=["is_did, did_or_url results"], hook=HOOK)

p("C22", "JWE encryption and decryption are inverse and bind the header",
  "With a cryptography in which unwrapping inverts wrapping and decryption inverts encryption, a produced envelope carries the given algorithms, the sender id as apu and skid when there is one, the apv of exactly the given recipients and one wrapped content key per recipient in the given order, and each recipient's decryption returns the message. Decryption of any envelope uses exactly the header, ephemeral key and wrapped key of the addressed recipient, and fails with an error, without panic, when that recipient is absent or a field does not decode.",
  ["inputs"], "every message, recipient list, key set and envelope", "Tests encrypt for one to three fixed recipients.",
  ["src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/utils/crypto.rs"], [("encrypt", "src/jwe/encrypt.rs"), ("decrypt", "src/jwe/decrypt.rs"), ("key wrapping and derivation", "src/utils/crypto.rs")], observe=["envelope fields", "decrypted bytes"], hook=HOOK)

p("C23", "JWS signing and verification agree on what is signed",
  "A produced JWS, general or compact, contains the base64url payload, the named algorithm and key id, and a signature over the ASCII bytes protected '.' payload of that same envelope; parsing returns its fields unchanged and verification passes exactly when the first signature that names the key id is valid under the given key for those bytes under the named algorithm. A compact JWS without exactly three parts, or whose header does not decode, is refused as malformed, and a signature that does not decode never verifies.",
  ["inputs"], "every payload, key, and JWS text", "Tests sign a few payloads.",
  ["src/jws/sign.rs", "src/jws/verify.rs", "src/jws/parse.rs", "src/jws/envelope.rs"], [("sign", "src/jws/sign.rs"), ("verify", "src/jws/verify.rs"), ("parse", "src/jws/parse.rs")], observe=["JWS text", "verification result"], hook=HOOK)

p("C24", "Packing seals exactly the message, in the layers that were asked for",
  "Plaintext packing gives the JSON text of the message, and refuses a message whose from_prior claim is not one that its issuer signed, names the same DID twice or other things than DIDs, or names as new DID another one than the message's sender. Signed packing gives the signed form of exactly that text, by the first of the signer's authentication keys (or the one that is named) that has a stored secret, with the algorithm of its key type, and reports that key id; a signer without such a key, an unresolvable signer, or a key that cannot sign leads to an error of the documented kind. Encrypted packing encrypts exactly the signed text when a signer is given and the plaintext otherwise, to the recipient, by the sender when one is given, hides an authenticated envelope in an anonymous one when asked to, wraps it for the mediators when there are some and forwarding is on, and reports the key ids and the service that were used. No failure of a step is turned into a success.",
  ["inputs", "configurations"], "every message, address, DID document, secret store and option",
  "The tests fix three parties and a few option sets; a layer left out, put in the wrong order or reported wrongly shows with other combinations.",
  ["src/message/pack_plaintext.rs", "src/message/pack_signed.rs", "src/message/pack_encrypted/mod.rs", "src/protocols/routing/mod.rs"], [("packing", "src/message/pack_{plaintext,signed}.rs, src/message/pack_encrypted/mod.rs")],
  observe=["the packed text and the metadata"], hook=HOOK)

p("C25", "What is packed comes out: every packed message unpacks to itself",
  "A message that was packed as plaintext, signed, or encrypted (anonymously or by a sender, with the sender hidden or not, signed before or not) and is then unpacked, by someone whose DID resolver gives the same documents and who holds the secrets of keys it was encrypted for, is given back whole and unchanged. The unpacking metadata names exactly the layers that packing put on: the keys it was encrypted for and the sender's and signer's key id are those that packing reported, the algorithms are those that were asked for or belong to the key, the flags for encryption, authentication, non-repudiation and a hidden sender fit these layers, and a claim in the message is given as its verified form. When packing wrapped the envelope for mediators, each mediator that unpacks what it got finds a forward message that names the next hop, and what the last one passes on unpacks to the message in the same way.",
  ["inputs", "configurations", "histories"], "every message of the plaintext type whose own headers reuse no standard name, every set of documents and secrets with key ids of the documents' own DIDs, every choice of sender, signer, options and mediators",
  "Tests pack and unpack some fixed messages between fixed parties; a field that gets lost, a key kind or algorithm that one side treats differently, or a route that ends at the wrong place shows only with other messages, documents or options.",
  ["src/message/pack_plaintext.rs", "src/message/pack_signed.rs", "src/message/pack_encrypted/mod.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/message/unpack/plaintext.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/jwe/parse.rs", "src/jws/sign.rs", "src/jws/verify.rs", "src/jws/parse.rs", "src/protocols/routing/mod.rs"],
  [("packing", "src/message/pack_{plaintext,signed}.rs, src/message/pack_encrypted/"), ("unpacking", "src/message/unpack/"), ("the onion for mediators", "src/protocols/routing/mod.rs")],
  observe=["the message and the metadata that unpacking gives"], hook=HOOK)

p("C26", "Options and metadata cross JSON whole, with the documented defaults",
  "Packing and unpacking options that are read from a JSON object hold exactly what its members say: protect_sender, forward, forward_headers, messaging_service, enc_alg_auth and enc_alg_anon, and expect_decrypt_by_all_keys and unwrap_re_wrapping_forward. A missing member means its documented default (false for protect_sender and both unpacking flags, true for forward, no headers, no service, A256cbcHs512Ecdh1puA256kw, Xc20pEcdhEsA256kw), so that the empty object is the built-in default of packing; unknown members are ignored, and a member whose value has another type or is no known algorithm name leads to an error. The built-in default of unpacking needs one key only and unwraps re-wrapped forwards. Metadata of packing and unpacking is written as an object with one member per field under the field's name, null for what is absent, with algorithms under the same names, and a rotation claim set is written and read with exactly the claims iss, sub, aud, exp, nbf, iat and jti, of which iss and sub are required and absent ones are left out.",
  ["inputs"], "every JSON object given as options or claims; every metadata value",
  "No test reads options from JSON or writes metadata; a default that flips or a name that changes goes unnoticed until a caller in another language relies on it.",
  ["src/algorithms.rs", "src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/message/unpack/mod.rs", "src/message/from_prior/mod.rs", "src/utils/serde.rs"],
  [("options and their defaults", "src/message/pack_encrypted/mod.rs PackEncryptedOptions, src/message/unpack/mod.rs UnpackOptions"), ("metadata", "src/message/*/mod.rs PackEncryptedMetadata, MessagingServiceMetadata, UnpackMetadata; src/message/pack_signed.rs PackSignedMetadata"), ("names", "src/algorithms.rs")],
  observe=["the options that are read", "the JSON that is written"], hook=HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
