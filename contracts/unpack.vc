C03-C05: unpacking.

@module crate::message::unpack src/message/unpack/mod.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::message::*; use crate::message::from_prior::*; use crate::did::*; use crate::secrets::*; use crate::algorithms::*; use crate::utils::did::*; use crate::protocols::routing::*; use crate::protocols::routing::forward::*;
use crate::message::unpack::anoncrypt::*; use crate::message::unpack::authcrypt::*; use crate::message::unpack::sign::*; use crate::message::unpack::plaintext::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type UnpackOptions
@type UnpackMetadata

@module crate::message::unpack::sign src/message/unpack/sign.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jws; use crate::jws::*; use crate::did::*; use crate::secrets::*; use crate::algorithms::*; use crate::utils::{did::*, crypto::*}; use crate::message::unpack::*;
use crate::message::from_prior::pack::fails; use crate::message::from_prior::unpack::auth_key;
use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// the algorithm that is reported
pub open spec fn sign_alg_of(a: Algorithm) -> Option<SignAlg> { match a { Algorithm::EdDSA => Some(SignAlg::EdDSA), Algorithm::Es256 => Some(SignAlg::ES256), Algorithm::Es256K => Some(SignAlg::ES256K), Algorithm::Other(_) => None } }
/// the first signature under this key, which must be of the type that the algorithm named with the signature has
pub open spec fn first_signature(p: ParsedJWS, key: Option<KnownKeyPair>) -> Option<bool> {
    let (h, s) = (p.protected@[0], p.jws.signatures@[0]);
    match (h.alg, key) {
        (Algorithm::EdDSA, Some(KnownKeyPair::Ed25519(k))) => judged(k, h.alg, s.protected@, p.jws.payload@, s.signature@),
        (Algorithm::Es256, Some(KnownKeyPair::P256(k))) => judged(k, h.alg, s.protected@, p.jws.payload@, s.signature@),
        (Algorithm::Es256K, Some(KnownKeyPair::K256(k))) => judged(k, h.alg, s.protected@, p.jws.payload@, s.signature@),
        _ => None }
}
/// the text that is signed
pub open spec fn signed_text(payload: Seq<char>) -> Option<Seq<char>> { match b64d(payload) { Some(b) => text_of(b), None => None } }
/// what a verified signature adds to the metadata
pub open spec fn add_signature(m: UnpackMetadata, alg: Algorithm, kid: Seq<char>, text: Seq<char>, n: UnpackMetadata) -> bool {
    &&& n == (UnpackMetadata { authenticated: true, non_repudiation: true, sign_from: n.sign_from, signed_message: n.signed_message, sign_alg: sign_alg_of(alg), ..m })
    &&& n.sign_from is Some && n.sign_from->0@ == kid && n.signed_message is Some && n.signed_message->0@ == text
}
pub open spec fn signed_in(p: ParsedJWS, d: DIDDoc, text: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    let kid = p.jws.signatures@[0].header.kid@;
    match auth_key(d, kid) {
        None => fails(r, ErrorKind::DIDUrlNotFound),
        Some(v) => match first_signature(p, v.pair()) {
            Some(true) => match signed_text(p.jws.payload@) { Some(t) => r is Ok && r->Ok_0 is Some && (r->Ok_0)->0@ == t && add_signature(m, p.protected@[0].alg, kid, text, n), None => fails(r, ErrorKind::Malformed) },
            Some(false) => fails(r, ErrorKind::Malformed),
            None => r is Err && (p.protected@[0].alg is Other ==> fails(r, ErrorKind::Unsupported)) } }
}
pub open spec fn signed_by(p: ParsedJWS, dr: &dyn DIDResolver, text: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    if p.protected@.len() != 1 || !p.jws.signatures@[0].header.kid@.contains('#') { fails(r, ErrorKind::Malformed) }
    else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(p.jws.signatures@[0].header.kid@), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => signed_in(p, d, text, m, n, r) } }
}
/// there is no such layer: nothing happens
pub open spec fn passed(m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool { r == Ok::<Option<String>, Error>(None) && n == m }
/// the text is not such an envelope
pub open spec fn unread(k: ErrorKind, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool { if k == ErrorKind::Malformed { passed(m, n, r) } else { fails(r, k) } }
/// removing the signature of text, if it has one, gives r, and turns the metadata m to n
pub open spec fn sign_layer(text: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool { match json_de::<JWS>(text) {
    Err(e) => unread(crate::error::json_kind(e), m, n, r),
    Ok(j) => (r is Err && jws_bad(j, seq![], r->Err_0.kind)) || exists|p: ParsedJWS| p.jws == j && #[trigger] jws_read(j, p.protected@, seq![]) && signed_by(p, dr, text, m, n, r) } }
@fn _try_unpack_sign -> r
@attr #[verifier::rlimit(40)]
ensures sign_layer(msg@, did_resolver, *old(metadata), *final(metadata), r),
@start
broadcast use {value_axioms, did_unique, method_found};

@module crate::message::unpack::anoncrypt src/message/unpack/anoncrypt.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jwe; use crate::jwe::envelope::*; use crate::jwe::parse::*; use crate::jwe::decrypt::decrypted; use crate::did::*; use crate::secrets::*; use crate::algorithms::*; use crate::utils::{did::*, crypto::*}; use crate::message::unpack::*; use crate::message::unpack::sign::*;
use crate::message::from_prior::pack::fails; use crate::message::pack_encrypted::anoncrypt::texts; use crate::vx::{refs, firstk, searched, views};
use crate::askar_crypto::{alg::{aes::*, chacha20::*, p256::*, x25519::*}, kdf::ecdh_es::EcdhEs};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// all are DID URLs of one DID
pub open spec fn one_did(k: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).contains('#') && did_part(k[i]) == did_part(k[0]) }
pub open spec fn of_did(k: Seq<char>, d: Seq<char>) -> bool { k.contains('#') && did_part(k) == d }
pub broadcast proof fn one_did_found(k: Seq<Seq<char>>, s: Seq<&str>, keep: Seq<bool>)
    requires s.len() == k.len(), k.len() > 0, forall|i: int| 0 <= i < k.len() ==> (#[trigger] s[i])@ == k[i], searched(refs(s), keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == !of_did((*refs(s)[i])@, did_part(k[0])),
    ensures #![trigger one_did(k), firstk(refs(s), keep)] one_did(k) == (firstk(refs(s), keep) is None)
{
    crate::vx::first_ref_all(s, |x: &str| !of_did(x@, did_part(k[0])));
    assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == (|x: &str| !of_did(x@, did_part(k[0])))(s[i]) by { assert(*refs(s)[i] == s[i]); }
    crate::vx::firstk_refs(s, keep); keep_none(s, keep);
    if firstk(s, keep) is None { assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).contains('#') && did_part(k[i]) == did_part(k[0]) by { assert(!keep[i]); assert(s[i]@ == k[i]); } }
    else { let i = choose|i: int| 0 <= i < keep.len() && #[trigger] keep[i]; assert(s[i]@ == k[i]); }
}
pub proof fn keep_none<T>(s: Seq<T>, keep: Seq<bool>) ensures firstk(s, keep) is None <==> forall|i: int| 0 <= i < keep.len() ==> !#[trigger] keep[i] decreases keep.len()
{ if keep.len() > 0 { let d = keep.drop_last(); keep_none(s, d); assert forall|i: int| 0 <= i < d.len() implies #[trigger] keep[i] == d[i] by {} if firstk(s, keep) is Some && firstk(s, d) is Some { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i]; assert(keep[i]); } } }
/// what opening an envelope with one key gives
pub enum Opened { Text(Seq<u8>), Refused(ErrorKind), Failed }
pub open spec fn opening(t: Option<Seq<u8>>) -> Opened { match t { Some(t) => Opened::Text(t), None => Opened::Failed } }
pub open spec fn failed_with(o: Opened, k: ErrorKind) -> bool { match o { Opened::Text(_) => false, Opened::Refused(x) => k == x, Opened::Failed => true } }
/// opening with the stored secret
pub open spec fn outcome(s: Result<Option<Secret>>, f: spec_fn(KnownKeyPair) -> Opened) -> Opened { match s {
    Err(e) => Opened::Refused(e.kind), Ok(None) => Opened::Refused(ErrorKind::InvalidState),
    Ok(Some(x)) => match x.pair() { None => if x.alg() == KnownKeyAlg::Unsupported { Opened::Refused(ErrorKind::Unsupported) } else { Opened::Failed }, Some(k) => f(k) } } }
/// the secret of this id is one that opens the envelope like that
pub open spec fn gives(sr: &dyn SecretsResolver, kid: Seq<char>, f: spec_fn(KnownKeyPair) -> Opened, o: Opened) -> bool { exists|s: Result<Option<Secret>>| #[trigger] sr.secret(kid, s) && o == outcome(s, f) }
pub open spec fn opens_by(sr: &dyn SecretsResolver, kid: Seq<char>, f: spec_fn(KnownKeyPair) -> Opened) -> bool { exists|b: Seq<u8>| #[trigger] gives(sr, kid, f, Opened::Text(b)) }
/// each of the first n keys opens the envelope, and the last of them gives b
pub open spec fn opened_by(sr: &dyn SecretsResolver, v: Seq<&str>, n: int, open: spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened), b: Seq<u8>) -> bool {
    0 < n <= v.len() && gives(sr, v[n - 1]@, open(v[n - 1]@), Opened::Text(b)) && forall|i: int| 0 <= i < n ==> opens_by(sr, (#[trigger] v[i])@, open(v[i]@))
}
pub open spec fn refused_by(sr: &dyn SecretsResolver, v: Seq<&str>, n: int, open: spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened), k: ErrorKind) -> bool {
    exists|i: int, x: Opened| 0 <= i < n && #[trigger] gives(sr, (#[trigger] v[i])@, open(v[i]@), x) && failed_with(x, k)
}
pub open spec fn opened_with(sr: &dyn SecretsResolver, v: Seq<&str>, o: UnpackOptions, open: spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened), b: Seq<u8>) -> bool { opened_by(sr, v, used(v, o), open, b) }
pub open spec fn used(v: Seq<&str>, o: UnpackOptions) -> int { if o.expect_decrypt_by_all_keys { v.len() as int } else { 1 } }
/// opening the envelope with the found keys: the first, or all of them when that is asked for
pub open spec fn opened_to(sr: &dyn SecretsResolver, v: Seq<&str>, o: UnpackOptions, open: spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened), r: Result<Option<String>>) -> bool {
    let n = used(v, o);
    match r {
        Ok(t) => t is Some && exists|b: Seq<u8>| #[trigger] opened_with(sr, v, o, open, b) && text_of(b) == Some(t->0@),
        Err(e) => refused_by(sr, v, n, open, e.kind) || (e.kind == ErrorKind::Malformed && exists|b: Seq<u8>| #[trigger] opened_with(sr, v, o, open, b) && text_of(b) is None) }
}
/// opening without a sender: the key's type and the content encryption choose the algorithms
pub open spec fn es_opened(p: ParsedJWE, kid: Seq<char>, k: KnownKeyPair) -> Opened { match (k, p.protected.enc) {
    (KnownKeyPair::X25519(k), EncAlgorithm::A256cbcHs512) => opening(decrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    (KnownKeyPair::X25519(k), EncAlgorithm::Xc20P) => opening(decrypted::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    (KnownKeyPair::X25519(k), EncAlgorithm::A256Gcm) => opening(decrypted::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    (KnownKeyPair::P256(k), EncAlgorithm::A256cbcHs512) => opening(decrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    (KnownKeyPair::P256(k), EncAlgorithm::Xc20P) => opening(decrypted::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    (KnownKeyPair::P256(k), EncAlgorithm::A256Gcm) => opening(decrypted::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, None, kid, k)),
    _ => Opened::Refused(ErrorKind::Unsupported) } }
pub open spec fn by_es(p: ParsedJWE) -> spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened) { |kid: Seq<char>| by_es_for(p, kid) }
pub open spec fn by_es_for(p: ParsedJWE, kid: Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened) { |k: KnownKeyPair| es_opened(p, kid, k) }
pub broadcast proof fn es_gives(sr: &dyn SecretsResolver, kid: Seq<char>, s: Result<Option<Secret>>, p: ParsedJWE) requires sr.secret(kid, s) ensures #![trigger sr.secret(kid, s), by_es(p)] gives(sr, kid, by_es(p)(kid), outcome(s, by_es_for(p, kid)))
{ assert(by_es(p)(kid) == by_es_for(p, kid)); }
pub open spec fn anon_alg_of(e: EncAlgorithm) -> Option<AnonCryptAlg> { match e { EncAlgorithm::A256cbcHs512 => Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw), EncAlgorithm::Xc20P => Some(AnonCryptAlg::Xc20pEcdhEsA256kw), EncAlgorithm::A256Gcm => Some(AnonCryptAlg::A256gcmEcdhEsA256kw), EncAlgorithm::Other(_) => None } }
pub open spec fn to_kids(m: UnpackMetadata, k: Seq<Seq<char>>) -> bool { m.encrypted_to_kids is Some && texts(m.encrypted_to_kids->0@) =~= k }
/// what an opened anonymous envelope adds to the metadata
pub open spec fn add_anon(m: UnpackMetadata, p: ParsedJWE, n: UnpackMetadata) -> bool {
    n == (UnpackMetadata { encrypted: true, anonymous_sender: true, encrypted_to_kids: n.encrypted_to_kids, enc_alg_anon: anon_alg_of(p.protected.enc), ..m }) && to_kids(n, kids(p.jwe.recipients@))
}
/// the DIDComm rules bind the recipients and the sender to the envelope
pub open spec fn bound(p: ParsedJWE) -> bool { p.apv@ == apv_of(kids(p.jwe.recipients@)) && sender_bound(p.protected, opt_view(p.apu)) }
pub open spec fn anon_opened(p: ParsedJWE, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    let k = kids(p.jwe.recipients@);
    if p.protected.alg != Algorithm::EcdhEsA256kw { passed(m, n, r) }
    else if !bound(p) || k.len() == 0 || !one_did(k) { fails(r, ErrorKind::Malformed) }
    else { exists|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= k && match f {
        Err(e) => fails(r, e.kind),
        Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_es(p), r) && (r is Ok ==> add_anon(m, p, n)) } } }
}
/// removing the anonymous encryption of text, if it has one, gives r, and turns the metadata m to n
pub open spec fn anon_layer(text: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool { match json_de::<JWE>(text) {
    Err(e) => unread(crate::error::json_kind(e), m, n, r),
    Ok(j) => (r is Err && header_rejects(j.protected@, seq![], r->Err_0.kind)) || exists|p: ParsedJWE| p.jwe == j && #[trigger] parsed_ok(p, seq![]) && anon_opened(p, sr, o, m, n, r) } }
@fn _try_unpack_anoncrypt -> r
@attr #[verifier::rlimit(40)]
ensures anon_layer(msg@, secrets_resolver, *opts, *old(metadata), *final(metadata), r),
@start
hide(decrypted); hide(secret_pair); hide(secret_alg);
broadcast use {value_axioms, did_unique, one_did_found, es_gives};
@closure 3 -> (q: bool)
ensures q == !of_did((**vx_p0)@, to_did@)
@loop 0
invariant vx_s0.len() > 0, *metadata == (UnpackMetadata { enc_alg_anon: metadata.enc_alg_anon, ..vx_m }), 
    vx_it0@.len() < vx_s0.len() ==> payload is Some && opened_by(secrets_resolver, vx_s0, vx_s0.len() - vx_it0@.len(), by_es(parsed_jwe), payload->0@) && metadata.enc_alg_anon == anon_alg_of(parsed_jwe.protected.enc),
ensures payload is Some, opened_with(secrets_resolver, vx_s0, *opts, by_es(parsed_jwe), payload->0@), metadata.enc_alg_anon == anon_alg_of(parsed_jwe.protected.enc),
invariant_except_break !opts.expect_decrypt_by_all_keys ==> vx_it0@.len() == vx_s0.len(),
@loopbefore
let ghost vx_m = *metadata;
@loopafter
proof { assert(opened_with(secrets_resolver, vx_s0, *opts, by_es(parsed_jwe), payload->0@)); }

@module crate::message::unpack::authcrypt src/message/unpack/authcrypt.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jwe; use crate::jwe::envelope::*; use crate::jwe::parse::*; use crate::jwe::decrypt::decrypted; use crate::did::*; use crate::secrets::*; use crate::algorithms::*; use crate::utils::{did::*, crypto::*}; use crate::message::unpack::*; use crate::message::unpack::sign::*; use crate::message::unpack::anoncrypt::*;
use crate::message::from_prior::pack::fails; use crate::message::pack_encrypted::anoncrypt::texts; use crate::vx::{refs, firstk, searched, views};
use crate::askar_crypto::{alg::{aes::*, chacha20::*, p256::*, x25519::*}, kdf::ecdh_1pu::Ecdh1PU};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// opening with the sender's key: both keys must be of one type
pub open spec fn pu_opened(p: ParsedJWE, from: Seq<char>, own: KnownKeyPair, kid: Seq<char>, k: KnownKeyPair) -> Opened { match (own, k, p.protected.enc) {
    (KnownKeyPair::X25519(o), KnownKeyPair::X25519(k), EncAlgorithm::A256cbcHs512) => opening(decrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, Some((slice_of(from), &o)), kid, k)),
    (KnownKeyPair::P256(o), KnownKeyPair::P256(k), EncAlgorithm::A256cbcHs512) => opening(decrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, Some((slice_of(from), &o)), kid, k)),
    (KnownKeyPair::X25519(_), KnownKeyPair::P256(_), _) => Opened::Refused(ErrorKind::Malformed),
    (KnownKeyPair::P256(_), KnownKeyPair::X25519(_), _) => Opened::Refused(ErrorKind::Malformed),
    _ => Opened::Refused(ErrorKind::Unsupported) } }
pub open spec fn by_pu(p: ParsedJWE, from: Seq<char>, own: KnownKeyPair) -> spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened) { |kid: Seq<char>| by_pu_for(p, from, own, kid) }
pub broadcast proof fn pu_gives(sr: &dyn SecretsResolver, kid: Seq<char>, s: Result<Option<Secret>>, p: ParsedJWE, from: Seq<char>, own: KnownKeyPair) requires sr.secret(kid, s) ensures #![trigger sr.secret(kid, s), by_pu(p, from, own)] gives(sr, kid, by_pu(p, from, own)(kid), outcome(s, by_pu_for(p, from, own, kid)))
{ assert(by_pu(p, from, own)(kid) == by_pu_for(p, from, own, kid)); }
pub open spec fn by_pu_for(p: ParsedJWE, from: Seq<char>, own: KnownKeyPair, kid: Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened) { |k: KnownKeyPair| pu_opened(p, from, own, kid, k) }
/// the verification method that the key id names, when it is a key agreement key
pub open spec fn agreement_key(d: DIDDoc, kid: Seq<char>) -> Option<VerificationMethod> { if lists(d.key_agreement@, kid) { method(d.verification_method@, kid) } else { None } }
/// what an opened authenticated envelope adds to the metadata; the recipients of an outer envelope stay
pub open spec fn add_auth(m: UnpackMetadata, p: ParsedJWE, from: Seq<char>, n: UnpackMetadata) -> bool {
    &&& n == (UnpackMetadata { encrypted: true, authenticated: true, encrypted_to_kids: n.encrypted_to_kids, encrypted_from_kid: n.encrypted_from_kid, enc_alg_auth: Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw), ..m })
    &&& n.encrypted_from_kid is Some && n.encrypted_from_kid->0@ == from
    &&& if m.encrypted_to_kids is Some { n.encrypted_to_kids == m.encrypted_to_kids } else { to_kids(n, kids(p.jwe.recipients@)) }
}
pub open spec fn auth_opened_by(p: ParsedJWE, from: Seq<char>, own: KnownKeyPair, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    let k = kids(p.jwe.recipients@);
    if k.len() == 0 || !one_did(k) { fails(r, ErrorKind::Malformed) }
    else { exists|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= k && match f {
        Err(e) => fails(r, e.kind),
        Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_pu(p, from, own), r) && (r is Ok ==> add_auth(m, p, from, n)) } } }
}
pub open spec fn auth_sent(p: ParsedJWE, d: DIDDoc, from: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    match agreement_key(d, from) { None => fails(r, ErrorKind::DIDUrlNotFound), Some(v) => match v.pair() { None => r is Err && (v.alg() == KnownKeyAlg::Unsupported ==> fails(r, ErrorKind::Unsupported)), Some(own) => auth_opened_by(p, from, own, sr, o, m, n, r) } }
}
pub open spec fn auth_opened(p: ParsedJWE, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool {
    if p.protected.alg != Algorithm::Ecdh1puA256kw { passed(m, n, r) }
    else if !bound(p) || p.apu is None { fails(r, ErrorKind::Malformed) }
    else { match text_of(p.apu->0@) { None => fails(r, ErrorKind::Malformed), Some(from) => if !from.contains('#') { fails(r, ErrorKind::Malformed) }
        else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(from), d) && match d { Err(_) => fails(r, ErrorKind::InvalidState), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => auth_sent(p, d, from, sr, o, m, n, r) } } } }
}
/// removing the authenticated encryption of text, if it has one, gives r, and turns the metadata m to n
pub open spec fn auth_layer(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>) -> bool { match json_de::<JWE>(text) {
    Err(e) => unread(crate::error::json_kind(e), m, n, r),
    Ok(j) => (r is Err && header_rejects(j.protected@, seq![], r->Err_0.kind)) || exists|p: ParsedJWE| p.jwe == j && #[trigger] parsed_ok(p, seq![]) && auth_opened(p, dr, sr, o, m, n, r) } }
@fn _try_unpack_authcrypt -> r
@attr #[verifier::rlimit(40)]
ensures auth_layer(msg@, did_resolver, secrets_resolver, *opts, *old(metadata), *final(metadata), r),
@start
hide(decrypted); hide(secret_pair); hide(secret_alg); hide(method_pair); hide(method_alg);
broadcast use {value_axioms, did_unique, method_found, one_did_found, pu_gives};
@closure 9 -> (q: bool)
ensures q == !of_did((**vx_p0)@, to_did@)
@loop 0
invariant vx_s0.len() > 0, *metadata == (UnpackMetadata { enc_alg_auth: metadata.enc_alg_auth, ..vx_m }), 
    vx_it0@.len() < vx_s0.len() ==> payload is Some && opened_by(secrets_resolver, vx_s0, vx_s0.len() - vx_it0@.len(), by_pu(parsed_jwe, from_kid@, from_key), payload->0@) && metadata.enc_alg_auth == Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw),
ensures payload is Some, opened_with(secrets_resolver, vx_s0, *opts, by_pu(parsed_jwe, from_kid@, from_key), payload->0@), metadata.enc_alg_auth == Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw),
invariant_except_break !opts.expect_decrypt_by_all_keys ==> vx_it0@.len() == vx_s0.len(),
@loopbefore
let ghost vx_m = *metadata;
@loopafter
proof { assert(opened_with(secrets_resolver, vx_s0, *opts, by_pu(parsed_jwe, from_kid@, from_key), payload->0@)); }

@module crate::message::unpack::plaintext src/message/unpack/plaintext.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::message::*; use crate::message::from_prior::*; use crate::message::from_prior::pack::fails; use crate::message::from_prior::unpack::prior; use crate::did::*; use crate::message::unpack::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// the message in text, with its from_prior claim verified
pub open spec fn plain_layer(text: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<Message>>) -> bool { match json_de::<Message>(text) {
    Err(e) => if crate::error::json_kind(e) == ErrorKind::Malformed { r == Ok::<Option<Message>, Error>(None) && n == m } else { fails(r, crate::error::json_kind(e)) },
    Ok(x) => if x.typ@ != plaintext_typ() { fails(r, ErrorKind::Malformed) } else { match x.from_prior {
        None => r == Ok::<Option<Message>, Error>(Some(x)) && n == m,
        Some(j) => exists|c: Result<(FromPrior, String)>| #[trigger] prior(j@, dr, c) && match c { Err(e) => fails(r, e.kind), Ok((c, kid)) => r == Ok::<Option<Message>, Error>(Some(x)) && n == (UnpackMetadata { from_prior: Some(c), from_prior_issuer_kid: Some(kid), ..m }) } } } } }
@fn _try_unpack_plaintext -> r
ensures plain_layer(msg@, did_resolver, *old(metadata), *final(metadata), r),

@module crate::message::unpack src/message/unpack/mod.rs
@raw
use crate::message::from_prior::pack::fails; use crate::message::pack_encrypted::anoncrypt::texts; use crate::vx::{views, refs};
/// nothing is known yet
pub open spec fn fresh() -> UnpackMetadata { UnpackMetadata { encrypted: false, authenticated: false, non_repudiation: false, anonymous_sender: false, re_wrapped_in_forward: false, encrypted_from_kid: None, encrypted_to_kids: None, sign_from: None,
    from_prior_issuer_kid: None, enc_alg_auth: None, enc_alg_anon: None, sign_alg: None, signed_message: None, from_prior: None } }
/// whether the caller holds a key agreement secret of the next hop
pub open spec fn has_some(sr: &dyn SecretsResolver, k: Seq<Seq<char>>, h: Result<bool>) -> bool {
    exists|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= k && match f { Err(e) => fails(h, e.kind), Ok(v) => h == Ok::<bool, Error>(v@.len() > 0) }
}
pub open spec fn has_secret(next: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, h: Result<bool>) -> bool {
    if next.contains('#') { has_some(sr, seq![next], h) }
    else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(next, d) && match d { Err(e) => fails(h, e.kind), Ok(None) => fails(h, ErrorKind::DIDNotResolved), Ok(Some(d)) => has_some(sr, texts(d.key_agreement@), h) } }
}
@fn has_key_agreement_secret -> r
ensures has_secret(did_or_kid@, did_resolver, secrets_resolver, r),
@start
broadcast use {value_axioms, did_unique};
@raw
/// what a forward message to the caller carries: only forwards are unwrapped, and only those whose next hop the caller is
pub open spec fn rewrapped(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, u: Result<Option<String>>) -> bool { match json_de::<Message>(text) {
    Err(e) => if crate::error::json_kind(e) == ErrorKind::Malformed { u == Ok::<Option<String>, Error>(None) } else { fails(u, crate::error::json_kind(e)) },
    Ok(m) => match forward_of(m) { None => u == Ok::<Option<String>, Error>(None), Some((next, payload)) => exists|h: Result<bool>| #[trigger] has_secret(next, dr, sr, h) && match h {
        Err(e) => fails(u, e.kind), Ok(false) => u == Ok::<Option<String>, Error>(None),
        Ok(true) => match json_ser(&payload) { Err(_) => fails(u, ErrorKind::InvalidState), Ok(t) => u is Ok && u->Ok_0 is Some && (u->Ok_0)->0@ == t } } } } }
@fn Message :: _try_unwrap_forwarded_message -> r
ensures rewrapped(msg@, did_resolver, secrets_resolver, r),
@start
broadcast use {value_axioms, json_axioms};
@raw
/// one anonymous layer and one forward
pub open spec fn hop(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t: Seq<char>, m: UnpackMetadata, t2: Seq<char>, m2: UnpackMetadata) -> bool {
    exists|n: UnpackMetadata, r: Result<Option<String>>, u: Result<Option<String>>| #![trigger anon_layer(t, sr, o, m, n, r), rewrapped((r->Ok_0)->0@, dr, sr, u)]
        anon_layer(t, sr, o, m, n, r) && r is Ok && r->Ok_0 is Some && o.unwrap_re_wrapping_forward && rewrapped((r->Ok_0)->0@, dr, sr, u) && u is Ok && u->Ok_0 is Some && t2 == (u->Ok_0)->0@ && m2 == (UnpackMetadata { re_wrapped_in_forward: true, ..n })
}
pub open spec fn hops(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, k: nat, t0: Seq<char>, t: Seq<char>, m: UnpackMetadata) -> bool decreases k {
    if k == 0 { t == t0 && m == fresh() } else { exists|t1: Seq<char>, m1: UnpackMetadata| hops(dr, sr, o, (k - 1) as nat, t0, t1, m1) && #[trigger] hop(dr, sr, o, t1, m1, t, m) }
}
/// the text t with the metadata m is what the re-wrapping forwards around t0 carry
pub open spec fn reached(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t0: Seq<char>, t: Seq<char>, m: UnpackMetadata) -> bool { exists|k: nat| #[trigger] hops(dr, sr, o, k, t0, t, m) }
pub broadcast proof fn reached_next(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t0: Seq<char>, t: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>, u: Result<Option<String>>)
    requires reached(dr, sr, o, t0, t, m), anon_layer(t, sr, o, m, n, r), r is Ok, r->Ok_0 is Some, o.unwrap_re_wrapping_forward, rewrapped((r->Ok_0)->0@, dr, sr, u), u is Ok, u->Ok_0 is Some,
    ensures #![trigger reached(dr, sr, o, t0, t, m), anon_layer(t, sr, o, m, n, r), rewrapped((r->Ok_0)->0@, dr, sr, u)] reached(dr, sr, o, t0, (u->Ok_0)->0@, UnpackMetadata { re_wrapped_in_forward: true, ..n })
{
    let k = choose|k: nat| #[trigger] hops(dr, sr, o, k, t0, t, m); let (t2, m2) = ((u->Ok_0)->0@, UnpackMetadata { re_wrapped_in_forward: true, ..n });
    let k2: nat = k + 1; assert(hop(dr, sr, o, t, m, t2, m2)); assert((k2 - 1) as nat == k); assert(hops(dr, sr, o, (k2 - 1) as nat, t0, t, m)); assert(hops(dr, sr, o, k2, t0, t2, m2));
}
pub proof fn reached_first(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t0: Seq<char>) ensures reached(dr, sr, o, t0, t0, fresh())
{ assert(hops(dr, sr, o, 0, t0, t0, fresh())); }
/// what is left when a layer was removed, or when there was none
pub open spec fn inner(r: Result<Option<String>>, t: Seq<char>) -> Seq<char> { match r { Ok(Some(s)) => s@, _ => t } }
pub open spec fn last_plain(t: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, r: Result<(Message, UnpackMetadata)>) -> bool {
    exists|n: UnpackMetadata, x: Result<Option<Message>>| #[trigger] plain_layer(t, dr, m, n, x) && match x { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::Malformed), Ok(Some(x)) => r == Ok::<(Message, UnpackMetadata), Error>((x, n)) }
}
pub open spec fn then_sign(t: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, r: Result<(Message, UnpackMetadata)>) -> bool {
    exists|n: UnpackMetadata, x: Result<Option<String>>| #[trigger] sign_layer(t, dr, m, n, x) && match x { Err(e) => fails(r, e.kind), Ok(_) => last_plain(inner(x, t), dr, n, r) }
}
/// the last anonymous layer cannot be removed, or what it holds is a forward that cannot be unwrapped
pub open spec fn anon_stops(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, k: ErrorKind) -> bool {
    exists|n: UnpackMetadata, x: Result<Option<String>>| #[trigger] anon_layer(t, sr, o, m, n, x) && match x {
        Err(e) => e.kind == k,
        Ok(a) => a is Some && o.unwrap_re_wrapping_forward && exists|u: Result<Option<String>>| #[trigger] rewrapped(a->0@, dr, sr, u) && u is Err && u->Err_0.kind == k }
}
/// the last anonymous layer, if there is one, is removed: what it holds is no forward to unwrap
pub open spec fn anon_done(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, t2: Seq<char>, n: UnpackMetadata) -> bool {
    exists|x: Result<Option<String>>| #[trigger] anon_layer(t, sr, o, m, n, x) && x is Ok && t2 == inner(x, t)
        && (o.unwrap_re_wrapping_forward && x->Ok_0 is Some ==> rewrapped((x->Ok_0)->0@, dr, sr, Ok::<Option<String>, Error>(None)))
}
/// the text t2 and the metadata n are what is left when all anonymous layers and forwards are removed
pub open spec fn peeled(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t2: Seq<char>, n: UnpackMetadata) -> bool {
    exists|t: Seq<char>, m: UnpackMetadata| #[trigger] reached(dr, sr, o, text, t, m) && anon_done(t, dr, sr, o, m, t2, n)
}
pub open spec fn unpeeled(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, k: ErrorKind) -> bool {
    exists|t: Seq<char>, m: UnpackMetadata| #[trigger] reached(dr, sr, o, text, t, m) && anon_stops(t, dr, sr, o, m, k)
}
/// x is what removing the authenticated encryption from what is left gives, and n is the metadata then
pub open spec fn auth_at(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, x: Result<Option<String>>) -> bool { peeled(text, dr, sr, o, t, m) && auth_layer(t, dr, sr, o, m, n, x) }
pub broadcast proof fn auth_after(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t: Seq<char>, t2: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, x: Result<Option<String>>)
    requires peeled(text, dr, sr, o, t, m), auth_layer(t2, dr, sr, o, m, n, x), ensures #![trigger peeled(text, dr, sr, o, t, m), auth_layer(t2, dr, sr, o, m, n, x)] t == t2 ==> auth_at(text, dr, sr, o, t2, m, n, x)
{}
/// r is what unpacking the text gives: the layers are removed from the outside in, and the metadata says which
pub open spec fn unpacked(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, r: Result<(Message, UnpackMetadata)>) -> bool {
    (r is Err && unpeeled(text, dr, sr, o, r->Err_0.kind)) || exists|t: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, x: Result<Option<String>>| #[trigger] auth_at(text, dr, sr, o, t, m, n, x)
        && match x { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(x, t), dr, n, r) }
}
@fn Message :: unpack -> r
@attr #[verifier::exec_allows_no_decreases_clause]
ensures unpacked(msg@, did_resolver, secrets_resolver, *options, r),
@start
let ghost vx_text = msg@; proof { reached_first(did_resolver, secrets_resolver, *options, msg@); }
broadcast use {value_axioms, reached_next, auth_after};
@loop 0
invariant_except_break reached(did_resolver, secrets_resolver, *options, vx_text, msg@, metadata),
ensures anoncrypted is Some ==> peeled(vx_text, did_resolver, secrets_resolver, *options, anoncrypted->0@, metadata), anoncrypted is None ==> peeled(vx_text, did_resolver, secrets_resolver, *options, msg@, metadata),
@loopafter
proof { if anoncrypted is Some { assert(peeled(vx_text, did_resolver, secrets_resolver, *options, anoncrypted->0@, metadata)); } else { assert(peeled(vx_text, did_resolver, secrets_resolver, *options, msg@, metadata)); } }

@module crate::message::unpack::anoncrypt src/message/unpack/anoncrypt.rs
@raw
pub proof fn anon_consistent(t: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires anon_layer(t, sr, o, m, n, r), r is Ok, consistent(m), only_anon(m)
    ensures consistent(n), only_anon(n), r->Ok_0 is Some ==> n.anonymous_sender && n.encrypted, r->Ok_0 is None ==> n == m, n.re_wrapped_in_forward == m.re_wrapped_in_forward
{
    match json_de::<JWE>(t) { Err(e) => {} Ok(j) => {
        let p = choose|p: ParsedJWE| p.jwe == j && #[trigger] parsed_ok(p, seq![]) && anon_opened(p, sr, o, m, n, r);
        if p.protected.alg == Algorithm::EcdhEsA256kw {
            let (q, f) = choose|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= kids(p.jwe.recipients@) && match f { Err(e) => fails(r, e.kind),
                Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_es(p), r) && (r is Ok ==> add_anon(m, p, n)) } };
            let v = f->Ok_0@; let b = choose|b: Seq<u8>| #[trigger] opened_with(sr, v, o, by_es(p), b) && text_of(b) == Some((r->Ok_0)->0@);
            let kid = v[used(v, o) - 1]@; assert(by_es(p)(kid) == by_es_for(p, kid));
            let s = choose|s: Result<Option<Secret>>| #[trigger] sr.secret(kid, s) && Opened::Text(b) == outcome(s, by_es(p)(kid));
            assert(by_es_for(p, kid)((s->Ok_0)->0.pair()->0) == es_opened(p, kid, (s->Ok_0)->0.pair()->0));
            assert(!(p.protected.enc is Other));
        } } }
}

@module crate::message::unpack::authcrypt src/message/unpack/authcrypt.rs
@raw
/// the key id in the envelope is that of a key agreement key of the sender's document, and with that key and a secret of the caller the text came out
pub open spec fn came_from(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, from: Seq<char>, text: Seq<char>) -> bool {
    json_de::<JWE>(t) is Ok && exists|p: ParsedJWE, d: DIDDoc, own: KnownKeyPair, v: Seq<&str>, b: Seq<u8>| p.jwe == json_de::<JWE>(t)->Ok_0 && parsed_ok(p, seq![]) && bound(p) && p.protected.alg == Algorithm::Ecdh1puA256kw
        && p.apu is Some && text_of(p.apu->0@) == Some(from) && from.contains('#') && #[trigger] dr.resolves(did_part(from), Ok::<Option<DIDDoc>, Error>(Some(d)))
        && agreement_key(d, from) is Some && agreement_key(d, from)->0.pair() == Some(own) && #[trigger] opened_with(sr, v, o, by_pu(p, from, own), b) && text_of(b) == Some(text)
}
pub proof fn auth_authentic(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires auth_layer(t, dr, sr, o, m, n, r), r is Ok,
    ensures match r->Ok_0 { None => n == m, Some(x) => exists|from: Seq<char>, p: ParsedJWE| #[trigger] add_auth(m, p, from, n) && came_from(t, dr, sr, o, from, x@) }
{
    match json_de::<JWE>(t) { Err(e) => {} Ok(j) => {
        let p = choose|p: ParsedJWE| p.jwe == j && #[trigger] parsed_ok(p, seq![]) && auth_opened(p, dr, sr, o, m, n, r);
        if p.protected.alg == Algorithm::Ecdh1puA256kw {
            let from = text_of(p.apu->0@)->0;
            let d = choose|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(from), d) && match d { Err(_) => fails(r, ErrorKind::InvalidState), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => auth_sent(p, d, from, sr, o, m, n, r) };
            let doc = (d->Ok_0)->0; let own = agreement_key(doc, from)->0.pair()->0;
            let (q, f) = choose|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= kids(p.jwe.recipients@) && match f { Err(e) => fails(r, e.kind),
                Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_pu(p, from, own), r) && (r is Ok ==> add_auth(m, p, from, n)) } };
            let v = f->Ok_0@; let b = choose|b: Seq<u8>| #[trigger] opened_with(sr, v, o, by_pu(p, from, own), b) && text_of(b) == Some((r->Ok_0)->0@);
            assert(add_auth(m, p, from, n)); assert(opened_with(sr, v, o, by_pu(p, from, own), b)); assert(came_from(t, dr, sr, o, from, (r->Ok_0)->0@));
        } } }
}

@module crate::message::unpack::sign src/message/unpack/sign.rs
@raw
/// the text is a JWS of one signature, valid under the key that its key id names in the signer's authentication section, and it holds this plaintext
pub open spec fn signed_with(t: Seq<char>, dr: &dyn DIDResolver, kid: Seq<char>, alg: Algorithm, text: Seq<char>) -> bool {
    json_de::<JWS>(t) is Ok && exists|p: ParsedJWS, d: DIDDoc| p.jws == json_de::<JWS>(t)->Ok_0 && #[trigger] jws_read(p.jws, p.protected@, seq![]) && p.protected@.len() == 1 && p.jws.signatures@[0].header.kid@ == kid && kid.contains('#')
        && p.protected@[0].alg == alg && #[trigger] dr.resolves(did_part(kid), Ok::<Option<DIDDoc>, Error>(Some(d))) && auth_key(d, kid) is Some && first_signature(p, auth_key(d, kid)->0.pair()) == Some(true) && signed_text(p.jws.payload@) == Some(text)
}
pub proof fn sign_authentic(t: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires sign_layer(t, dr, m, n, r), r is Ok,
    ensures match r->Ok_0 { None => n == m, Some(x) => exists|kid: Seq<char>, alg: Algorithm| #[trigger] add_signature(m, alg, kid, t, n) && !(alg is Other) && signed_with(t, dr, kid, alg, x@) }
{
    match json_de::<JWS>(t) { Err(e) => {} Ok(j) => {
        let p = choose|p: ParsedJWS| p.jws == j && #[trigger] jws_read(j, p.protected@, seq![]) && signed_by(p, dr, t, m, n, r);
        let kid = p.jws.signatures@[0].header.kid@;
        let d = choose|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(kid), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => signed_in(p, d, t, m, n, r) };
        let doc = (d->Ok_0)->0; assert(d == Ok::<Option<DIDDoc>, Error>(Some(doc)));
        assert(signed_with(t, dr, kid, p.protected@[0].alg, (r->Ok_0)->0@)); assert(add_signature(m, p.protected@[0].alg, kid, t, n));
    } }
}

@module crate::message::unpack src/message/unpack/mod.rs
@raw
// ---------- what follows for every unpacked message ----------
/// the flags, the key ids and the algorithms agree with each other
pub open spec fn consistent(m: UnpackMetadata) -> bool {
    &&& m.anonymous_sender == (m.enc_alg_anon is Some)
    &&& (m.encrypted_from_kid is Some) == (m.enc_alg_auth is Some)
    &&& m.encrypted == (m.enc_alg_anon is Some || m.enc_alg_auth is Some) && m.encrypted == (m.encrypted_to_kids is Some)
    &&& m.non_repudiation == (m.sign_from is Some) && m.non_repudiation == (m.sign_alg is Some) && m.non_repudiation == (m.signed_message is Some)
    &&& m.authenticated == (m.encrypted_from_kid is Some || m.sign_from is Some)
    &&& m.re_wrapped_in_forward ==> m.anonymous_sender
}
/// no signature, no sender and no claim has been seen yet
pub open spec fn only_anon(m: UnpackMetadata) -> bool { m == (UnpackMetadata { encrypted: m.encrypted, anonymous_sender: m.anonymous_sender, enc_alg_anon: m.enc_alg_anon, encrypted_to_kids: m.encrypted_to_kids, re_wrapped_in_forward: m.re_wrapped_in_forward, ..fresh() }) }
pub proof fn hops_consistent(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, k: nat, t0: Seq<char>, t: Seq<char>, m: UnpackMetadata) requires hops(dr, sr, o, k, t0, t, m) ensures consistent(m), only_anon(m), m.re_wrapped_in_forward == (k > 0), k > 0 ==> o.unwrap_re_wrapping_forward decreases k
{
    if k > 0 {
        let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| hops(dr, sr, o, (k - 1) as nat, t0, t1, m1) && #[trigger] hop(dr, sr, o, t1, m1, t, m);
        hops_consistent(dr, sr, o, (k - 1) as nat, t0, t1, m1);
        let (n, r, u) = choose|n: UnpackMetadata, r: Result<Option<String>>, u: Result<Option<String>>| #![trigger anon_layer(t1, sr, o, m1, n, r), rewrapped((r->Ok_0)->0@, dr, sr, u)]
            anon_layer(t1, sr, o, m1, n, r) && r is Ok && r->Ok_0 is Some && o.unwrap_re_wrapping_forward && rewrapped((r->Ok_0)->0@, dr, sr, u) && u is Ok && u->Ok_0 is Some && t == (u->Ok_0)->0@ && m == (UnpackMetadata { re_wrapped_in_forward: true, ..n });
        anon_consistent(t1, sr, o, m1, n, r);
    }
}
/// every successful unpacking: the metadata is consistent; a sender or a signer is named only with the proof of it
pub open spec fn trustworthy(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata) -> bool {
    &&& m.encrypted_from_kid is Some ==> exists|t: Seq<char>, x: Seq<char>| #[trigger] came_from(t, dr, sr, o, m.encrypted_from_kid->0@, x)
    &&& m.sign_from is Some ==> exists|alg: crate::jws::Algorithm, x: Seq<char>| #[trigger] signed_with(m.signed_message->0@, dr, m.sign_from->0@, alg, x) && m.sign_alg == sign_alg_of(alg)
}
pub proof fn unpacking_is_sound(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires unpacked(text, dr, sr, o, r), r is Ok,
    ensures consistent((r->Ok_0).1), trustworthy(dr, sr, o, (r->Ok_0).1), (r->Ok_0).0.typ@ == plaintext_typ(), ((r->Ok_0).1.from_prior is Some) == ((r->Ok_0).0.from_prior is Some), ((r->Ok_0).1.from_prior_issuer_kid is Some) == ((r->Ok_0).0.from_prior is Some),
        (r->Ok_0).1.re_wrapped_in_forward ==> o.unwrap_re_wrapping_forward
{
    let (t, m, n, x) = choose|t: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, x: Result<Option<String>>| #[trigger] auth_at(text, dr, sr, o, t, m, n, x) && match x { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(x, t), dr, n, r) };
    peeled_consistent(text, dr, sr, o, t, m); auth_authentic(t, dr, sr, o, m, n, x); auth_consistent(t, dr, sr, o, m, n, x);
    let t2 = inner(x, t);
    let (n2, y) = choose|n2: UnpackMetadata, y: Result<Option<String>>| #[trigger] sign_layer(t2, dr, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => last_plain(inner(y, t2), dr, n2, r) };
    sign_authentic(t2, dr, n, n2, y);
    let t3 = inner(y, t2);
    let (n3, z) = choose|n3: UnpackMetadata, z: Result<Option<Message>>| #[trigger] plain_layer(t3, dr, n2, n3, z) && match z { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::Malformed), Ok(Some(z)) => r == Ok::<(Message, UnpackMetadata), Error>((z, n3)) };
    assert(n3 == (UnpackMetadata { from_prior: n3.from_prior, from_prior_issuer_kid: n3.from_prior_issuer_kid, ..n2 }));
}
pub proof fn peeled_consistent(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t2: Seq<char>, n: UnpackMetadata) requires peeled(text, dr, sr, o, t2, n) ensures consistent(n), only_anon(n), n.re_wrapped_in_forward ==> o.unwrap_re_wrapping_forward
{
    let (t, m) = choose|t: Seq<char>, m: UnpackMetadata| #[trigger] reached(dr, sr, o, text, t, m) && anon_done(t, dr, sr, o, m, t2, n);
    let k = choose|k: nat| #[trigger] hops(dr, sr, o, k, text, t, m); hops_consistent(dr, sr, o, k, text, t, m);
    let x = choose|x: Result<Option<String>>| #[trigger] anon_layer(t, sr, o, m, n, x) && x is Ok && t2 == inner(x, t) && (o.unwrap_re_wrapping_forward && x->Ok_0 is Some ==> rewrapped((x->Ok_0)->0@, dr, sr, Ok::<Option<String>, Error>(None)));
    anon_consistent(t, sr, o, m, n, x);
}
pub proof fn auth_consistent(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires auth_layer(t, dr, sr, o, m, n, r), r is Ok, consistent(m), only_anon(m), ensures consistent(n), n.sign_from is None, n.from_prior is None, n.from_prior_issuer_kid is None, n.re_wrapped_in_forward == m.re_wrapped_in_forward
{ auth_authentic(t, dr, sr, o, m, n, r); }
/// a text that is no envelope is taken as it is: the metadata says nothing
pub proof fn plain_has_no_protection(text: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires unpacked(text, dr, sr, o, r), r is Ok, json_de::<crate::jwe::envelope::JWE>(text) is Err, json_de::<crate::jws::JWS>(text) is Err,
    ensures (r->Ok_0).1 == (UnpackMetadata { from_prior: (r->Ok_0).1.from_prior, from_prior_issuer_kid: (r->Ok_0).1.from_prior_issuer_kid, ..fresh() }), json_de::<Message>(text) == Ok::<Message, serde_json::Error>((r->Ok_0).0)
{
    let (t, m, n, x) = choose|t: Seq<char>, m: UnpackMetadata, n: UnpackMetadata, x: Result<Option<String>>| #[trigger] auth_at(text, dr, sr, o, t, m, n, x) && match x { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(x, t), dr, n, r) };
    let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| #[trigger] reached(dr, sr, o, text, t1, m1) && anon_done(t1, dr, sr, o, m1, t, m);
    let k = choose|k: nat| #[trigger] hops(dr, sr, o, k, text, t1, m1); plain_hops(dr, sr, o, k, text, t1, m1);
}
pub proof fn plain_hops(dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, k: nat, t0: Seq<char>, t: Seq<char>, m: UnpackMetadata) requires hops(dr, sr, o, k, t0, t, m), json_de::<crate::jwe::envelope::JWE>(t0) is Err ensures k == 0 decreases k
{
    if k > 0 {
        let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| hops(dr, sr, o, (k - 1) as nat, t0, t1, m1) && #[trigger] hop(dr, sr, o, t1, m1, t, m);
        plain_hops(dr, sr, o, (k - 1) as nat, t0, t1, m1);
    }
}
