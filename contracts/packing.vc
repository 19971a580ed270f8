C24: packing, from the message to the envelope.

@module crate::message::pack_plaintext src/message/pack_plaintext.rs
@raw
use crate::utils::did::*; use crate::message::from_prior::pack::{fails, dids_ok, kid_ok}; use crate::message::from_prior::unpack::prior;
/// the JSON text of the message
pub open spec fn written(m: Message, r: Result<String>) -> bool { match json_ser(&m) { Ok(s) => r is Ok && r->Ok_0@ == s, Err(_) => fails(r, ErrorKind::InvalidState) } }
/// the claim is one that the message's sender may carry
pub open spec fn carried(m: Message, c: FromPrior, kid: Seq<char>, r: Result<String>) -> bool {
    if !dids_ok(c) { fails(r, ErrorKind::Malformed) }
    else if !kid_ok(c, Some(slice_of(kid))) { fails(r, ErrorKind::IllegalArgument) }
    else if m.from is Some && c.sub@ != m.from->0@ { fails(r, ErrorKind::Malformed) }
    else { written(m, r) }
}
/// r is the plaintext of m
pub open spec fn plaintext(m: Message, dr: &dyn DIDResolver, r: Result<String>) -> bool { match m.from_prior {
    None => written(m, r),
    Some(j) => exists|p: Result<(FromPrior, String)>| #[trigger] prior(j@, dr, p) && match p { Err(e) => fails(r, e.kind), Ok(c) => carried(m, c.0, c.1@, r) } } }
@fn Message :: _validate_pack_plaintext -> r
ensures match from_prior { None => r is Ok, Some(c) => match r { Ok(_) => dids_ok(*c) && kid_ok(*c, from_prior_issuer_kid) && (self.from is Some ==> c.sub@ == self.from->0@),
    Err(e) => if !dids_ok(*c) { e.kind == ErrorKind::Malformed } else if !kid_ok(*c, from_prior_issuer_kid) { e.kind == ErrorKind::IllegalArgument } else { self.from is Some && c.sub@ != self.from->0@ && e.kind == ErrorKind::Malformed } } },
@fn Message :: pack_plaintext -> r
ensures plaintext(*self, did_resolver, r),
@start
broadcast use value_axioms;

@module crate::message::pack_signed src/message/pack_signed.rs
@raw
use crate::jws; use crate::jws::*; use crate::utils::crypto::*; use crate::message::pack_plaintext::*; use crate::message::from_prior::pack::fails;
/// out is the signed message of this text by this key
pub open spec fn sealed(text: Seq<char>, kid: Seq<char>, key: KnownKeyPair, r: Result<(String, PackSignedMetadata)>) -> bool {
    match key {
        KnownKeyPair::X25519(_) => fails(r, ErrorKind::Unsupported),
        KnownKeyPair::Ed25519(k) => r is Ok ==> (r->Ok_0).1.sign_by_kid@ == kid && crate::jws::sign::signed(utf8(text), kid, k, jws::Algorithm::EdDSA, (r->Ok_0).0@),
        KnownKeyPair::P256(k) => r is Ok ==> (r->Ok_0).1.sign_by_kid@ == kid && crate::jws::sign::signed(utf8(text), kid, k, jws::Algorithm::Es256, (r->Ok_0).0@),
        KnownKeyPair::K256(k) => r is Ok ==> (r->Ok_0).1.sign_by_kid@ == kid && crate::jws::sign::signed(utf8(text), kid, k, jws::Algorithm::Es256K, (r->Ok_0).0@),
    }
}
pub open spec fn with_key(m: Message, dr: &dyn DIDResolver, kid: Seq<char>, key: Option<KnownKeyPair>, r: Result<(String, PackSignedMetadata)>) -> bool { match key {
    None => r is Err,
    Some(k) => exists|p: Result<String>| #[trigger] plaintext(m, dr, p) && match p { Err(e) => fails(r, e.kind), Ok(t) => sealed(t@, kid, k, r) } } }
pub open spec fn with_secret(m: Message, dr: &dyn DIDResolver, kid: Seq<char>, sr: &dyn SecretsResolver, r: Result<(String, PackSignedMetadata)>) -> bool {
    exists|s: Result<Option<Secret>>| #[trigger] sr.secret(kid, s) && match s { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::SecretNotFound), Ok(Some(s)) => with_key(m, dr, kid, s.pair(), r) }
}
/// the keys that may sign: the one named, if it is an authentication key, or all authentication keys
pub open spec fn may_sign(d: DIDDoc, kid: Option<Seq<char>>) -> Option<Seq<Seq<char>>> { match kid { None => Some(d.authentication@.map_values(|s: String| s@)), Some(k) => if lists(d.authentication@, k) { Some(seq![k]) } else { None } } }
pub open spec fn with_doc(m: Message, dr: &dyn DIDResolver, d: DIDDoc, kid: Option<Seq<char>>, sr: &dyn SecretsResolver, r: Result<(String, PackSignedMetadata)>) -> bool { match may_sign(d, kid) {
    None => fails(r, ErrorKind::DIDUrlNotFound),
    Some(kids) => exists|ids: Seq<&str>, f: Result<Vec<&str>>| ids.map_values(|s: &str| s@) =~= kids && #[trigger] sr.found(ids, f) && match f {
        Err(e) => fails(r, e.kind),
        Ok(v) => all_asked(ids, v@) && if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { with_secret(m, dr, v@[0]@, sr, r) } } } }
pub open spec fn key_named(by: Seq<char>) -> Option<Seq<char>> { if by.contains('#') { Some(by) } else { None } }
/// r is what signing m by `by` gives
pub open spec fn signature(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, r: Result<(String, PackSignedMetadata)>) -> bool {
    if !is_did_spec(by) { fails(r, ErrorKind::IllegalArgument) }
    else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(by), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => with_doc(m, dr, d, key_named(by), sr, r) } }
}
@fn Message :: pack_signed -> r
ensures signature(*self, sign_by@, did_resolver, secrets_resolver, r),
@start
broadcast use {value_axioms, did_unique};
@after authentications
proof { assert(may_sign(did_doc, key_named(sign_by@)) is Some); assert(authentications@.map_values(|s: &str| s@) =~= may_sign(did_doc, key_named(sign_by@))->0); }

@module crate::message::pack_encrypted src/message/pack_encrypted/mod.rs
@raw
use crate::message::from_prior::pack::fails as refused; use crate::protocols::routing::routed;
/// what is sent: the envelope, or its onion for the mediators
pub open spec fn sent(env: Seq<char>, from: Option<String>, kids: Vec<String>, by: Option<String>, to: Seq<char>, dr: &dyn DIDResolver, o: PackEncryptedOptions, r: Result<(String, PackEncryptedMetadata)>) -> bool {
    exists|w: Result<Option<(String, MessagingServiceMetadata)>>| #[trigger] routed(env, to, dr, o, w) && match w {
        Err(e) => refused(r, e.kind),
        Ok(None) => r is Ok && (r->Ok_0).0@ == env && (r->Ok_0).1 == (PackEncryptedMetadata { messaging_service: None, from_kid: from, sign_by_kid: by, to_kids: kids }),
        Ok(Some(w)) => r is Ok && (r->Ok_0).0 == w.0 && (r->Ok_0).1 == (PackEncryptedMetadata { messaging_service: Some(w.1), from_kid: from, sign_by_kid: by, to_kids: kids }) }
}
/// encrypted by the sender, or anonymously, and sent
pub open spec fn conveyed(text: Seq<char>, by: Option<String>, to: Seq<char>, from: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, r: Result<(String, PackEncryptedMetadata)>) -> bool { match from {
    None => exists|q: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, utf8(text), o.enc_alg_anon, q) && match q { Err(e) => refused(r, e.kind), Ok(q) => sent(q.0@, None, q.1, by, to, dr, o, r) },
    Some(from) => exists|q: Result<(String, String, Vec<String>)>| #[trigger] auth(to, from@, dr, sr, utf8(text), o.enc_alg_anon, o.protect_sender, q) && match q { Err(e) => refused(r, e.kind), Ok(q) => sent(q.0@, Some(q.1), q.2, by, to, dr, o, r) } } }
/// r is what packing m for `to` gives: its plaintext, or its signed form, conveyed
pub open spec fn packing(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, r: Result<(String, PackEncryptedMetadata)>) -> bool {
    if !may_pack(m, to, from, by) { refused(r, ErrorKind::IllegalArgument) }
    else { match by {
        None => exists|p: Result<String>| #[trigger] plaintext(m, dr, p) && match p { Err(e) => refused(r, e.kind), Ok(t) => conveyed(t@, None, to, from, dr, sr, o, r) },
        Some(by) => exists|p: Result<(String, PackSignedMetadata)>| #[trigger] signature(m, by@, dr, sr, p) && match p { Err(e) => refused(r, e.kind), Ok(t) => conveyed(t.0@, Some(t.1.sign_by_kid), to, from, dr, sr, o, r) } } }
}
@fn Message :: pack_encrypted -> r
ensures packing(*self, to@, from, sign_by, did_resolver, secrets_resolver, *options, r),
@start
broadcast use value_axioms;
