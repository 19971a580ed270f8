C08: signing and verifying a from_prior claim.

@module crate::message::from_prior::pack src/message/from_prior/pack.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::jws; use crate::jws::*; use crate::did::*; use crate::secrets::*; use crate::utils::{did::*, crypto::*}; use crate::message::from_prior::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
pub open spec fn bare_did(s: Seq<char>) -> bool { is_did_spec(s) && !s.contains('#') }
pub open spec fn dids_ok(c: FromPrior) -> bool { bare_did(c.iss@) && bare_did(c.sub@) && c.iss@ != c.sub@ }
/// the key id is a DID URL of the issuer
pub open spec fn kid_ok(c: FromPrior, kid: Option<&str>) -> bool { kid is Some ==> kid->0@.contains('#') && did_part(kid->0@) == c.iss@ }
@fn FromPrior :: validate_pack -> r
ensures match r { Ok(_) => dids_ok(*self) && kid_ok(*self, issuer_kid), Err(e) => if dids_ok(*self) { !kid_ok(*self, issuer_kid) && e.kind == ErrorKind::IllegalArgument } else { e.kind == ErrorKind::Malformed } },
@start
broadcast use did_unique;
@raw
pub open spec fn fails<T>(r: Result<T>, k: ErrorKind) -> bool { r is Err && r->Err_0.kind == k }
/// the keys that may sign: the given one, if the issuer has it, or all the issuer's authentication keys
pub open spec fn signers(d: DIDDoc, kid: Option<&str>) -> Option<Seq<Seq<char>>> { match kid { None => Some(d.authentication@.map_values(|s: String| s@)), Some(k) => if lists(d.authentication@, k@) { Some(seq![k@]) } else { None } } }
/// jwt is the compact JWS of the claims by this key
pub open spec fn jwt_by(c: FromPrior, kid: Seq<char>, key: Option<KnownKeyPair>, r: Result<(String, String)>) -> bool {
    let text = utf8(json_ser(&c)->Ok_0);
    match key {
        None => r is Err,
        Some(KnownKeyPair::X25519(_)) => fails(r, ErrorKind::Unsupported),
        Some(KnownKeyPair::Ed25519(k)) => r is Ok ==> r->Ok_0.1@ == kid && crate::jws::sign::signed_compact(text, kid, k, "JWT"@, Algorithm::EdDSA, r->Ok_0.0@),
        Some(KnownKeyPair::P256(k)) => r is Ok ==> r->Ok_0.1@ == kid && crate::jws::sign::signed_compact(text, kid, k, "JWT"@, Algorithm::Es256, r->Ok_0.0@),
        Some(KnownKeyPair::K256(k)) => r is Ok ==> r->Ok_0.1@ == kid && crate::jws::sign::signed_compact(text, kid, k, "JWT"@, Algorithm::Es256K, r->Ok_0.0@),
    }
}
/// signed with the first of the keys with a stored secret
pub open spec fn by_secret(c: FromPrior, kid: Seq<char>, sr: &dyn SecretsResolver, r: Result<(String, String)>) -> bool {
    exists|s: Result<Option<Secret>>| #[trigger] sr.secret(kid, s) && match s { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::SecretNotFound), Ok(Some(s)) => jwt_by(c, kid, s.pair(), r) }
}
pub open spec fn by_doc(c: FromPrior, d: DIDDoc, kid: Option<&str>, sr: &dyn SecretsResolver, r: Result<(String, String)>) -> bool {
    match signers(d, kid) {
        None => fails(r, ErrorKind::DIDUrlNotFound),
        Some(kids) => exists|ids: Seq<&str>, f: Result<Vec<&str>>| ids.map_values(|s: &str| s@) =~= kids && #[trigger] sr.found(ids, f) && match f {
            Err(e) => fails(r, e.kind),
            Ok(v) => all_asked(ids, v@) && if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { by_secret(c, v@[0]@, sr, r) } }
    }
}
pub open spec fn packed(c: FromPrior, kid: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, r: Result<(String, String)>) -> bool {
    if !dids_ok(c) { fails(r, ErrorKind::Malformed) } else if !kid_ok(c, kid) { fails(r, ErrorKind::IllegalArgument) } else if json_ser(&c) is Err { fails(r, ErrorKind::InvalidState) }
    else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(c.iss@, d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => by_doc(c, d, kid, sr, r) } }
}
@fn FromPrior :: pack -> r
ensures packed(*self, issuer_kid, did_resolver, secrets_resolver, r),
@start
broadcast use {value_axioms, did_unique, method_found};
@after authentication_kids
proof { assert(signers(did_doc, issuer_kid) is Some); assert(authentication_kids@.map_values(|s: &str| s@) =~= signers(did_doc, issuer_kid)->0); }
@raw
/// so a packed claim is one that names distinct DIDs, and is signed with a stored secret of the issuer's authentication key that it names
pub proof fn issued_by_issuer(c: FromPrior, kid: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, r: Result<(String, String)>)
    requires packed(c, kid, dr, sr, r), r is Ok,
    ensures dids_ok(c), kid is Some ==> kid->0@ == r->Ok_0.1@,
        exists|d: DIDDoc, s: Secret| #[trigger] dr.resolves(c.iss@, Ok(Some(d))) && lists(d.authentication@, r->Ok_0.1@) && #[trigger] sr.secret(r->Ok_0.1@, Ok(Some(s))) && jwt_by(c, r->Ok_0.1@, s.pair(), r),
{
    let d = choose|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(c.iss@, d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => by_doc(c, d, kid, sr, r) };
    let doc = d->Ok_0->0; let kids = signers(doc, kid)->0;
    let (ids, f) = choose|ids: Seq<&str>, f: Result<Vec<&str>>| ids.map_values(|s: &str| s@) =~= kids && #[trigger] sr.found(ids, f) && match f { Err(e) => fails(r, e.kind), Ok(v) => all_asked(ids, v@) && if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { by_secret(c, v@[0]@, sr, r) } };
    let v = f->Ok_0;
    let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j])@ == v@[0]@;
    assert(kids[j] == ids[j]@);
    let k = v@[0]@;
    let s = choose|s: Result<Option<Secret>>| #[trigger] sr.secret(k, s) && match s { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::SecretNotFound), Ok(Some(s)) => jwt_by(c, k, s.pair(), r) };
    let x = s->Ok_0->0;
    assert(s == Ok::<Option<Secret>, Error>(Some(x))); assert(d == Ok::<Option<DIDDoc>, Error>(Some(doc)));
    if kid is None { assert(doc.authentication@[j]@ == k); }
}

@module crate::message::from_prior::unpack src/message/from_prior/unpack.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jws; use crate::jws::*; use crate::did::*; use crate::secrets::*; use crate::utils::{did::*, crypto::*}; use crate::message::from_prior::*; use crate::message::from_prior::pack::{fails, bare_did};
use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// what the signature says under this key, which must be of the type that the named algorithm has
pub open spec fn checked(p: ParsedCompactJWS, key: Option<KnownKeyPair>) -> Option<bool> { match (p.parsed_header.alg, key) {
    (Algorithm::EdDSA, Some(KnownKeyPair::Ed25519(k))) => judged(k, p.parsed_header.alg, p.header@, p.payload@, p.signature@),
    (Algorithm::Es256, Some(KnownKeyPair::P256(k))) => judged(k, p.parsed_header.alg, p.header@, p.payload@, p.signature@),
    (Algorithm::Es256K, Some(KnownKeyPair::K256(k))) => judged(k, p.parsed_header.alg, p.header@, p.payload@, p.signature@),
    _ => None } }
/// the verification method that the key id names, when it is an authentication key
pub open spec fn auth_key(d: DIDDoc, kid: Seq<char>) -> Option<VerificationMethod> { if lists(d.authentication@, kid) { method(d.verification_method@, kid) } else { None } }
/// the claims in the payload
pub open spec fn claims_of(p: Seq<char>) -> Option<FromPrior> { match b64d(p) { None => None, Some(b) => match text_of(b) { None => None, Some(t) => match json_de::<FromPrior>(t) { Ok(c) => Some(c), Err(_) => None } } } }
pub open spec fn verified(p: ParsedCompactJWS, d: DIDDoc, r: Result<(FromPrior, String)>) -> bool {
    let kid = p.parsed_header.kid@;
    match auth_key(d, kid) {
        None => fails(r, ErrorKind::DIDUrlNotFound),
        Some(v) => match checked(p, v.pair()) {
            Some(true) => match claims_of(p.payload@) { Some(c) if c.iss@ == did_part(kid) => r is Ok && r->Ok_0.0 == c && r->Ok_0.1@ == kid, _ => fails(r, ErrorKind::Malformed) },
            Some(false) => fails(r, ErrorKind::Malformed),
            None => r is Err && (p.parsed_header.alg is Other ==> fails(r, ErrorKind::Unsupported)) } }
}
pub open spec fn unpacked(p: ParsedCompactJWS, dr: &dyn DIDResolver, r: Result<(FromPrior, String)>) -> bool {
    if p.parsed_header.typ@ != "JWT"@ || !p.parsed_header.kid@.contains('#') { fails(r, ErrorKind::Malformed) }
    else { exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(p.parsed_header.kid@), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => verified(p, d, r) } }
}
/// r is what the claim in jwt gives: its claims and the key id, when the issuer's authentication key signed it
pub open spec fn prior(jwt: Seq<char>, dr: &dyn DIDResolver, r: Result<(FromPrior, String)>) -> bool { (fails(r, ErrorKind::Malformed) && unparsed(jwt, seq![])) || exists|p: ParsedCompactJWS| #[trigger] parsed_as(jwt, p, seq![]) && unpacked(p, dr, r) }
@fn FromPrior :: unpack -> r
@attr #[verifier::rlimit(60)]
ensures prior(from_prior_jwt@, did_resolver, r),
@start
broadcast use {value_axioms, did_unique, method_found};
