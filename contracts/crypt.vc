C06: to which keys, and from which key, a message is encrypted.

@module crate::algorithms src/algorithms.rs
@type AnonCryptAlg
@type AuthCryptAlg
@type SignAlg

@module crate::message::pack_encrypted::anoncrypt src/message/pack_encrypted/anoncrypt.rs
@raw
use crate::did::*; use crate::algorithms::*; use crate::utils::{did::*, crypto::*}; use crate::jwe; use crate::jwe::encrypt::encrypted; use crate::vx::{first, refs, pick, pick_is, pick_refs};
use crate::askar_crypto::{alg::{aes::*, chacha20::*, p256::*, x25519::*}, kdf::ecdh_es::EcdhEs};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
pub open spec fn fails<T>(r: Result<T>, k: ErrorKind) -> bool { r is Err && r->Err_0.kind == k }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
/// the key id, when the address is one
pub open spec fn kid_of(to: Seq<char>) -> Option<Seq<char>> { if to.contains('#') { Some(to) } else { None } }
pub open spec fn wanted(kid: Option<Seq<char>>) -> spec_fn(String) -> bool { |k: String| kid is None || kid->0 == k@ }
/// the key agreement keys of the document that are meant, in its order
pub open spec fn meant(d: DIDDoc, kid: Option<Seq<char>>) -> Seq<String> { d.key_agreement@.filter(wanted(kid)) }
/// the verification methods of these ids, when all are there
pub open spec fn lacks_method(d: DIDDoc, ids: Seq<String>) -> bool { exists|i: int| 0 <= i < ids.len() && method(d.verification_method@, (#[trigger] ids[i])@) is None }
pub open spec fn methods(d: DIDDoc, ids: Seq<String>) -> Seq<VerificationMethod> { ids.map_values(|s: String| method(d.verification_method@, s@)->0) }
pub broadcast proof fn meant_picked(d: DIDDoc, kid: Option<Seq<char>>, keep: Seq<bool>)
    requires keep.len() == d.key_agreement@.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == wanted(kid)(*refs(d.key_agreement@)[i]),
    ensures #![trigger meant(d, kid), pick(refs(d.key_agreement@), keep)] pick(refs(d.key_agreement@), keep) == refs(meant(d, kid)), forall|i: int| 0 <= i < meant(d, kid).len() ==> *pick(refs(d.key_agreement@), keep)[i] == #[trigger] meant(d, kid)[i]
{ let s = d.key_agreement@; assert forall|i: int| 0 <= i < s.len() implies #[trigger] keep[i] == wanted(kid)(s[i]) by { assert(*refs(s)[i] == s[i]); } pick_is(s, keep, wanted(kid)); pick_refs(s, keep); }
pub broadcast proof fn methods_picked(v: Seq<VerificationMethod>, s: Seq<&VerificationMethod>, keep: Seq<bool>, p: spec_fn(VerificationMethod) -> bool)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] s[i]) == v[i], keep.len() == v.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(**refs(s)[i]),
    ensures #![trigger v.filter(p), pick(refs(s), keep)] pick(refs(s), keep).len() == v.filter(p).len(), forall|i: int| 0 <= i < v.filter(p).len() ==> **(#[trigger] pick(refs(s), keep)[i]) == v.filter(p)[i]
    decreases v.len()
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] keep[i] == p(v[i]) by { assert(*refs(s)[i] == s[i]); }
    pick_is(v, keep, p);
    methods_picked2(v, s, keep);
    pick_refs(s, keep);
    assert forall|i: int| 0 <= i < v.filter(p).len() implies **(#[trigger] pick(refs(s), keep)[i]) == v.filter(p)[i] by { assert(*refs(pick(s, keep))[i] == pick(s, keep)[i]); }
}
pub proof fn methods_picked2(v: Seq<VerificationMethod>, s: Seq<&VerificationMethod>, keep: Seq<bool>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] s[i]) == v[i], keep.len() == v.len(),
    ensures pick(s, keep).len() == pick(v, keep).len(), forall|i: int| 0 <= i < pick(v, keep).len() ==> *(#[trigger] pick(s, keep)[i]) == pick(v, keep)[i]
    decreases v.len()
{ if v.len() > 0 { methods_picked2(v.drop_last(), s.drop_last(), keep.drop_last()); } }
pub open spec fn supported() -> spec_fn(VerificationMethod) -> bool { |v: VerificationMethod| v.alg() != KnownKeyAlg::Unsupported }
pub open spec fn of_type(a: KnownKeyAlg) -> spec_fn(VerificationMethod) -> bool { |v: VerificationMethod| v.alg() == a }
/// the recipients are these methods' keys, each under its method's id
pub open spec fn x_keys(vms: Seq<VerificationMethod>, r: Seq<(&str, &X25519KeyPair)>) -> bool { r.len() == vms.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == vms[i].id@ && vms[i].pair() == Some(KnownKeyPair::X25519(*r[i].1)) }
pub open spec fn p_keys(vms: Seq<VerificationMethod>, r: Seq<(&str, &P256KeyPair)>) -> bool { r.len() == vms.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == vms[i].id@ && vms[i].pair() == Some(KnownKeyPair::P256(*r[i].1)) }
/// out is text encrypted without a sender, with this algorithm, for the keys of these methods
pub open spec fn es_x(text: Seq<u8>, alg: AnonCryptAlg, vms: Seq<VerificationMethod>, out: Seq<char>) -> bool { match alg {
    AnonCryptAlg::A256cbcHs512EcdhEsA256kw => exists|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && x_keys(vms, r),
    AnonCryptAlg::Xc20pEcdhEsA256kw => exists|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && x_keys(vms, r),
    AnonCryptAlg::A256gcmEcdhEsA256kw => exists|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && x_keys(vms, r), } }
pub open spec fn es_p(text: Seq<u8>, alg: AnonCryptAlg, vms: Seq<VerificationMethod>, out: Seq<char>) -> bool { match alg {
    AnonCryptAlg::A256cbcHs512EcdhEsA256kw => exists|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && p_keys(vms, r),
    AnonCryptAlg::Xc20pEcdhEsA256kw => exists|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && p_keys(vms, r),
    AnonCryptAlg::A256gcmEcdhEsA256kw => exists|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && p_keys(vms, r), } }
pub open spec fn es_for(text: Seq<u8>, alg: AnonCryptAlg, a: KnownKeyAlg, vms: Seq<VerificationMethod>, out: Seq<char>) -> bool { match a { KnownKeyAlg::X25519 => es_x(text, alg, vms, out), KnownKeyAlg::P256 => es_p(text, alg, vms, out), _ => false } }
/// every one of these methods has a key, and it is of this type
pub open spec fn of_kind(k: KnownKeyAlg, p: Option<KnownKeyPair>) -> bool { match (k, p) { (KnownKeyAlg::X25519, Some(KnownKeyPair::X25519(_))) => true, (KnownKeyAlg::P256, Some(KnownKeyPair::P256(_))) => true, _ => false } }
pub open spec fn readable(k: KnownKeyAlg, vms: Seq<VerificationMethod>) -> bool { forall|i: int| 0 <= i < vms.len() ==> of_kind(k, (#[trigger] vms[i]).pair()) }
pub open spec fn anon_keys(vms: Seq<VerificationMethod>, msg: Seq<u8>, alg: AnonCryptAlg, r: Result<(String, Vec<String>)>) -> bool {
    let usable = vms.filter(supported());
    if usable.len() == 0 { fails(r, ErrorKind::InvalidState) }
    else if usable[0].alg() != KnownKeyAlg::X25519 && usable[0].alg() != KnownKeyAlg::P256 { fails(r, ErrorKind::InvalidState) }
    else { let to = vms.filter(of_type(usable[0].alg())); match r { Ok((out, ids)) => es_for(msg, alg, usable[0].alg(), to, out@) && ids_of(to, ids@), Err(e) => e.kind == ErrorKind::InvalidState || !readable(usable[0].alg(), to) } }
}
pub open spec fn ids_of(vms: Seq<VerificationMethod>, ids: Seq<String>) -> bool { ids.len() == vms.len() && forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i])@ == vms[i].id@ }
pub open spec fn anon_for(d: DIDDoc, kid: Option<Seq<char>>, msg: Seq<u8>, alg: AnonCryptAlg, r: Result<(String, Vec<String>)>) -> bool {
    let ids = meant(d, kid);
    if ids.len() == 0 { fails(r, ErrorKind::DIDUrlNotFound) }
    else if lacks_method(d, ids) { fails(r, ErrorKind::Unsupported) }
    else { anon_keys(methods(d, ids), msg, alg, r) }
}
/// r is what an anonymous encryption of msg for `to` gives
pub open spec fn anon(to: Seq<char>, dr: &dyn DIDResolver, msg: Seq<u8>, alg: AnonCryptAlg, r: Result<(String, Vec<String>)>) -> bool {
    exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(to), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => anon_for(d, kid_of(to), msg, alg, r) }
}
/// out is an anonymous encryption of msg for the recipient `to` with the algorithm alg, and kids are its recipients' key ids
pub open spec fn anon_packed(to: Seq<char>, dr: &dyn DIDResolver, msg: Seq<u8>, alg: AnonCryptAlg, out: Seq<char>, kids: Seq<String>) -> bool { exists|r: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, msg, alg, r) && r is Ok && (r->Ok_0).0@ == out && (r->Ok_0).1@ == kids }
pub broadcast proof fn anon_gives(to: Seq<char>, dr: &dyn DIDResolver, msg: Seq<u8>, alg: AnonCryptAlg, r: Result<(String, Vec<String>)>) requires #[trigger] anon(to, dr, msg, alg, r), r is Ok, ensures anon_packed(to, dr, msg, alg, (r->Ok_0).0@, (r->Ok_0).1@)
{ }
@fn anoncrypt -> r
@attr #[verifier::rlimit(30)]
ensures anon(to@, did_resolver, msg@, *enc_alg_anon, r),
@start
hide(encrypted); hide(method_pair); hide(method_alg);
broadcast use {value_axioms, did_unique, method_found, meant_picked, methods_picked};
@closure 1 -> (q: bool)
ensures q == (to_kid is None || to_kid->0@ == (**vx_p0)@)
@closure 4 -> (q: Result<&VerificationMethod>)
ensures match q { Ok(v) => method(to_ddoc.verification_method@, vx_p0@) == Some(*v), Err(e) => method(to_ddoc.verification_method@, vx_p0@) is None && e.kind == ErrorKind::Unsupported }
@closure 7 -> (q: bool)
ensures q == ((***vx_p0).alg() != KnownKeyAlg::Unsupported)
@closure 8 -> (q: KnownKeyAlg)
ensures q == (**vx_p0).alg()
@closure 10 -> (q: bool)
ensures q == ((***vx_p0).alg() == key_alg)
@closure 11 -> (q: Result<(&String, X25519KeyPair)>)
ensures match q { Ok((id, k)) => id@ == (**vx_p0).id@ && (**vx_p0).pair() == Some(KnownKeyPair::X25519(k)), Err(_) => !of_kind(KnownKeyAlg::X25519, (**vx_p0).pair()) }
@closure 14 -> (q: Result<(&String, P256KeyPair)>)
ensures match q { Ok((id, k)) => id@ == (**vx_p0).id@ && (**vx_p0).pair() == Some(KnownKeyPair::P256(k)), Err(_) => !of_kind(KnownKeyAlg::P256, (**vx_p0).pair()) }

@module crate::message::pack_encrypted::authcrypt src/message/pack_encrypted/authcrypt.rs
@raw
use crate::did::*; use crate::secrets::*; use crate::algorithms::*; use crate::utils::{did::*, crypto::*}; use crate::jwe; use crate::jwe::encrypt::encrypted; use crate::vx::{first, refs, pick, pick_is, pick_refs, views, firstk, searched};
use crate::message::pack_encrypted::anoncrypt::*; use crate::askar_crypto::{alg::{aes::*, chacha20::*, p256::*, x25519::*}, kdf::{ecdh_es::EcdhEs, ecdh_1pu::Ecdh1PU}};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
pub open spec fn lacks_named(d: DIDDoc, ids: Seq<&str>) -> bool { exists|i: int| 0 <= i < ids.len() && method(d.verification_method@, (#[trigger] ids[i])@) is None }
pub open spec fn named_methods(d: DIDDoc, ids: Seq<&str>) -> Seq<VerificationMethod> { ids.map_values(|s: &str| method(d.verification_method@, s@)->0) }
/// one of these methods has a key of the same type
pub open spec fn shared(tms: Seq<VerificationMethod>) -> spec_fn(VerificationMethod) -> bool { |v: VerificationMethod| exists|j: int| 0 <= j < tms.len() && (#[trigger] tms[j]).alg() == v.alg() }
pub open spec fn has_type(s: Seq<&VerificationMethod>, a: KnownKeyAlg) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).alg() == a }
pub broadcast proof fn shared_by(tms: Seq<VerificationMethod>, s: Seq<&VerificationMethod>, v: VerificationMethod, a: KnownKeyAlg)
    requires s.len() == tms.len(), forall|i: int| 0 <= i < tms.len() ==> *(#[trigger] s[i]) == tms[i], a == v.alg(),
    ensures #![trigger shared(tms)(v), has_type(s, a)] shared(tms)(v) == has_type(s, a)
{
    if has_type(s, a) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).alg() == a; assert(tms[j].alg() == v.alg()); }
    if shared(tms)(v) { let j = choose|j: int| 0 <= j < tms.len() && (#[trigger] tms[j]).alg() == v.alg(); assert(s[j].alg() == a); }
}
/// the sender's first usable key whose type a recipient's key has
pub open spec fn sender_key(fms: Seq<VerificationMethod>, tms: Seq<VerificationMethod>) -> Option<VerificationMethod> { first(fms.filter(supported()), shared(tms)) }
pub broadcast proof fn sender_found(v: Seq<VerificationMethod>, w: Seq<&&VerificationMethod>, keep: Seq<bool>, p: spec_fn(VerificationMethod) -> bool)
    requires w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> **(#[trigger] w[i]) == v[i], searched(w, keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(**w[i]),
    ensures #![trigger first(v, p), firstk(w, keep)] match first(v, p) { Some(x) => firstk(w, keep) is Some && **firstk(w, keep)->0 == x, None => firstk(w, keep) is None }
{
    sender_found2(v, w, keep);
    assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == p(v[i]) by { assert(**w[i] == v[i]); }
    crate::vx::firstk_all(v, keep, p);
}
pub proof fn sender_found2(v: Seq<VerificationMethod>, w: Seq<&&VerificationMethod>, keep: Seq<bool>)
    requires w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> **(#[trigger] w[i]) == v[i], keep.len() <= w.len(),
    ensures match firstk(v, keep) { Some(x) => firstk(w, keep) is Some && **firstk(w, keep)->0 == x, None => firstk(w, keep) is None }
    decreases keep.len()
{ if keep.len() > 0 { sender_found2(v, w, keep.drop_last()); assert(**w[keep.len() - 1] == v[keep.len() - 1]); } }
pub broadcast proof fn methods_kept(v: Seq<VerificationMethod>, s: Seq<&VerificationMethod>, keep: Seq<bool>, p: spec_fn(VerificationMethod) -> bool)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] s[i]) == v[i], keep.len() == v.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(*s[i]),
    ensures #![trigger v.filter(p), pick(s, keep)] pick(s, keep).len() == v.filter(p).len(), forall|i: int| 0 <= i < v.filter(p).len() ==> *(#[trigger] pick(s, keep)[i]) == v.filter(p)[i]
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] keep[i] == p(v[i]) by { assert(*s[i] == v[i]); }
    pick_is(v, keep, p); methods_picked2(v, s, keep);
}
pub open spec fn auth_x(text: Seq<u8>, to: Seq<VerificationMethod>, from: VerificationMethod, own: Secret, anon: AnonCryptAlg, cover: bool, out: Seq<char>) -> bool {
    exists|r: Seq<(&str, &X25519KeyPair)>, s: Option<(&str, &X25519KeyPair)>, inner: Seq<char>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, s, r, inner) && x_keys(to, r)
        && s is Some && (s->0).0@ == from.id@ && own.pair() == Some(KnownKeyPair::X25519(*(s->0).1)) && (if cover { es_x(utf8(inner), anon, to, out) } else { out == inner }) }
pub open spec fn auth_p(text: Seq<u8>, to: Seq<VerificationMethod>, from: VerificationMethod, own: Secret, anon: AnonCryptAlg, cover: bool, out: Seq<char>) -> bool {
    exists|r: Seq<(&str, &P256KeyPair)>, s: Option<(&str, &P256KeyPair)>, inner: Seq<char>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, s, r, inner) && p_keys(to, r)
        && s is Some && (s->0).0@ == from.id@ && own.pair() == Some(KnownKeyPair::P256(*(s->0).1)) && (if cover { es_p(utf8(inner), anon, to, out) } else { out == inner }) }
/// the message is encrypted by this key of the sender for the recipients' keys of its type
pub open spec fn auth_by(tms: Seq<VerificationMethod>, from: VerificationMethod, own: Secret, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool {
    let to = tms.filter(of_type(from.alg()));
    if from.alg() != KnownKeyAlg::X25519 && from.alg() != KnownKeyAlg::P256 { fails(r, ErrorKind::Unsupported) }
    else { match r { Ok((out, by, ids)) => (match from.alg() { KnownKeyAlg::X25519 => auth_x(msg, to, from, own, anon, cover, out@), _ => auth_p(msg, to, from, own, anon, cover, out@) }) && by@ == from.id@ && ids_of(to, ids@), Err(e) => e.kind == ErrorKind::InvalidState || !readable(from.alg(), to) || !of_kind(from.alg(), own.pair()) } }
}
pub open spec fn auth_keys(tms: Seq<VerificationMethod>, fms: Seq<VerificationMethod>, sr: &dyn SecretsResolver, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool { match sender_key(fms, tms) {
    None => fails(r, ErrorKind::NoCompatibleCrypto),
    Some(k) => exists|s: Result<Option<Secret>>| #[trigger] sr.secret(k.id@, s) && match s { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::InvalidState), Ok(Some(s)) => auth_by(tms, k, s, msg, anon, cover, r) } } }
pub open spec fn auth_found(td: DIDDoc, to: Option<Seq<char>>, fd: DIDDoc, own: Seq<&str>, sr: &dyn SecretsResolver, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool {
    let ids = meant(td, to);
    if own.len() == 0 { fails(r, ErrorKind::SecretNotFound) }
    else if lacks_named(fd, own) { fails(r, ErrorKind::Malformed) }
    else if ids.len() == 0 { fails(r, ErrorKind::DIDUrlNotFound) }
    else if lacks_method(td, ids) { fails(r, ErrorKind::Malformed) }
    else { auth_keys(methods(td, ids), named_methods(fd, own), sr, msg, anon, cover, r) }
}
pub open spec fn auth_docs(td: DIDDoc, to: Option<Seq<char>>, fd: DIDDoc, from: Option<Seq<char>>, sr: &dyn SecretsResolver, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool {
    let ids = meant(fd, from);
    if ids.len() == 0 { fails(r, ErrorKind::DIDUrlNotFound) }
    else { exists|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= texts(ids) && match f { Err(e) => fails(r, e.kind), Ok(v) => all_asked(q, v@) && auth_found(td, to, fd, v@, sr, msg, anon, cover, r) } }
}
pub open spec fn auth_from(td: DIDDoc, to: Option<Seq<char>>, from: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool {
    exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(from), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => auth_docs(td, to, d, kid_of(from), sr, msg, anon, cover, r) }
}
/// r is what an authenticated encryption of msg from `from` for `to` gives, hidden in an anonymous one if asked for
pub open spec fn auth(to: Seq<char>, from: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, msg: Seq<u8>, anon: AnonCryptAlg, cover: bool, r: Result<(String, String, Vec<String>)>) -> bool {
    exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did_part(to), d) && match d { Err(e) => fails(r, e.kind), Ok(None) => fails(r, ErrorKind::DIDNotResolved), Ok(Some(d)) => auth_from(d, kid_of(to), from, dr, sr, msg, anon, cover, r) }
}
@fn authcrypt -> r
@attr #[verifier::rlimit(40)]
ensures auth(to@, from@, did_resolver, secrets_resolver, msg@, *enc_alg_anon, protect_sender, r),
@start
hide(encrypted); hide(method_pair); hide(method_alg); hide(secret_pair);
broadcast use {value_axioms, did_unique, method_found, meant_picked, methods_picked, methods_kept, sender_found, shared_by};
@closure 2 -> (q: bool)
ensures q == (from_kid is None || from_kid->0@ == (**vx_p0)@)
@closure 5 -> (q: Result<&VerificationMethod>)
ensures match q { Ok(v) => method(from_ddoc.verification_method@, vx_p0@) == Some(*v), Err(e) => method(from_ddoc.verification_method@, vx_p0@) is None && e.kind == ErrorKind::Malformed }
@closure 7 -> (q: Error)
ensures q.kind == ErrorKind::Malformed
@closure 8 -> (q: bool)
ensures q == (to_kid is None || to_kid->0@ == (**vx_p0)@)
@closure 11 -> (q: Result<&VerificationMethod>)
ensures match q { Ok(v) => method(to_ddoc.verification_method@, vx_p0@) == Some(*v), Err(e) => method(to_ddoc.verification_method@, vx_p0@) is None && e.kind == ErrorKind::Malformed }
@closure 13 -> (q: Error)
ensures q.kind == ErrorKind::Malformed
@closure 14 -> (q: bool)
ensures q == ((***vx_p0).alg() != KnownKeyAlg::Unsupported)
@closure 15 -> (q: bool)
ensures q == has_type(to_keys@, (***vx_p0).alg())
@closure 16 -> (q: bool)
ensures q == ((***vx_p0).alg() == (***from_key).alg())
@closure 20 -> (q: bool)
ensures q == ((**vx_p0).alg() == key_alg)
@closure 21 -> (q: Result<(&String, X25519KeyPair)>)
ensures match q { Ok((id, k)) => id@ == (**vx_p0).id@ && (**vx_p0).pair() == Some(KnownKeyPair::X25519(k)), Err(_) => !of_kind(KnownKeyAlg::X25519, (**vx_p0).pair()) }
@closure 24 -> (q: Result<(&String, P256KeyPair)>)
ensures match q { Ok((id, k)) => id@ == (**vx_p0).id@ && (**vx_p0).pair() == Some(KnownKeyPair::P256(k)), Err(_) => !of_kind(KnownKeyAlg::P256, (**vx_p0).pair()) }
