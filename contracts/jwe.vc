C22: JWE, encryption and decryption.

@module crate::jwe src/jwe/mod.rs
@raw
pub use crate::jwe::envelope::*; pub use crate::jwe::encrypt::encrypt; pub use crate::jwe::parse::*;

@module crate::jwk src/jwk.rs
@raw
/// the JSON value of a key's public JWK
pub open spec fn public_value<K>(k: K, v: Value) -> bool { serde_json::json_de::<Value>(public_jwk(k)) == Ok::<Value, serde_json::Error>(v) }
@trait ToJwkValue
@fn trait ToJwkValue :: to_jwk_public_value -> r
ensures match r { Ok(v) => public_value(*self, v), Err(e) => e.kind == ErrorKind::InvalidState },
@impls ToJwkValue

@module crate::utils::crypto src/utils/crypto.rs
@raw
use crate::askar_crypto::{encrypt::*, repr::*, buffer::*, kdf::*}; use crate::askar_crypto::kdf::{ecdh_es::*, ecdh_1pu::*}; use crate::askar_crypto::alg::aes::*;
/// w is the key `key` wrapped under kw
pub open spec fn wrapped<W, K>(kw: W, key: K, w: Seq<u8>) -> bool { secret_of(key) is Some && exists|n: int| #[trigger] sealed(kw, secret_of(key)->0, seq![], seq![], w, n) }
/// the key that unwrapping gives
pub open spec fn unwrapped<W, K>(kw: W, w: Seq<u8>) -> Option<K> { match opened(kw, w, seq![], seq![]) { Some(b) => key_of_secret(b), None => None } }
@trait KeyWrap
@fn trait KeyWrap :: wrap_key -> r
ensures match r { Ok(b) => wrapped(*self, *key, b.v@), Err(e) => e.kind == ErrorKind::InvalidState },
@fn trait KeyWrap :: unwrap_key -> r
ensures match r { Ok(k) => unwrapped::<Self, K>(*self, ciphertext@) == Some(k), Err(e) => unwrapped::<Self, K>(*self, ciphertext@) is None && e.kind == ErrorKind::Malformed },
@impls KeyWrap
@trait JoseKDF
spec fn derived(e: Key, s: Option<Key>, r: Key, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>, receive: bool) -> Option<KW>;
@fn trait JoseKDF :: derive_key -> r
ensures match r { Ok(k) => Self::derived(*ephem_key, at_ref(send_key), *recip_key, alg@, apu@, apv@, cc_tag@, receive) == Some(k), Err(e) => e.kind == ErrorKind::InvalidState && Self::derived(*ephem_key, at_ref(send_key), *recip_key, alg@, apu@, apv@, cc_tag@, receive) is None },
@raw
pub open spec fn at_ref<K>(o: Option<&K>) -> Option<K> { match o { Some(k) => Some(*k), None => None } }
@impl JoseKDF for Ecdh1PU
open spec fn derived(e: Key, s: Option<Key>, r: Key, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>, receive: bool) -> Option<KW> { match s { Some(s) => kdf_1pu(e, s, r, alg, apu, apv, tag, receive), None => None } }
@fn JoseKDF for Ecdh1PU :: derive_key -> r
@impl JoseKDF for EcdhEs
open spec fn derived(e: Key, s: Option<Key>, r: Key, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>, receive: bool) -> Option<KW> { kdf_es(e, r, alg, apu, apv, receive) }
@fn JoseKDF for EcdhEs :: derive_key -> r

@module crate::jwe::encrypt src/jwe/encrypt.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jwe::envelope::*; use crate::jwk::*; use crate::utils::crypto::*; use crate::sha2::*; use crate::askar_crypto::random;
use crate::askar_crypto::{encrypt::*, repr::*, buffer::*, kdf::*};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
pub open spec fn b64e(b: Seq<u8>) -> Seq<char> { base64::enc(base64::URL_SAFE_NO_PAD, b) }
pub open spec fn names<KE>(r: Seq<(&str, &KE)>) -> Seq<Seq<char>> { r.map_values(|x: (&str, &KE)| x.0@) }
/// the parts of an envelope and what they are made of
pub open spec fn is_header<KE>(h: ProtectedHeader, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, epk: Value) -> bool {
    &&& h.typ is Some && h.typ->0.cv() == "application/didcomm-encrypted+json"@ && h.alg == alg && h.enc == enc && h.epk == epk
    &&& match sender { Some((skid, _)) => h.skid is Some && h.skid->0@ == skid@ && h.apu is Some && h.apu->0@ == b64e(utf8(skid@)), None => h.skid is None && h.apu is None }
    &&& h.apv@ == b64e(crate::jwe::parse::apv_of(names(recipients)))
}
/// protected is the encoded header
pub open spec fn header_text<KE>(alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, epk: Value, protected: Seq<char>) -> bool {
    exists|h: ProtectedHeader| is_header(h, alg, enc, sender, recipients, epk) && #[trigger] json_ser(&h) is Ok && protected == b64e(utf8(json_ser(&h)->Ok_0))
}
pub open spec fn apu_of<KE>(sender: Option<(&str, &KE)>) -> Seq<u8> { match sender { Some((s, _)) => utf8(s@), None => seq![] } }
pub open spec fn skey_of<KE>(sender: Option<(&str, &KE)>) -> Option<KE> { match sender { Some((_, k)) => Some(*k), None => None } }
/// k is the content key, wrapped for one recipient
pub open spec fn is_wrapped<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange, KW: KeyWrap>(k: Seq<char>, cek: CE, epk: KE, skey: Option<KE>, key: KE, alg: Algorithm, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>) -> bool {
    exists|w: Seq<u8>, kw: KW| #[trigger] wrapped(kw, cek, w) && k == b64e(w) && KDF::derived(epk, skey, key, utf8(alg_name(alg)), apu, apv, tag, false) == Some(kw)
}
/// the content is text sealed under cek with the header text as what is authenticated with it, and every recipient, in order, has cek wrapped for them
pub open spec fn is_jwe<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange, KW: KeyWrap>(text: Seq<u8>, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, j: JWE, cek: CE, epk: KE) -> bool {
    &&& exists|v: Value| #[trigger] public_value(epk, v) && header_text(alg, enc, sender, recipients, v, j.protected@)
    &&& exists|iv: Seq<u8>, aad: Seq<u8>, buf: Seq<u8>, n: int| #[trigger] sealed(cek, text, iv, aad, buf, n) && aad == utf8(j.protected@) && 0 <= n <= buf.len() && j.iv@ == b64e(iv) && j.ciphertext@ == b64e(buf.subrange(0, n)) && j.tag@ == b64e(buf.subrange(n, buf.len() as int))
        && keys_for::<CE, KDF, KE, KW>(j.recipients@, cek, epk, sender, recipients, alg, buf.subrange(n, buf.len() as int))
}
pub open spec fn keys_for<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange, KW: KeyWrap>(r: Seq<Recipient>, cek: CE, epk: KE, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, alg: Algorithm, tag: Seq<u8>) -> bool {
    r.len() == recipients.len() && forall|i: int| 0 <= i < recipients.len() ==> (#[trigger] r[i]).header.kid@ == recipients[i].0@ && is_wrapped::<CE, KDF, KE, KW>(r[i].encrypted_key@, cek, epk, skey_of(sender), *recipients[i].1, alg, apu_of(sender), crate::jwe::parse::apv_of(names(recipients)), tag)
}
/// out is the JWE of text, with fresh keys
pub open spec fn encrypted<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange, KW: KeyWrap>(text: Seq<u8>, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, out: Seq<char>) -> bool {
    exists|j: JWE, cek: CE, epk: KE| #![trigger json_ser(&j), generated(cek), generated(epk)] json_ser(&j) == Ok::<Seq<char>, serde_json::Error>(out) && generated(cek) && generated(epk) && is_jwe::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, j, cek, epk)
}
@fn encrypt -> r
ensures match r { Ok(s) => encrypted::<CE, KDF, KE, KW>(plaintext@, alg, enc, sender, recipients@, s@), Err(e) => e.kind == ErrorKind::InvalidState },
@start
broadcast use {crate::askar_crypto::bytes_len, value_axioms};
proof { assert forall|v: Seq<&str>| v.len() == recipients@.len() && (forall|i: int| 0 <= i < v.len() ==> v[i]@ == recipients@[i].0@) implies #[trigger] views(v) == names(recipients@) by { assert(views(v) =~= names(recipients@)); } }
@closure 3 -> (q: Recipient)
ensures q.header.kid@ == vx_p0.0@, q.encrypted_key@ == vx_p0.1@
@loop 0
invariant encrypted_keys@.len() == vx_s0.len() - vx_it0@.len(), vx_s0 == refs(recipients@), generated(cek), generated(epk),
    forall|i: int| 0 <= i < encrypted_keys@.len() ==> (#[trigger] encrypted_keys@[i]).0@ == recipients@[i].0@ && is_wrapped::<CE, KDF, KE, KW>(encrypted_keys@[i].1@, cek, epk, skey_of(sender), *recipients@[i].1, alg, apu_of(sender), crate::jwe::parse::apv_of(names(recipients@)), tag_raw@),

@module crate::jwe::decrypt src/jwe/decrypt.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jwe::envelope::*; use crate::jwe::parse::*; use crate::jwk::*; use crate::utils::crypto::*; use crate::jwe::encrypt::b64e;
use crate::askar_crypto::{encrypt::*, repr::*, buffer::*, kdf::*};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// the first recipient named kid
pub open spec fn entry<'a>(r: Seq<Recipient<'a>>, kid: Seq<char>) -> Option<Recipient<'a>> { first(r, named(kid)) }
pub open spec fn named<'a>(kid: Seq<char>) -> spec_fn(Recipient<'a>) -> bool { |x: Recipient<'a>| x.header.kid@ == kid }
pub broadcast proof fn entry_found<'a>(r: Seq<Recipient<'a>>, kid: Seq<char>, keep: Seq<bool>)
    requires crate::vx::searched(refs(r), keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == ((*refs(r)[i]).header.kid@ == kid),
    ensures #![trigger entry(r, kid), crate::vx::firstk(refs(r), keep)] match entry(r, kid) { Some(x) => crate::vx::firstk(refs(r), keep) == Some(&x), None => crate::vx::firstk(refs(r), keep) is None }
{ first_ref_all(r, named(kid)); assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == named(kid)(*refs(r)[i]) by {} }
/// the content key, as the recipient gets it
pub open spec fn cek_of<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(p: ParsedJWE, skey: Option<KE>, kid: Seq<char>, key: KE) -> Option<CE> {
    match (entry(p.jwe.recipients@, kid), of_jwk::<KE>(p.protected.epk), b64(p.jwe.tag@)) { (Some(e), Some(epk), Some(tag)) =>
        match (b64(e.encrypted_key@), KDF::derived(epk, skey, key, utf8(alg_name(p.protected.alg)), match p.apu { Some(a) => a@, None => seq![] }, p.apv@, tag, true)) { (Some(w), Some(kw)) => unwrapped(kw, w), _ => None }, _ => None }
}
/// what the recipient reads
pub open spec fn decrypted<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(p: ParsedJWE, sender: Option<(&str, &KE)>, kid: Seq<char>, key: KE) -> Option<Seq<u8>> {
    if opt_view(p.apu) != (match sender { Some((s, _)) => Some(utf8(s@)), None => None::<Seq<u8>> }) { None } else {
    match (cek_of::<CE, KDF, KE, KW>(p, crate::jwe::encrypt::skey_of(sender), kid, key), b64(p.jwe.ciphertext@), b64(p.jwe.iv@), b64(p.jwe.tag@)) { (Some(cek), Some(c), Some(iv), Some(tag)) => opened(cek, c + tag, iv, utf8(p.jwe.protected@)), _ => None } }
}
@fn ParsedJWE :: decrypt -> r
ensures match r { Ok(v) => decrypted::<CE, KDF, KE, KW>(*self, sender, recipient.0@, *recipient.1) == Some(v@), Err(e) => decrypted::<CE, KDF, KE, KW>(*self, sender, recipient.0@, *recipient.1) is None },
@start
broadcast use {crate::askar_crypto::bytes_len, value_axioms, entry_found};
@raw
/// the cryptography is correct: opening inverts sealing, for the content and for wrapped keys, and reading a key inverts writing it
pub open spec fn inverts<CE, KW>() -> bool { (forall|k: CE| #[trigger] opens(k)) && (forall|k: KW| #[trigger] opens(k)) && forall|k: CE| (#[trigger] secret_of(k)) is Some ==> key_of_secret(secret_of(k)->0) == Some(k) }
/// both ends derive the same key-wrapping key: the sender from its key s and the recipient's public key r, the recipient from its own key d and the sender's public key p
pub open spec fn agrees<KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(s: Option<KE>, r: KE, p: Option<KE>, d: KE) -> bool {
    forall|e: KE, v: Value, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>| generated(e) && #[trigger] public_value(e, v) && (#[trigger] KDF::derived(e, s, r, alg, apu, apv, tag, false)) is Some
        ==> of_jwk::<KE>(v) is Some && KDF::derived(of_jwk::<KE>(v)->0, p, d, alg, apu, apv, tag, true) == KDF::derived(e, s, r, alg, apu, apv, tag, false)
}
/// what encrypt makes, also when it is read as JSON and written again, parse reads with the fields that were asked for; the DIDComm check accepts it; and each recipient decrypts it to the message
pub proof fn encrypt_then_read<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(text: Seq<u8>, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, out: Seq<char>, x: Seq<char>, p: ParsedJWE, i: int, public: Option<(&str, &KE)>, own: KE)
    requires crate::jwe::encrypt::encrypted::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, out), same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]),
        inverts::<CE, KW>(), 0 <= i < recipients.len(), forall|k: int| 0 <= k < i ==> (#[trigger] recipients[k]).0@ != recipients[i].0@,
        match (sender, public) { (None, None) => true, (Some((a, _)), Some((b, _))) => a@ == b@, _ => false },
    ensures alg_name(p.protected.alg) == alg_name(alg), enc_name(p.protected.enc) == enc_name(enc), !(alg is Other) ==> p.protected.alg == alg, !(enc is Other) ==> p.protected.enc == enc,
        p.protected.typ is Some && p.protected.typ->0.cv() == "application/didcomm-encrypted+json"@,
        opt_view(p.apu) == (match sender { Some((s, _)) => Some(utf8(s@)), None => None::<Seq<u8>> }), match sender { Some((s, _)) => p.protected.skid is Some && p.protected.skid->0@ == s@, None => p.protected.skid is None },
        kids(p.jwe.recipients@) == crate::jwe::encrypt::names(recipients), p.apv@ == apv_of(kids(p.jwe.recipients@)), sender_bound(p.protected, opt_view(p.apu)),
        agrees::<KDF, KE, KW>(crate::jwe::encrypt::skey_of(sender), *recipients[i].1, crate::jwe::encrypt::skey_of(public), own) ==> decrypted::<CE, KDF, KE, KW>(p, public, recipients[i].0@, own) == Some(text),
{
    broadcast use {value_axioms, json_axioms};
    let u = base64::URL_SAFE_NO_PAD;
    let (j, cek, epk) = choose|j: JWE, cek: CE, epk: KE| #![trigger json_ser(&j), generated(cek), generated(epk)] json_ser(&j) == Ok::<Seq<char>, serde_json::Error>(out) && generated(cek) && generated(epk) && crate::jwe::encrypt::is_jwe::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, j, cek, epk);
    writes(j); same_tree(x, out); reads_ok::<JWE>(x); jwe_read_back(j, p.jwe);
    let v = choose|v: Value| #[trigger] public_value(epk, v) && crate::jwe::encrypt::header_text(alg, enc, sender, recipients, v, j.protected@);
    let h = choose|h: ProtectedHeader| crate::jwe::encrypt::is_header(h, alg, enc, sender, recipients, v) && #[trigger] json_ser(&h) is Ok && j.protected@ == b64e(utf8(json_ser(&h)->Ok_0));
    let t = json_ser(&h)->Ok_0;
    base64::dec_enc(u, utf8(t));
    assert(Seq::<u8>::empty() + utf8(t) =~= utf8(t));
    reads_bytes::<ProtectedHeader>(t); writes(h); reads_ok::<ProtectedHeader>(t); jwe_header_read_back(h, p.protected);
    base64::dec_enc(u, apv_of(crate::jwe::encrypt::names(recipients)));
    if let Some((s, _)) = sender { base64::dec_enc(u, utf8(s@)); vstd::utf8::encode_utf8_valid_utf8(s@); }
    let (iv, aad, buf, n) = choose|iv: Seq<u8>, aad: Seq<u8>, buf: Seq<u8>, n: int| #[trigger] sealed(cek, text, iv, aad, buf, n) && aad == utf8(j.protected@) && 0 <= n <= buf.len() && j.iv@ == b64e(iv) && j.ciphertext@ == b64e(buf.subrange(0, n)) && j.tag@ == b64e(buf.subrange(n, buf.len() as int))
        && crate::jwe::encrypt::keys_for::<CE, KDF, KE, KW>(j.recipients@, cek, epk, sender, recipients, alg, buf.subrange(n, buf.len() as int));
    let tag = buf.subrange(n, buf.len() as int);
    base64::dec_enc(u, iv); base64::dec_enc(u, buf.subrange(0, n)); base64::dec_enc(u, tag);
    assert(buf.subrange(0, n) + tag =~= buf);
    let r = p.jwe.recipients@;
    assert(kids(r) =~= crate::jwe::encrypt::names(recipients)) by { assert forall|k: int| 0 <= k < r.len() implies r[k].header.kid@ == recipients[k].0@ by { assert(j.recipients@[k].header.kid@ == recipients[k].0@); } }
    let kid = recipients[i].0@;
    assert(j.recipients@[i].header.kid@ == kid);
    assert forall|k: int| 0 <= k < i implies !named(kid)(#[trigger] r[k]) by { assert(j.recipients@[k].header.kid@ == recipients[k].0@); }
    first_is(r, named(kid), i);
    assert(entry(r, kid) == Some(r[i]));
    let apu = crate::jwe::encrypt::apu_of(sender); let apv = apv_of(crate::jwe::encrypt::names(recipients));
    let (w, kw) = choose|w: Seq<u8>, kw: KW| #[trigger] wrapped(kw, cek, w) && j.recipients@[i].encrypted_key@ == b64e(w) && KDF::derived(epk, crate::jwe::encrypt::skey_of(sender), *recipients[i].1, utf8(alg_name(alg)), apu, apv, tag, false) == Some(kw);
    base64::dec_enc(u, w);
    assert(opens(kw) && opens(cek));
    assert(unwrapped::<KW, CE>(kw, w) == Some(cek));
    assert(agrees::<KDF, KE, KW>(crate::jwe::encrypt::skey_of(sender), *recipients[i].1, crate::jwe::encrypt::skey_of(public), own) ==> of_jwk::<KE>(p.protected.epk) is Some);
}
/// so
pub proof fn encrypt_then_decrypt<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(text: Seq<u8>, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, out: Seq<char>, p: ParsedJWE, i: int, public: Option<(&str, &KE)>, own: KE)
    requires crate::jwe::encrypt::encrypted::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, out), json_de::<JWE>(out) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]),
        inverts::<CE, KW>(), 0 <= i < recipients.len(), forall|k: int| 0 <= k < i ==> (#[trigger] recipients[k]).0@ != recipients[i].0@,
        match (sender, public) { (None, None) => true, (Some((a, _)), Some((b, _))) => a@ == b@, _ => false },
        agrees::<KDF, KE, KW>(crate::jwe::encrypt::skey_of(sender), *recipients[i].1, crate::jwe::encrypt::skey_of(public), own),
    ensures alg_name(p.protected.alg) == alg_name(alg), enc_name(p.protected.enc) == enc_name(enc), !(alg is Other) ==> p.protected.alg == alg, !(enc is Other) ==> p.protected.enc == enc,
        p.protected.typ is Some && p.protected.typ->0.cv() == "application/didcomm-encrypted+json"@,
        opt_view(p.apu) == (match sender { Some((s, _)) => Some(utf8(s@)), None => None::<Seq<u8>> }), match sender { Some((s, _)) => p.protected.skid is Some && p.protected.skid->0@ == s@, None => p.protected.skid is None },
        kids(p.jwe.recipients@) == crate::jwe::encrypt::names(recipients), p.apv@ == apv_of(kids(p.jwe.recipients@)), sender_bound(p.protected, opt_view(p.apu)),
        decrypted::<CE, KDF, KE, KW>(p, public, recipients[i].0@, own) == Some(text),
{ encrypt_then_read::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, out, out, p, i, public, own); }
