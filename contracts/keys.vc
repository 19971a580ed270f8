C16: reading key material.

@module crate::jwk src/jwk.rs
@raw
use crate::askar_crypto::jwk::*; use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*}; use crate::serde_json; use crate::serde_json::Value;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// the key that a JWK, given as a JSON value, denotes
pub open spec fn of_jwk<K: FromJwk>(j: Value) -> Option<K> { match serde_json::json_ser(&j) { Ok(t) => K::jwk_key(t), Err(_) => None } }
@trait FromJwkValue
@fn trait FromJwkValue :: from_jwk_value -> r
ensures match r { Ok(k) => of_jwk::<Self>(*jwk) == Some(k), Err(_) => of_jwk::<Self>(*jwk) is None },
@impls FromJwkValue

@module crate::utils::crypto src/utils/crypto.rs
@raw
use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type KnownKeyAlg
@type KnownKeyPair
@raw
pub open spec fn type_of(p: KnownKeyPair) -> KnownKeyAlg { match p { KnownKeyPair::Ed25519(_) => KnownKeyAlg::Ed25519, KnownKeyPair::X25519(_) => KnownKeyAlg::X25519, KnownKeyPair::P256(_) => KnownKeyAlg::P256, KnownKeyPair::K256(_) => KnownKeyAlg::K256 } }
@trait AsKnownKeyPair
/// the type of key that is declared
spec fn alg(&self) -> KnownKeyAlg;
/// the key, when the material is one of that type
spec fn pair(&self) -> Option<KnownKeyPair>;
proof fn pair_type(&self) ensures self.pair() is Some ==> type_of(self.pair()->0) == self.alg() && self.alg() != KnownKeyAlg::Unsupported;
@fn trait AsKnownKeyPair :: key_alg -> r
ensures r == self.alg(),
@fn trait AsKnownKeyPair :: as_key_pair -> r
ensures match r { Ok(p) => self.pair() == Some(p), Err(e) => self.pair() is None && (self.alg() == KnownKeyAlg::Unsupported ==> e.kind == ErrorKind::Unsupported) },
@fn trait AsKnownKeyPair :: as_ed25519 -> r
ensures match r { Ok(k) => self.pair() == Some(KnownKeyPair::Ed25519(k)), Err(_) => !(self.pair() is Some && self.pair()->0 is Ed25519) },
@start
proof { self.pair_type(); }
@fn trait AsKnownKeyPair :: as_x25519 -> r
ensures match r { Ok(k) => self.pair() == Some(KnownKeyPair::X25519(k)), Err(_) => !(self.pair() is Some && self.pair()->0 is X25519) },
@start
proof { self.pair_type(); }
@fn trait AsKnownKeyPair :: as_p256 -> r
ensures match r { Ok(k) => self.pair() == Some(KnownKeyPair::P256(k)), Err(_) => !(self.pair() is Some && self.pair()->0 is P256) },
@start
proof { self.pair_type(); }
@fn trait AsKnownKeyPair :: as_k256 -> r
ensures match r { Ok(k) => self.pair() == Some(KnownKeyPair::K256(k)), Err(_) => !(self.pair() is Some && self.pair()->0 is K256) },
@start
proof { self.pair_type(); }

@module crate::utils::did src/utils/did.rs
@raw
use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*}; use crate::askar_crypto::repr::*; use crate::varint::*;
use crate::serde_json; use crate::serde_json::*; use crate::bs58; use crate::bs58::b58; use crate::base64; use crate::base64::enc;
use crate::did::did_doc::*; use crate::secrets::*; use crate::jwk::*; use crate::utils::crypto::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type Codec
@raw
/// the key type a JWK declares
pub open spec fn jwk_alg(j: Value) -> KnownKeyAlg {
    let (t, c) = (index(j, "kty"@), index(j, "crv"@));
    if t is String && c is String {
        let (t, c) = (t->String_0@, c->String_0@);
        if t == "EC"@ && c == "P-256"@ { KnownKeyAlg::P256 } else if t == "EC"@ && c == "secp256k1"@ { KnownKeyAlg::K256 }
        else if t == "OKP"@ && c == "Ed25519"@ { KnownKeyAlg::Ed25519 } else if t == "OKP"@ && c == "X25519"@ { KnownKeyAlg::X25519 } else { KnownKeyAlg::Unsupported }
    } else { KnownKeyAlg::Unsupported }
}
pub open spec fn some_pair<K>(k: Option<K>, f: spec_fn(K) -> KnownKeyPair) -> Option<KnownKeyPair> { match k { Some(k) => Some(f(k)), None => None } }
/// the key of the type `a` that a JWK denotes
pub open spec fn jwk_pair(a: KnownKeyAlg, j: Value) -> Option<KnownKeyPair> { match a {
    KnownKeyAlg::Ed25519 => some_pair(of_jwk(j), |k| KnownKeyPair::Ed25519(k)), KnownKeyAlg::X25519 => some_pair(of_jwk(j), |k| KnownKeyPair::X25519(k)),
    KnownKeyAlg::P256 => some_pair(of_jwk(j), |k| KnownKeyPair::P256(k)), KnownKeyAlg::K256 => some_pair(of_jwk(j), |k| KnownKeyPair::K256(k)), KnownKeyAlg::Unsupported => None } }
pub open spec fn b64(b: Seq<u8>) -> Value { jstr(enc(base64::URL_SAFE_NO_PAD, b)) }
/// the JWK of a raw public key
pub open spec fn okp_public(crv: Seq<char>, x: Seq<u8>) -> Value { obj(no_members().insert("kty"@, jstr("OKP"@)).insert("crv"@, jstr(crv)).insert("x"@, b64(x))) }
pub open spec fn okp_private(crv: Seq<char>, x: Seq<u8>, d: Option<Seq<u8>>) -> Value {
    let m = no_members().insert("kty"@, jstr("OKP"@)).insert("crv"@, jstr(crv)).insert("x"@, b64(x)); obj(match d { Some(d) => m.insert("d"@, b64(d)), None => m }) }
/// the bytes after the multicodec prefix p, of a multibase text
pub open spec fn multi(s: Seq<char>, p: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() > 0 && s[0] == 'z' { match b58(s.skip(1)) { Some(b) => if p.is_prefix_of(b) { Some(b.skip(p.len() as int)) } else { None }, None => None } } else { None } }
pub open spec fn codec_bytes(c: Codec) -> Seq<u8> { match c { Codec::X25519Pub => seq![0xECu8, 0x01u8], Codec::Ed25519Pub => seq![0xEDu8, 0x01u8], Codec::X25519Priv => seq![0x82u8, 0x26u8], Codec::Ed25519Priv => seq![0x80u8, 0x26u8] } }
pub open spec fn x_public(b: Option<Seq<u8>>) -> Option<KnownKeyPair> { match b { Some(x) => jwk_pair(KnownKeyAlg::X25519, okp_public("X25519"@, x)), None => None } }
pub open spec fn ed_public(b: Option<Seq<u8>>) -> Option<KnownKeyPair> { match b { Some(x) => jwk_pair(KnownKeyAlg::Ed25519, okp_public("Ed25519"@, x)), None => None } }
pub open spec fn x_private(b: Option<Seq<u8>>) -> Option<KnownKeyPair> { match b { Some(d) => match key_of_secret::<X25519KeyPair>(d) { Some(k) => jwk_pair(KnownKeyAlg::X25519, okp_private("X25519"@, public_of(k), secret_of(k))), None => None }, None => None } }
/// an Ed25519 private key: 32 bytes of secret, then the public key
pub open spec fn ed_private(b: Option<Seq<u8>>) -> Option<KnownKeyPair> { match b { Some(d) => if d.len() >= 32 { jwk_pair(KnownKeyAlg::Ed25519, okp_private("Ed25519"@, d.skip(32), Some(d.take(32)))) } else { None }, None => None } }

/// which declared types and forms of material go together, and the key type of each
pub open spec fn method_alg(v: VerificationMethod) -> KnownKeyAlg { match (v.type_, v.verification_material) {
    (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk }) => jwk_alg(public_key_jwk),
    (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::Base58 { .. }) => KnownKeyAlg::X25519,
    (VerificationMethodType::Ed25519VerificationKey2018, VerificationMaterial::Base58 { .. }) => KnownKeyAlg::Ed25519,
    (VerificationMethodType::X25519KeyAgreementKey2020, VerificationMaterial::Multibase { .. }) => KnownKeyAlg::X25519,
    (VerificationMethodType::Ed25519VerificationKey2020, VerificationMaterial::Multibase { .. }) => KnownKeyAlg::Ed25519,
    _ => KnownKeyAlg::Unsupported } }
pub open spec fn method_pair(v: VerificationMethod) -> Option<KnownKeyPair> { match (v.type_, v.verification_material) {
    (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk }) => jwk_pair(jwk_alg(public_key_jwk), public_key_jwk),
    (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::Base58 { public_key_base58 }) => x_public(b58(public_key_base58@)),
    (VerificationMethodType::Ed25519VerificationKey2018, VerificationMaterial::Base58 { public_key_base58 }) => ed_public(b58(public_key_base58@)),
    (VerificationMethodType::X25519KeyAgreementKey2020, VerificationMaterial::Multibase { public_key_multibase }) => x_public(multi(public_key_multibase@, codec_bytes(Codec::X25519Pub))),
    (VerificationMethodType::Ed25519VerificationKey2020, VerificationMaterial::Multibase { public_key_multibase }) => ed_public(multi(public_key_multibase@, codec_bytes(Codec::Ed25519Pub))),
    _ => None } }
pub open spec fn secret_alg(v: Secret) -> KnownKeyAlg { match (v.type_, v.secret_material) {
    (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk }) => jwk_alg(private_key_jwk),
    (SecretType::X25519KeyAgreementKey2019, SecretMaterial::Base58 { .. }) => KnownKeyAlg::X25519,
    (SecretType::Ed25519VerificationKey2018, SecretMaterial::Base58 { .. }) => KnownKeyAlg::Ed25519,
    (SecretType::X25519KeyAgreementKey2020, SecretMaterial::Multibase { .. }) => KnownKeyAlg::X25519,
    (SecretType::Ed25519VerificationKey2020, SecretMaterial::Multibase { .. }) => KnownKeyAlg::Ed25519,
    _ => KnownKeyAlg::Unsupported } }
pub open spec fn secret_pair(v: Secret) -> Option<KnownKeyPair> { match (v.type_, v.secret_material) {
    (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk }) => jwk_pair(jwk_alg(private_key_jwk), private_key_jwk),
    (SecretType::X25519KeyAgreementKey2019, SecretMaterial::Base58 { private_key_base58 }) => x_private(b58(private_key_base58@)),
    (SecretType::Ed25519VerificationKey2018, SecretMaterial::Base58 { private_key_base58 }) => ed_private(b58(private_key_base58@)),
    (SecretType::X25519KeyAgreementKey2020, SecretMaterial::Multibase { private_key_multibase }) => x_private(multi(private_key_multibase@, codec_bytes(Codec::X25519Priv))),
    (SecretType::Ed25519VerificationKey2020, SecretMaterial::Multibase { private_key_multibase }) => ed_private(multi(private_key_multibase@, codec_bytes(Codec::Ed25519Priv))),
    _ => None } }
pub open spec fn codec_num(c: Codec) -> int { match c { Codec::X25519Pub => 0xEC, Codec::Ed25519Pub => 0xED, Codec::X25519Priv => 0x1302, Codec::Ed25519Priv => 0x1300 } }
pub proof fn codec_of_num(v: int, c: Codec) requires v >= 0 ensures leb_bytes(v) == codec_bytes(c) <==> v == codec_num(c)
{
    reveal_with_fuel(leb_bytes, 4);
    if v == codec_num(c) { assert(leb_bytes(v) =~= codec_bytes(c)); }
    if leb_bytes(v) == codec_bytes(c) {
        let w = codec_bytes(c);
        assert(v >= 128);
        let r = leb_bytes(v / 128);
        assert(leb_bytes(v)[0] == (v % 128 + 128) as u8 && leb_bytes(v).len() == 1 + r.len() && leb_bytes(v)[1] == r[0]);
        if v / 128 >= 128 { assert(r.len() >= 2); }
        assert(r[0] == (v / 128) as u8);
        assert(v == 128 * (v / 128) + v % 128);
    }
}
pub proof fn codec_read(s: Seq<u8>, c: Codec) requires codec_bytes(c).is_prefix_of(s) ensures leb_len(s) == Some(2int), leb_value(s, 2) == codec_num(c), s.len() >= 2, s[1] < 0x80
{
    let w = codec_bytes(c);
    assert(s.subrange(0, 2)[0] == w[0] && s.subrange(0, 2)[1] == w[1]);
    reveal_with_fuel(leb_len, 4); reveal_with_fuel(leb_value, 4);
    assert(s.skip(1)[0] == s[1]);
}
pub broadcast proof fn codec_split(c: Codec, b: Seq<u8>) ensures ({ let v = #[trigger] (codec_bytes(c) + b); codec_bytes(c).is_prefix_of(v) && v.skip(2) == b && codec_bytes(c).len() == 2 && (forall|d: Codec| d != c ==> !(#[trigger] codec_bytes(d)).is_prefix_of(v)) })
{
    let v = codec_bytes(c) + b;
    assert(v.subrange(0, 2) =~= codec_bytes(c)); assert(v.skip(2) =~= b);
    assert forall|d: Codec| d != c implies !(#[trigger] codec_bytes(d)).is_prefix_of(v) by { if codec_bytes(d).is_prefix_of(v) { assert(v.subrange(0, 2)[0] == codec_bytes(d)[0] && v.subrange(0, 2)[1] == codec_bytes(d)[1]); } }
}
/// a bare name and a text of it are the same JSON value; the order in which members are set does not matter
pub broadcast proof fn jwk_order(m: Map<Seq<char>, Value>, j: Value, c: Value) ensures (#[trigger] m.insert("d"@, j).insert("x"@, c)) == m.insert("x"@, c).insert("d"@, j)
{ reveal_strlit("d"); reveal_strlit("x"); assert("d"@[0] != "x"@[0]); assert(m.insert("d"@, j).insert("x"@, c) =~= m.insert("x"@, c).insert("d"@, j)); }
@fn Codec :: codec_by_prefix -> r
ensures match r { Ok(c) => leb_bytes(value as int) == codec_bytes(c), Err(_) => forall|c: Codec| leb_bytes(value as int) != #[trigger] codec_bytes(c) },
@start
proof { assert forall|c: Codec| leb_bytes(value as int) == #[trigger] codec_bytes(c) <==> value as int == codec_num(c) by { codec_of_num(value as int, c); } }
@fn _from_multicodec -> r
ensures match r { Ok((c, b)) => value@ == codec_bytes(c) + b@, Err(_) => forall|c: Codec| !(#[trigger] codec_bytes(c)).is_prefix_of(value@) },
@start
proof {
    assert forall|c: Codec| (#[trigger] codec_bytes(c)).is_prefix_of(value@) implies leb_len(value@) == Some(2int) && leb_value(value@, 2) == codec_num(c) && value@[1] < 0x80 && leb_bytes(codec_num(c)) == codec_bytes(c) by { codec_read(value@, c); codec_of_num(codec_num(c), c); }
    if value@.len() >= 5 { assert(*refs(value@.subrange(0, 5))[1] == value@[1]); }
}
@impl AsKnownKeyPair for VerificationMethod
open spec fn alg(&self) -> KnownKeyAlg { method_alg(*self) }
open spec fn pair(&self) -> Option<KnownKeyPair> { method_pair(*self) }
proof fn pair_type(&self)
{ }
@fn AsKnownKeyPair for VerificationMethod :: key_alg -> r
@fn AsKnownKeyPair for VerificationMethod :: as_key_pair -> r
@start
broadcast use {value_axioms, json_axioms, first_char, cut_one, codec_split, jwk_order};
@impl AsKnownKeyPair for Secret
open spec fn alg(&self) -> KnownKeyAlg { secret_alg(*self) }
open spec fn pair(&self) -> Option<KnownKeyPair> { secret_pair(*self) }
proof fn pair_type(&self)
{ }
@fn AsKnownKeyPair for Secret :: key_alg -> r
@fn AsKnownKeyPair for Secret :: as_key_pair -> r
@start
broadcast use {value_axioms, json_axioms, first_char, cut_one, codec_split, jwk_order};
