use super::base::*;
use super::world::*;
use crate::did::{VerificationMaterial, VerificationMethod, VerificationMethodType};
use crate::secrets::{Secret, SecretMaterial, SecretType};
use crate::utils::crypto::{AsKnownKeyPair, KnownKeyAlg, KnownKeyPair};
use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
use serde_json::{json, Value};

fn kind_of(p: &KnownKeyPair) -> (Kind, Vec<u8>, Option<Vec<u8>>) { match p {
    KnownKeyPair::Ed25519(k) => (Kind::Ed, k.with_public_bytes(|b| b.to_vec()), k.with_secret_bytes(|b| b.map(|b| b.to_vec()))),
    KnownKeyPair::X25519(k) => (Kind::X, k.with_public_bytes(|b| b.to_vec()), k.with_secret_bytes(|b| b.map(|b| b.to_vec()))),
    KnownKeyPair::P256(k) => (Kind::P, k.with_public_bytes(|b| b.to_vec()), k.with_secret_bytes(|b| b.map(|b| b.to_vec()))),
    KnownKeyPair::K256(k) => (Kind::K, k.with_public_bytes(|b| b.to_vec()), k.with_secret_bytes(|b| b.map(|b| b.to_vec()))) } }
fn alg_kind(a: &KnownKeyAlg) -> Option<Kind> { match a { KnownKeyAlg::Ed25519 => Some(Kind::Ed), KnownKeyAlg::X25519 => Some(Kind::X), KnownKeyAlg::P256 => Some(Kind::P), KnownKeyAlg::K256 => Some(Kind::K), KnownKeyAlg::Unsupported => None } }
/// the outcome wanted: the declared kind, and the key (Err: refused; the inner None: whatever the key library says about the content)
struct Want { alg: Option<Kind>, key: Option<(Vec<u8>, Option<Vec<u8>>)> }
fn check<K: AsKnownKeyPair>(k: &K, w: &Want, open: bool) -> Result<(), String> {
    let a = k.key_alg();
    vcheck!(alg_kind(&a) == w.alg, "the declared type is reported as {:?}, not {:?}", a, w.alg);
    let r = k.as_key_pair();
    match (&r, &w.key) {
        (Ok(p), Some((x, d))) => { let (kind, px, pd) = kind_of(p); vcheck!(Some(kind) == w.alg, "a key of another type: {:?}", kind); vcheck!(&px == x, "another public key: {:?}", px); vcheck!(&pd == d, "another secret: {:?} instead of {:?}", pd, d) }
        (Ok(p), None) if open => { vcheck!(Some(kind_of(p).0) == w.alg, "a key of another type") }
        (Ok(p), None) => return Err(format!("accepted as {:?}", kind_of(p))),
        (Err(e), Some(_)) => return Err(format!("refused: {}", e)),
        (Err(_), None) => {}
    }
    // the typed readers agree with it
    let got = [k.as_ed25519().map(KnownKeyPair::Ed25519), k.as_x25519().map(KnownKeyPair::X25519), k.as_p256().map(KnownKeyPair::P256), k.as_k256().map(KnownKeyPair::K256)];
    for (i, (g, kind)) in got.iter().zip([Kind::Ed, Kind::X, Kind::P, Kind::K]).enumerate() {
        let should = matches!(&r, Ok(p) if kind_of(p).0 == kind);
        vcheck!(g.is_ok() == should, "typed reader {} gives {:?}", i, g.is_ok());
        if let (Ok(g), Ok(p)) = (g, &r) { vcheck!(kind_of(g) == kind_of(p), "typed reader {} gives another key", i) }
    }
    Ok(())
}
fn jwk_kind(v: &Value) -> Option<Kind> { match (v.get("kty").and_then(|x| x.as_str()), v.get("crv").and_then(|x| x.as_str())) { (Some("EC"), Some("P-256")) => Some(Kind::P), (Some("EC"), Some("secp256k1")) => Some(Kind::K), (Some("OKP"), Some("Ed25519")) => Some(Kind::Ed), (Some("OKP"), Some("X25519")) => Some(Kind::X), _ => None } }
#[derive(Clone, Debug)] enum Mat { J(Value), B(String), M(String) }
/// the raw bytes after the multicodec prefix
fn multi(s: &str, prefix: &[u8]) -> Option<Vec<u8>> { let b = bs58::decode(s.strip_prefix('z')?).into_vec().ok()?; b.strip_prefix(prefix).map(|x| x.to_vec()) }

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "every declared type with every form of material: right keys, keys of another kind, wrong and overlong codec prefixes, short, long and undecodable texts; non-trivial: declared type and form of material agree".into();
    ctx.bound = "all 8x3 (method) and 8x3 (secret) combinations with a sampled content each".into();
    let mut r = Rng::new(ctx.seed);
    let prefixes: Vec<Vec<u8>> = vec![vec![0xec, 1], vec![0xed, 1], vec![0x82, 0x26], vec![0x80, 0x26], vec![0xec, 0x81, 0], vec![0xed, 0x81, 0x00], vec![0x82, 0xa6, 0], vec![0x80, 0xa6, 0x80, 0x80, 0], vec![0xec, 0x81, 0x80, 0x80, 0x10], vec![], vec![0], vec![0xec], vec![0xe7, 1], vec![0x80; 5], vec![0xff; 12], vec![0x01, 0xec]];
    for i in 0..ctx.n(20000) {
        let kind = *r.pick(&[Kind::Ed, Kind::X, Kind::P, Kind::K]);
        let key = Key::gen(&mut r, kind);
        // raw bytes: of the key, cut, extended, or any
        let base = match r.below(4) { 0 => key.public.clone(), 1 => key.secret.clone(), 2 => [&key.secret[..], &key.public].concat(), _ => { let n = r.below(70); r.bytes(n) } };
        let raw = match r.below(6) { 0 => { let n = r.below(base.len() + 1); base[..n].to_vec() } 1 => { let n = r.below(3); [&base[..], &r.bytes(n)].concat() } _ => base };
        let mat = match r.below(3) {
            0 => { let mut v = if r.flip() { key.jwk_pub.clone() } else { key.jwk_sec.clone() };
                match r.below(10) { 8 | 9 => { let k = *r.pick(&["crv", "crv", "kty"]); let s = v[k].as_str().unwrap_or("").to_string(); v[k] = json!(r.near(&s)); } 0 => { v["crv"] = json!(r.pick(&["P-256", "secp256k1", "Ed25519", "X25519", "P-384", "ed25519", ""])); } 1 => { v["kty"] = json!(r.pick(&["EC", "OKP", "RSA", "okp"])); } 2 => { v.as_object_mut().unwrap().remove(*r.pick(&["kty", "crv", "x"])); } 3 => { v["x"] = json!(r.text()); } 4 => { v["kty"] = any_json(&mut r, 1); } 5 => { v["note"] = json!(r.text()); } 6 => { v = any_json(&mut r, 2); } _ => {} } Mat::J(v) }
            1 => Mat::B(if r.chance(1, 8) { r.text() } else { bs58::encode(&raw).into_string() }),
            _ => { let p = if r.chance(4, 5) { prefixes[r.below(4)].clone() } else { r.pick(&prefixes).clone() }; let t = bs58::encode([&p[..], &raw].concat()).into_string();
                Mat::M(match r.below(12) { 0 => t, 1 => format!("u{}", t), 2 => r.text(), 3 => format!("é{}", t), 4 => format!("zz{}", t), 5 => format!("z0{}", t), 6 => r.pick(&["", "z", "é"]).to_string(), _ => format!("z{}", t) }) }
        };
        let mt = [VerificationMethodType::JsonWebKey2020, VerificationMethodType::X25519KeyAgreementKey2019, VerificationMethodType::Ed25519VerificationKey2018, VerificationMethodType::EcdsaSecp256k1VerificationKey2019, VerificationMethodType::X25519KeyAgreementKey2020, VerificationMethodType::Ed25519VerificationKey2020, VerificationMethodType::Other];
        let st = [SecretType::JsonWebKey2020, SecretType::X25519KeyAgreementKey2019, SecretType::Ed25519VerificationKey2018, SecretType::EcdsaSecp256k1VerificationKey2019, SecretType::X25519KeyAgreementKey2020, SecretType::Ed25519VerificationKey2020, SecretType::Other];
        // mostly the types that go with the form
        let t = if r.chance(1, 4) { r.below(7) } else { match (&mat, r.flip()) { (Mat::J(_), _) => 0, (Mat::B(_), true) => 1, (Mat::B(_), _) => 2, (Mat::M(_), true) => 4, (Mat::M(_), _) => 5 } };
        let id = "did:a:b#k".to_string();
        let fit = matches!((&mat, t), (Mat::J(_), 0) | (Mat::B(_), 1 | 2) | (Mat::M(_), 4 | 5));
        if i % 2 == 0 {
            // a verification method
            let (alg, raw) = match (&mat, t) {
                (Mat::J(v), 0) => (jwk_kind(v), None),
                (Mat::B(s), 1) => (Some(Kind::X), bs58::decode(s).into_vec().ok()), (Mat::B(s), 2) => (Some(Kind::Ed), bs58::decode(s).into_vec().ok()),
                (Mat::M(s), 4) => (Some(Kind::X), multi(s, &[0xec, 1])), (Mat::M(s), 5) => (Some(Kind::Ed), multi(s, &[0xed, 1])), _ => (None, None) };
            // any 32 bytes are an X25519 key; of an Ed25519 key only the test's own are known to be good
            let mut open = false;
            let want = match (&mat, alg, raw) {
                (Mat::J(v), Some(k), _) if *v == key.jwk_pub => Some((key.public.clone(), None)), (Mat::J(v), Some(k), _) if *v == key.jwk_sec => Some((key.public.clone(), Some(key.secret.clone()))),
                (Mat::J(_), Some(_), _) => { open = true; None }
                (_, Some(Kind::X), Some(b)) if b.len() == 32 => Some((b, None)),
                (_, Some(Kind::Ed), Some(b)) if b.len() == 32 => if kind == Kind::Ed && b == key.public { Some((b, None)) } else { open = true; None }
                _ => None };
            let vm = VerificationMethod { id: id.clone(), type_: mt[t].clone(), controller: "did:a:b".into(), verification_material: match mat.clone() { Mat::J(v) => VerificationMaterial::JWK { public_key_jwk: v }, Mat::B(s) => VerificationMaterial::Base58 { public_key_base58: s }, Mat::M(s) => VerificationMaterial::Multibase { public_key_multibase: s } } };
            ctx.case("method", json!({"method": vm}), fit, || check(&vm, &Want { alg, key: want }, open));
        } else {
            let (alg, raw) = match (&mat, t) {
                (Mat::J(v), 0) => (jwk_kind(v), None),
                (Mat::B(s), 1) => (Some(Kind::X), bs58::decode(s).into_vec().ok()), (Mat::B(s), 2) => (Some(Kind::Ed), bs58::decode(s).into_vec().ok()),
                (Mat::M(s), 4) => (Some(Kind::X), multi(s, &[0x82, 0x26])), (Mat::M(s), 5) => (Some(Kind::Ed), multi(s, &[0x80, 0x26])), _ => (None, None) };
            let mut open = false;
            let want = match (&mat, alg, raw) {
                (Mat::J(v), Some(k), _) if *v == key.jwk_sec => Some((key.public.clone(), Some(key.secret.clone()))), (Mat::J(v), Some(k), _) if *v == key.jwk_pub => Some((key.public.clone(), None)),
                (Mat::J(_), Some(_), _) => { open = true; None }
                (_, Some(Kind::X), Some(b)) if b.len() == 32 => Key::of(Kind::X, &b).map(|k| (k.public.clone(), Some(b))),
                (_, Some(Kind::Ed), Some(b)) if b.len() == 64 => Key::of(Kind::Ed, &b[..32]).and_then(|k| if k.public == b[32..] { Some((k.public.clone(), Some(b[..32].to_vec()))) } else { None }),
                _ => None };
            let s = Secret { id: id.clone(), type_: st[t].clone(), secret_material: match mat.clone() { Mat::J(v) => SecretMaterial::JWK { private_key_jwk: v }, Mat::B(s) => SecretMaterial::Base58 { private_key_base58: s }, Mat::M(s) => SecretMaterial::Multibase { private_key_multibase: s } } };
            ctx.case("secret", json!({"secret": s}), fit, || check(&s, &Want { alg, key: want }, open));
        }
    }
}
