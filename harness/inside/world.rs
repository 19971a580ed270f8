// Keys, documents, resolvers, and a JOSE implementation of its own (headers, key derivation and
// layout written from RFC 7515/7516/7518 and the ECDH-1PU draft), used as oracle. Only the
// primitives (curves, key wrapping, content encryption, signatures) come from askar-crypto.
use super::base::*;
use crate::did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType};
use crate::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use crate::error::{err_msg, Error, ErrorKind};
use askar_crypto::{alg::{aes::{A256CbcHs512, A256Gcm, A256Kw, AesKey}, chacha20::{Chacha20Key, XC20P}, ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair},
    buffer::SecretBytes, encrypt::{KeyAeadInPlace, KeyAeadMeta}, jwk::{FromJwk, ToJwk}, kdf::KeyExchange, repr::{KeyGen, KeyPublicBytes, KeySecretBytes, ToSecretBytes}, sign::{KeySigVerify, KeySign, SignatureType}};
use async_trait::async_trait;
use serde_json::{json, Map, Value};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Kind { Ed, X, P, K }
#[derive(Clone, Debug)] pub struct Key { pub kind: Kind, pub secret: Vec<u8>, pub public: Vec<u8>, pub jwk_pub: Value, pub jwk_sec: Value }
fn js(s: String) -> Value { serde_json::from_str(&s).unwrap() }
impl Key {
    pub fn gen(r: &mut Rng, kind: Kind) -> Key { loop { if let Some(k) = Key::of(kind, &r.bytes(32)) { return k } } }
    pub fn of(kind: Kind, s: &[u8]) -> Option<Key> {
        let (p, a, b) = match kind {
            Kind::Ed => { let k = Ed25519KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::X => { let k = X25519KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::P => { let k = P256KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::K => { let k = K256KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
        };
        Some(Key { kind, secret: s.to_vec(), public: p, jwk_pub: js(a), jwk_sec: js(b) })
    }
    pub fn forms(&self) -> usize { match self.kind { Kind::Ed | Kind::X => 3, _ => 1 } }
    /// form 0 JWK, 1 base58, 2 multibase
    pub fn vm(&self, id: &str, form: usize) -> VerificationMethod {
        let did = id.split('#').next().unwrap();
        let ed = self.kind == Kind::Ed;
        let (t, m) = match form % self.forms() {
            0 => (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: self.jwk_pub.clone() }),
            1 => (if ed { VerificationMethodType::Ed25519VerificationKey2018 } else { VerificationMethodType::X25519KeyAgreementKey2019 }, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&self.public).into_string() }),
            _ => (if ed { VerificationMethodType::Ed25519VerificationKey2020 } else { VerificationMethodType::X25519KeyAgreementKey2020 }, VerificationMaterial::Multibase { public_key_multibase: format!("z{}", bs58::encode([if ed { &[0xed, 1][..] } else { &[0xec, 1][..] }, &self.public].concat()).into_string()) }),
        };
        VerificationMethod { id: id.into(), type_: t, controller: if super::base::hash(id) % 3 == 0 { "did:o:controller".into() } else { did.into() }, verification_material: m }
    }
    pub fn secret(&self, id: &str, form: usize) -> Secret {
        let ed = self.kind == Kind::Ed;
        let raw = if ed { [&self.secret[..], &self.public].concat() } else { self.secret.clone() };
        let (t, m) = match form % self.forms() {
            0 => (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: self.jwk_sec.clone() }),
            1 => (if ed { SecretType::Ed25519VerificationKey2018 } else { SecretType::X25519KeyAgreementKey2019 }, SecretMaterial::Base58 { private_key_base58: bs58::encode(raw).into_string() }),
            _ => (if ed { SecretType::Ed25519VerificationKey2020 } else { SecretType::X25519KeyAgreementKey2020 }, SecretMaterial::Multibase { private_key_multibase: format!("z{}", bs58::encode([if ed { &[0x80, 0x26][..] } else { &[0x82, 0x26][..] }, &raw].concat()).into_string()) }),
        };
        Secret { id: id.into(), type_: t, secret_material: m }
    }
    pub fn alg(&self) -> &'static str { match self.kind { Kind::Ed => "EdDSA", Kind::P => "ES256", Kind::K => "ES256K", Kind::X => "none" } }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> { match self.kind {
        Kind::Ed => Ed25519KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::EdDSA)).unwrap().to_vec(),
        Kind::P => P256KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::ES256)).unwrap().to_vec(),
        Kind::K => K256KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::ES256K)).unwrap().to_vec(),
        Kind::X => vec![] } }
    pub fn verify(&self, msg: &[u8], sig: &[u8]) -> bool { match self.kind {
        Kind::Ed => Ed25519KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::EdDSA)).unwrap_or(false),
        Kind::P => P256KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::ES256)).unwrap_or(false),
        Kind::K => K256KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::ES256K)).unwrap_or(false),
        Kind::X => false } }
    /// shared secret of this (secret) key and a public JWK of the same curve
    pub fn agree(&self, public: &Value) -> Option<Vec<u8>> { let mut o = vec![]; match self.kind {
        Kind::X => X25519KeyPair::from_secret_bytes(&self.secret).ok()?.write_key_exchange(&X25519KeyPair::from_jwk(&public.to_string()).ok()?, &mut o).ok()?,
        Kind::P => P256KeyPair::from_secret_bytes(&self.secret).ok()?.write_key_exchange(&P256KeyPair::from_jwk(&public.to_string()).ok()?, &mut o).ok()?,
        _ => return None }; Some(o) }
    pub fn same_public(&self, jwk: &Value) -> bool { ["kty", "crv", "x", "y"].iter().all(|k| self.jwk_pub.get(k) == jwk.get(k)) }
}

pub struct Dids { pub docs: Vec<DIDDoc>, pub broken: Vec<String>, pub log: Mutex<Vec<String>> }
impl Dids { pub fn new(docs: Vec<DIDDoc>) -> Dids { Dids { docs, broken: vec![], log: Mutex::new(vec![]) } } pub fn asked(&self) -> Vec<String> { self.log.lock().unwrap().clone() } pub fn forget(&self) { self.log.lock().unwrap().clear() } }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl DIDResolver for Dids {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>, Error> {
        self.log.lock().unwrap().push(did.to_owned());
        if self.broken.iter().any(|b| b == did) { return Err(err_msg(ErrorKind::IoError, "resolver is broken")) }
        Ok(self.docs.iter().find(|d| d.id == did).cloned())
    }
}
pub struct Keys { pub secrets: Vec<Secret>, pub broken: bool }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl SecretsResolver for Keys {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>, Error> { if self.broken { return Err(err_msg(ErrorKind::IoError, "store is broken")) } Ok(self.secrets.iter().find(|s| s.id == id).cloned()) }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>, Error> { if self.broken { return Err(err_msg(ErrorKind::IoError, "store is broken")) } Ok(ids.iter().filter(|i| self.secrets.iter().any(|s| s.id == **i)).map(|i| *i).collect()) }
}
pub fn doc(id: &str) -> DIDDoc { DIDDoc { id: id.into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![] } }
pub fn didcomm_service(id: &str, uri: &str, accept: Option<Vec<String>>, keys: Vec<String>) -> Service { Service { id: id.into(), service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept, routing_keys: keys } } } }

pub fn unb64(s: &str) -> Result<Vec<u8>, String> { base64::decode_config(s, base64::URL_SAFE_NO_PAD).map_err(|e| e.to_string()) }
/// Concat KDF (NIST SP 800-56A) with a 256-bit output and SHA-256: one round
pub fn concat_kdf(z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], tag: Option<&[u8]>) -> Vec<u8> {
    let mut m = vec![0, 0, 0, 1]; m.extend_from_slice(z);
    for p in [alg, apu, apv] { m.extend_from_slice(&(p.len() as u32).to_be_bytes()); m.extend_from_slice(p) }
    m.extend_from_slice(&256u32.to_be_bytes());
    if let Some(t) = tag { m.extend_from_slice(&(t.len() as u32).to_be_bytes()); m.extend_from_slice(t) }
    sha256(&m)
}
fn aead(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], buf: &mut SecretBytes, open: bool) -> Result<usize, String> {
    fn go<K: KeyAeadInPlace + KeySecretBytes>(key: &[u8], iv: &[u8], aad: &[u8], buf: &mut SecretBytes, open: bool) -> Result<usize, String> {
        let k = K::from_secret_bytes(key).map_err(|e| format!("content key: {}", e))?;
        if open { k.decrypt_in_place(buf, iv, aad).map(|_| 0) } else { k.encrypt_in_place(buf, iv, aad) }.map_err(|e| format!("content: {}", e))
    }
    match enc { "A256CBC-HS512" => go::<AesKey<A256CbcHs512>>(key, iv, aad, buf, open), "A256GCM" => go::<AesKey<A256Gcm>>(key, iv, aad, buf, open), "XC20P" => go::<Chacha20Key<XC20P>>(key, iv, aad, buf, open), _ => Err(format!("enc {}", enc)) }
}
#[derive(Debug, Clone)] pub struct Opened { pub header: Value, pub kids: Vec<String>, pub apu: Option<Vec<u8>>, pub text: Vec<u8> }
/// opens a JWE as the recipient `kid`, or says why it cannot be opened
pub fn open_jwe(text: &str, kid: &str, key: &Key, sender: Option<&Value>) -> Result<Opened, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let st = |v: &Value, k: &str| v[k].as_str().map(|s| s.to_string()).ok_or(format!("no text member {}", k));
    let protected = st(&v, "protected")?;
    let header: Value = serde_json::from_slice(&unb64(&protected)?).map_err(|e| e.to_string())?;
    let rs = v["recipients"].as_array().ok_or("no recipients")?;
    let mut kids = vec![]; for r in rs { kids.push(st(&r["header"], "kid")?) }
    let i = kids.iter().position(|k| k == kid).ok_or(format!("no recipient {}", kid))?;
    let alg = st(&header, "alg")?; let enc = st(&header, "enc")?;
    let apu = match header.get("apu") { Some(Value::String(s)) => Some(unb64(s)?), None | Some(Value::Null) => None, _ => return Err("apu".into()) };
    let apv = unb64(&st(&header, "apv")?)?; let tag = unb64(&st(&v, "tag")?)?;
    let ze = key.agree(&header["epk"]).ok_or("epk")?;
    let kek = match (alg.as_str(), sender) {
        ("ECDH-ES+A256KW", _) => concat_kdf(&ze, b"ECDH-ES+A256KW", apu.as_deref().unwrap_or(&[]), &apv, None),
        ("ECDH-1PU+A256KW", Some(s)) => { let zs = key.agree(s).ok_or("sender key")?; concat_kdf(&[ze, zs].concat(), b"ECDH-1PU+A256KW", apu.as_deref().unwrap_or(&[]), &apv, Some(&tag)) }
        x => return Err(format!("alg {:?}", x.0)),
    };
    let mut b = SecretBytes::from_slice(&unb64(&st(&rs[i], "encrypted_key")?)?);
    AesKey::<A256Kw>::from_secret_bytes(&kek).unwrap().decrypt_in_place(&mut b, &[], &[]).map_err(|e| format!("key unwrapping: {}", e))?;
    let mut c = SecretBytes::from_slice(&[unb64(&st(&v, "ciphertext")?)?, tag].concat());
    aead(&enc, &b, &unb64(&st(&v, "iv")?)?, protected.as_bytes(), &mut c, true)?;
    Ok(Opened { header, kids, apu, text: c.to_vec() })
}
/// what to write into a JWE
#[derive(Clone)] pub struct Seal<'a> { pub alg: &'a str, pub enc: &'a str, pub typ: Option<&'a str>, pub sender: Option<(&'a str, &'a Key)>, pub to: Vec<(&'a str, &'a Key)>, pub epk: Key, pub skid: bool }
pub fn apv_of(kids: &[&str]) -> Vec<u8> { let mut k = kids.to_vec(); k.sort(); sha256(k.join(".").as_bytes()) }
pub fn seal_jwe(r: &mut Rng, text: &[u8], s: &Seal) -> Value {
    let apv = apv_of(&s.to.iter().map(|t| t.0).collect::<Vec<_>>());
    let mut h = Map::new();
    if let Some(t) = s.typ { h.insert("typ".into(), json!(t)); }
    h.insert("alg".into(), json!(s.alg)); h.insert("enc".into(), json!(s.enc)); h.insert("apv".into(), json!(b64(&apv))); h.insert("epk".into(), s.epk.jwk_pub.clone());
    if let Some((kid, _)) = s.sender { h.insert("apu".into(), json!(b64(kid.as_bytes()))); if s.skid { h.insert("skid".into(), json!(kid)); } }
    let protected = b64(Value::Object(h).to_string().as_bytes());
    let (kl, il, tl) = match s.enc { "A256CBC-HS512" => (64, 16, 32), "A256GCM" => (32, 12, 16), _ => (32, 24, 16) };
    let cek = r.bytes(kl); let iv = r.bytes(il);
    let mut b = SecretBytes::from_slice(text);
    let n = aead(if matches!(s.enc, "A256CBC-HS512" | "A256GCM" | "XC20P") { s.enc } else { "XC20P" }, &cek, &iv, protected.as_bytes(), &mut b, false).unwrap();
    let (c, tag) = (b[..n].to_vec(), b[n..].to_vec());
    let rs: Vec<Value> = s.to.iter().map(|(kid, k)| {
        let ze = s.epk.agree(&k.jwk_pub).unwrap_or_default();
        let kek = match s.sender { Some((sk, key)) if s.alg.starts_with("ECDH-1PU") => concat_kdf(&[ze, key.agree(&k.jwk_pub).unwrap_or_default()].concat(), s.alg.as_bytes(), sk.as_bytes(), &apv, Some(&tag)),
            x => concat_kdf(&ze, s.alg.as_bytes(), x.map(|x| x.0.as_bytes()).unwrap_or(&[]), &apv, None) };
        let mut b = SecretBytes::from_slice(&cek); AesKey::<A256Kw>::from_secret_bytes(&kek).unwrap().encrypt_in_place(&mut b, &[], &[]).unwrap();
        json!({"header": {"kid": kid}, "encrypted_key": b64(&b)}) }).collect();
    json!({"protected": protected, "recipients": rs, "iv": b64(&iv), "ciphertext": b64(&c), "tag": b64(&tag)})
}
/// a JWS in the general serialization, one signature
pub fn sign_jws(payload: &[u8], kid: &str, key: &Key, typ: &str, alg: &str) -> Value {
    let p = b64(json!({"typ": typ, "alg": alg}).to_string().as_bytes()); let t = b64(payload);
    json!({"payload": t, "signatures": [{"protected": p, "header": {"kid": kid}, "signature": b64(&key.sign(format!("{}.{}", p, t).as_bytes()))}]})
}
