// What the demonstrations share: random values, keys, documents, resolvers, and a JOSE implementation of its own.
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod base {
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// xorshift64*, the only source of randomness of the bounded checks
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); if r.0 == 0 { r.0 = 1 } for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x >> 12; x ^= x << 25; x ^= x >> 27; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 16) % n as u64) as usize } }
    pub fn flip(&mut self) -> bool { self.next() >> 33 & 1 == 1 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
    pub fn ident(&mut self) -> String { let n = 1 + self.below(8); (0..n).map(|_| *self.pick(&['a', 'b', 'c', 'z', 'A', 'Z', '0', '9', '-', '_'])).collect() }
    /// any text, including the troublesome ones
    pub fn text(&mut self) -> String {
        let n = self.below(12);
        (0..n).map(|_| *self.pick(&['a', 'b', 'Z', '0', ' ', '.', '#', ':', '/', '?', '"', '\\', '\n', 'é', '✓', '😀', '\u{0}', '+', '=', '-', '_'])).collect()
    }
    /// printable text with no character JSON escapes
    pub fn plain(&mut self) -> String {
        let n = self.below(12);
        (0..n).map(|_| *self.pick(&['a', 'b', 'Z', '0', ' ', '.', '#', ':', '/', '?', 'é', '✓', '😀', '+', '=', '-', '_', '~'])).collect()
    }
}

pub struct Ctx {
    pub prop: String, pub seed: u64, pub thorough: bool, pub only: Option<u64>,
    pub evaluations: u64, pub distinct: BTreeSet<u64>, pub samples: Vec<Value>, pub failures: Vec<Value>, pub known: Vec<Value>, pub rule: String, pub bound: String,
    case: u64,
}
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.as_bytes() { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3) } h }

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<u64>) -> Ctx {
        std::panic::set_hook(Box::new(|i| { LAST.with(|l| *l.borrow_mut() = format!("{}", i)) }));
        Ctx { prop: prop.into(), seed, thorough, only, evaluations: 0, distinct: BTreeSet::new(), samples: vec![], failures: vec![], known: vec![], rule: String::new(), bound: String::new(), case: 0 }
    }
    pub fn n(&self, quick: u64) -> u64 { if self.thorough { quick * 20 } else { quick } }
    /// One case. `input` describes it completely; `f` returns Err(what went wrong).
    /// A panic of the code under test is a failure as well.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, label: &str, input: Value, nontrivial: bool, f: F) {
        let k = self.case; self.case += 1;
        if let Some(o) = self.only { if o != k { return } }
        self.evaluations += 1;
        let text = format!("{}|{}", label, input);
        if nontrivial { self.distinct.insert(hash(&text)); }
        if self.samples.len() < 4 && (k % 7 == 3 || self.samples.is_empty()) { self.samples.push(json!({"case": k, "label": label, "input": input.clone()})) }
        let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))) };
        if let Err(msg) = r {
            if self.failures.len() < 20 { self.failures.push(json!({"case": k, "label": label, "input": input, "what": msg})) }
        }
    }
    pub fn write(&self, out: &str) {
        let v = json!({"property": self.prop, "seed": self.seed, "thorough": self.thorough, "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule, "bound": self.bound, "samples": self.samples, "failures": self.failures});
        std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}
/// runs a future that never waits on anything external
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn noop(_: *const ()) {} fn cl(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, noop, noop, noop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
}
pub fn b64(b: &[u8]) -> String { base64::encode_config(b, base64::URL_SAFE_NO_PAD) }
pub fn sha256(b: &[u8]) -> Vec<u8> { use sha2::{Digest, Sha256}; Sha256::digest(b).to_vec() }
/// any JSON value without floating point numbers
pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null, 1 => json!(r.flip()), 2 => json!(r.next()), 3 => json!(r.text()), 4 => json!(-(r.below(1000) as i64)),
        5 => Value::Array((0..r.below(4)).map(|_| any_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (r.text(), any_json(r, depth - 1))).collect()),
    }
}

}
mod world {
// Keys, documents, resolvers, and a JOSE implementation of its own (headers, key derivation and
// layout written from RFC 7515/7516/7518 and the ECDH-1PU draft), used as oracle. Only the
// primitives (curves, key wrapping, content encryption, signatures) come from askar-crypto.
use super::base::*;
use didcomm::did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use didcomm::error::{err_msg, Error, ErrorKind};
use askar_crypto::{alg::{aes::{A256CbcHs512, A256Gcm, A256Kw, AesKey}, chacha20::{Chacha20Key, XC20P}, ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair},
    buffer::SecretBytes, encrypt::{KeyAeadInPlace, KeyAeadMeta}, jwk::{FromJwk, ToJwk}, kdf::KeyExchange, repr::{KeyGen, KeyPublicBytes, KeySecretBytes, ToSecretBytes}, sign::{KeySigVerify, KeySign, SignatureType}};
use async_trait::async_trait;
use serde_json::{json, Map, Value};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Kind { Ed, X, P, K }
#[derive(Clone, Debug)] pub struct Key { pub kind: Kind, pub secret: Vec<u8>, pub public: Vec<u8>, pub jwk_pub: Value, pub jwk_sec: Value }
fn js(s: String) -> Value { serde_json::from_str(&s).unwrap() }
impl Key {
    pub fn gen(r: &mut Rng, kind: Kind) -> Key { loop { if let Some(k) = Key::of(kind, &r.bytes(32)) { return k } } }
    pub fn of(kind: Kind, s: &[u8]) -> Option<Key> {
        let (p, a, b) = match kind {
            Kind::Ed => { let k = Ed25519KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::X => { let k = X25519KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::P => { let k = P256KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
            Kind::K => { let k = K256KeyPair::from_secret_bytes(s).ok()?; (k.with_public_bytes(|b| b.to_vec()), k.to_jwk_public(None).ok()?, k.to_jwk_secret(None).ok()?) }
        };
        Some(Key { kind, secret: s.to_vec(), public: p, jwk_pub: js(a), jwk_sec: js(b) })
    }
    pub fn forms(&self) -> usize { match self.kind { Kind::Ed | Kind::X => 3, _ => 1 } }
    /// form 0 JWK, 1 base58, 2 multibase
    pub fn vm(&self, id: &str, form: usize) -> VerificationMethod {
        let did = id.split('#').next().unwrap();
        let ed = self.kind == Kind::Ed;
        let (t, m) = match form % self.forms() {
            0 => (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: self.jwk_pub.clone() }),
            1 => (if ed { VerificationMethodType::Ed25519VerificationKey2018 } else { VerificationMethodType::X25519KeyAgreementKey2019 }, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&self.public).into_string() }),
            _ => (if ed { VerificationMethodType::Ed25519VerificationKey2020 } else { VerificationMethodType::X25519KeyAgreementKey2020 }, VerificationMaterial::Multibase { public_key_multibase: format!("z{}", bs58::encode([if ed { &[0xed, 1][..] } else { &[0xec, 1][..] }, &self.public].concat()).into_string()) }),
        };
        VerificationMethod { id: id.into(), type_: t, controller: did.into(), verification_material: m }
    }
    pub fn secret(&self, id: &str, form: usize) -> Secret {
        let ed = self.kind == Kind::Ed;
        let raw = if ed { [&self.secret[..], &self.public].concat() } else { self.secret.clone() };
        let (t, m) = match form % self.forms() {
            0 => (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: self.jwk_sec.clone() }),
            1 => (if ed { SecretType::Ed25519VerificationKey2018 } else { SecretType::X25519KeyAgreementKey2019 }, SecretMaterial::Base58 { private_key_base58: bs58::encode(raw).into_string() }),
            _ => (if ed { SecretType::Ed25519VerificationKey2020 } else { SecretType::X25519KeyAgreementKey2020 }, SecretMaterial::Multibase { private_key_multibase: format!("z{}", bs58::encode([if ed { &[0x80, 0x26][..] } else { &[0x82, 0x26][..] }, &raw].concat()).into_string()) }),
        };
        Secret { id: id.into(), type_: t, secret_material: m }
    }
    pub fn alg(&self) -> &'static str { match self.kind { Kind::Ed => "EdDSA", Kind::P => "ES256", Kind::K => "ES256K", Kind::X => "none" } }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> { match self.kind {
        Kind::Ed => Ed25519KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::EdDSA)).unwrap().to_vec(),
        Kind::P => P256KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::ES256)).unwrap().to_vec(),
        Kind::K => K256KeyPair::from_secret_bytes(&self.secret).unwrap().create_signature(msg, Some(SignatureType::ES256K)).unwrap().to_vec(),
        Kind::X => vec![] } }
    pub fn verify(&self, msg: &[u8], sig: &[u8]) -> bool { match self.kind {
        Kind::Ed => Ed25519KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::EdDSA)).unwrap_or(false),
        Kind::P => P256KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::ES256)).unwrap_or(false),
        Kind::K => K256KeyPair::from_jwk(&self.jwk_pub.to_string()).unwrap().verify_signature(msg, sig, Some(SignatureType::ES256K)).unwrap_or(false),
        Kind::X => false } }
    /// shared secret of this (secret) key and a public JWK of the same curve
    pub fn agree(&self, public: &Value) -> Option<Vec<u8>> { let mut o = vec![]; match self.kind {
        Kind::X => X25519KeyPair::from_secret_bytes(&self.secret).ok()?.write_key_exchange(&X25519KeyPair::from_jwk(&public.to_string()).ok()?, &mut o).ok()?,
        Kind::P => P256KeyPair::from_secret_bytes(&self.secret).ok()?.write_key_exchange(&P256KeyPair::from_jwk(&public.to_string()).ok()?, &mut o).ok()?,
        _ => return None }; Some(o) }
    pub fn same_public(&self, jwk: &Value) -> bool { ["kty", "crv", "x", "y"].iter().all(|k| self.jwk_pub.get(k) == jwk.get(k)) }
}

pub struct Dids { pub docs: Vec<DIDDoc>, pub broken: Vec<String>, pub log: Mutex<Vec<String>> }
impl Dids { pub fn new(docs: Vec<DIDDoc>) -> Dids { Dids { docs, broken: vec![], log: Mutex::new(vec![]) } } pub fn asked(&self) -> Vec<String> { self.log.lock().unwrap().clone() } pub fn forget(&self) { self.log.lock().unwrap().clear() } }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl DIDResolver for Dids {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>, Error> {
        self.log.lock().unwrap().push(did.to_owned());
        if self.broken.iter().any(|b| b == did) { return Err(err_msg(ErrorKind::IoError, "resolver is broken")) }
        Ok(self.docs.iter().find(|d| d.id == did).cloned())
    }
}
pub struct Keys { pub secrets: Vec<Secret>, pub broken: bool }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl SecretsResolver for Keys {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>, Error> { if self.broken { return Err(err_msg(ErrorKind::IoError, "store is broken")) } Ok(self.secrets.iter().find(|s| s.id == id).cloned()) }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>, Error> { if self.broken { return Err(err_msg(ErrorKind::IoError, "store is broken")) } Ok(ids.iter().filter(|i| self.secrets.iter().any(|s| s.id == **i)).map(|i| *i).collect()) }
}
pub fn doc(id: &str) -> DIDDoc { DIDDoc { id: id.into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![] } }
pub fn didcomm_service(id: &str, uri: &str, accept: Option<Vec<String>>, keys: Vec<String>) -> Service { Service { id: id.into(), service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept, routing_keys: keys } } } }

pub fn unb64(s: &str) -> Result<Vec<u8>, String> { base64::decode_config(s, base64::URL_SAFE_NO_PAD).map_err(|e| e.to_string()) }
/// Concat KDF (NIST SP 800-56A) with a 256-bit output and SHA-256: one round
pub fn concat_kdf(z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], tag: Option<&[u8]>) -> Vec<u8> {
    let mut m = vec![0, 0, 0, 1]; m.extend_from_slice(z);
    for p in [alg, apu, apv] { m.extend_from_slice(&(p.len() as u32).to_be_bytes()); m.extend_from_slice(p) }
    m.extend_from_slice(&256u32.to_be_bytes());
    if let Some(t) = tag { m.extend_from_slice(&(t.len() as u32).to_be_bytes()); m.extend_from_slice(t) }
    sha256(&m)
}
fn aead(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], buf: &mut SecretBytes, open: bool) -> Result<usize, String> {
    fn go<K: KeyAeadInPlace + KeySecretBytes>(key: &[u8], iv: &[u8], aad: &[u8], buf: &mut SecretBytes, open: bool) -> Result<usize, String> {
        let k = K::from_secret_bytes(key).map_err(|e| format!("content key: {}", e))?;
        if open { k.decrypt_in_place(buf, iv, aad).map(|_| 0) } else { k.encrypt_in_place(buf, iv, aad) }.map_err(|e| format!("content: {}", e))
    }
    match enc { "A256CBC-HS512" => go::<AesKey<A256CbcHs512>>(key, iv, aad, buf, open), "A256GCM" => go::<AesKey<A256Gcm>>(key, iv, aad, buf, open), "XC20P" => go::<Chacha20Key<XC20P>>(key, iv, aad, buf, open), _ => Err(format!("enc {}", enc)) }
}
#[derive(Debug, Clone)] pub struct Opened { pub header: Value, pub kids: Vec<String>, pub apu: Option<Vec<u8>>, pub text: Vec<u8> }
/// opens a JWE as the recipient `kid`, or says why it cannot be opened
pub fn open_jwe(text: &str, kid: &str, key: &Key, sender: Option<&Value>) -> Result<Opened, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let st = |v: &Value, k: &str| v[k].as_str().map(|s| s.to_string()).ok_or(format!("no text member {}", k));
    let protected = st(&v, "protected")?;
    let header: Value = serde_json::from_slice(&unb64(&protected)?).map_err(|e| e.to_string())?;
    let rs = v["recipients"].as_array().ok_or("no recipients")?;
    let mut kids = vec![]; for r in rs { kids.push(st(&r["header"], "kid")?) }
    let i = kids.iter().position(|k| k == kid).ok_or(format!("no recipient {}", kid))?;
    let alg = st(&header, "alg")?; let enc = st(&header, "enc")?;
    let apu = match header.get("apu") { Some(Value::String(s)) => Some(unb64(s)?), None | Some(Value::Null) => None, _ => return Err("apu".into()) };
    let apv = unb64(&st(&header, "apv")?)?; let tag = unb64(&st(&v, "tag")?)?;
    let ze = key.agree(&header["epk"]).ok_or("epk")?;
    let kek = match (alg.as_str(), sender) {
        ("ECDH-ES+A256KW", _) => concat_kdf(&ze, b"ECDH-ES+A256KW", apu.as_deref().unwrap_or(&[]), &apv, None),
        ("ECDH-1PU+A256KW", Some(s)) => { let zs = key.agree(s).ok_or("sender key")?; concat_kdf(&[ze, zs].concat(), b"ECDH-1PU+A256KW", apu.as_deref().unwrap_or(&[]), &apv, Some(&tag)) }
        x => return Err(format!("alg {:?}", x.0)),
    };
    let mut b = SecretBytes::from_slice(&unb64(&st(&rs[i], "encrypted_key")?)?);
    AesKey::<A256Kw>::from_secret_bytes(&kek).unwrap().decrypt_in_place(&mut b, &[], &[]).map_err(|e| format!("key unwrapping: {}", e))?;
    let mut c = SecretBytes::from_slice(&[unb64(&st(&v, "ciphertext")?)?, tag].concat());
    aead(&enc, &b, &unb64(&st(&v, "iv")?)?, protected.as_bytes(), &mut c, true)?;
    Ok(Opened { header, kids, apu, text: c.to_vec() })
}
/// what to write into a JWE
#[derive(Clone)] pub struct Seal<'a> { pub alg: &'a str, pub enc: &'a str, pub typ: Option<&'a str>, pub sender: Option<(&'a str, &'a Key)>, pub to: Vec<(&'a str, &'a Key)>, pub epk: Key, pub skid: bool }
pub fn apv_of(kids: &[&str]) -> Vec<u8> { let mut k = kids.to_vec(); k.sort(); sha256(k.join(".").as_bytes()) }
pub fn seal_jwe(r: &mut Rng, text: &[u8], s: &Seal) -> Value {
    let apv = apv_of(&s.to.iter().map(|t| t.0).collect::<Vec<_>>());
    let mut h = Map::new();
    if let Some(t) = s.typ { h.insert("typ".into(), json!(t)); }
    h.insert("alg".into(), json!(s.alg)); h.insert("enc".into(), json!(s.enc)); h.insert("apv".into(), json!(b64(&apv))); h.insert("epk".into(), s.epk.jwk_pub.clone());
    if let Some((kid, _)) = s.sender { h.insert("apu".into(), json!(b64(kid.as_bytes()))); if s.skid { h.insert("skid".into(), json!(kid)); } }
    let protected = b64(Value::Object(h).to_string().as_bytes());
    let (kl, il, tl) = match s.enc { "A256CBC-HS512" => (64, 16, 32), "A256GCM" => (32, 12, 16), _ => (32, 24, 16) };
    let cek = r.bytes(kl); let iv = r.bytes(il);
    let mut b = SecretBytes::from_slice(text);
    let n = aead(if matches!(s.enc, "A256CBC-HS512" | "A256GCM" | "XC20P") { s.enc } else { "XC20P" }, &cek, &iv, protected.as_bytes(), &mut b, false).unwrap();
    let (c, tag) = (b[..n].to_vec(), b[n..].to_vec());
    let rs: Vec<Value> = s.to.iter().map(|(kid, k)| {
        let ze = s.epk.agree(&k.jwk_pub).unwrap_or_default();
        let kek = match s.sender { Some((sk, key)) if s.alg.starts_with("ECDH-1PU") => concat_kdf(&[ze, key.agree(&k.jwk_pub).unwrap_or_default()].concat(), s.alg.as_bytes(), sk.as_bytes(), &apv, Some(&tag)),
            x => concat_kdf(&ze, s.alg.as_bytes(), x.map(|x| x.0.as_bytes()).unwrap_or(&[]), &apv, None) };
        let mut b = SecretBytes::from_slice(&cek); AesKey::<A256Kw>::from_secret_bytes(&kek).unwrap().encrypt_in_place(&mut b, &[], &[]).unwrap();
        json!({"header": {"kid": kid}, "encrypted_key": b64(&b)}) }).collect();
    json!({"protected": protected, "recipients": rs, "iv": b64(&iv), "ciphertext": b64(&c), "tag": b64(&tag)})
}
/// a JWS in the general serialization, one signature
pub fn sign_jws(payload: &[u8], kid: &str, key: &Key, typ: &str, alg: &str) -> Value {
    let p = b64(json!({"typ": typ, "alg": alg}).to_string().as_bytes()); let t = b64(payload);
    json!({"payload": t, "signatures": [{"protected": p, "header": {"kid": kid}, "signature": b64(&key.sign(format!("{}.{}", p, t).as_bytes()))}]})
}
/// a store whose list of found ids and whose secrets need not agree
pub struct Store { pub lists: Vec<String>, pub secrets: Vec<Secret>, pub broken_find: bool, pub broken_get: bool }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl SecretsResolver for Store {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>, Error> { if self.broken_get { return Err(err_msg(ErrorKind::IoError, "get")) } Ok(self.secrets.iter().find(|s| s.id == id).cloned()) }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>, Error> { if self.broken_find { return Err(err_msg(ErrorKind::IllegalArgument, "find")) } Ok(ids.iter().filter(|i| self.lists.iter().any(|s| s == **i)).map(|i| *i).collect()) }
}

}
use base::*; use world::*;
use didcomm::{*, did::*, secrets::*, error::*, algorithms::*};
use serde_json::{json, Value};
/// a party: its document, with keys for agreement (x0, x1.., p0, p1..) and for signing (e0.., s0.., k0..)
struct P { did: String, doc: DIDDoc, keys: Vec<(String, Key)> }
fn p(r: &mut Rng, did: &str, names: &[&str]) -> P {
    let mut d = doc(did); let mut keys = vec![];
    for (i, n) in names.iter().enumerate() {
        let kind = match n.as_bytes()[0] { b'x' => Kind::X, b'p' => Kind::P, b'e' | b'E' => Kind::Ed, b's' => Kind::P, _ => Kind::K };
        let k = Key::gen(r, kind); let id = format!("{}#{}", did, n);
        d.verification_method.push(k.vm(&id, i));
        if n.starts_with('x') || n.starts_with('p') { d.key_agreement.push(id.clone()) } else { d.authentication.push(id.clone()) }
        keys.push((id, k));
    }
    P { did: did.into(), doc: d, keys }
}
impl P {
    fn id(&self, n: &str) -> String { format!("{}#{}", self.did, n) }
    fn key(&self, n: &str) -> &Key { &self.keys.iter().find(|k| k.0 == self.id(n)).unwrap().1 }
    fn sec(&self, n: &str) -> Secret { self.key(n).secret(&self.id(n), 0) }
    fn secs(&self) -> Vec<Secret> { self.keys.iter().map(|k| k.1.secret(&k.0, 0)).collect() }
}
fn dids(ps: &[&P]) -> Dids { Dids::new(ps.iter().map(|p| p.doc.clone()).collect()) }
fn store(s: Vec<Secret>) -> Keys { Keys { secrets: s, broken: false } }
fn plain_opts() -> PackEncryptedOptions { PackEncryptedOptions { forward: false, ..PackEncryptedOptions::default() } }
fn all_keys(all: bool, unwrap: bool) -> UnpackOptions { let mut o = UnpackOptions::default(); o.expect_decrypt_by_all_keys = all; o.unwrap_re_wrapping_forward = unwrap; o }
fn say(ok: bool, what: &str) { if !ok { println!("FAILED: {}", what); std::process::exit(1) } }
