use super::base::*;
use super::c_crypt::*;
use super::world::*;
use crate::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use crate::did::{VerificationMaterial, VerificationMethodType};
use crate::error::ErrorKind;
use crate::message::{FromPrior, Message, UnpackMetadata, UnpackOptions};
use crate::secrets::{Secret, SecretMaterial, SecretType};
use serde_json::{json, Value};

type R<T> = Result<T, Option<ErrorKind>>;
fn bad<T>(k: ErrorKind) -> R<T> { Err(Some(k)) }
struct World<'a> { ps: Vec<&'a Party>, dids: &'a Dids, st: &'a Store, o: &'a UnpackOptions }
fn blank() -> UnpackMetadata { UnpackMetadata { encrypted: false, authenticated: false, non_repudiation: false, anonymous_sender: false, re_wrapped_in_forward: false, encrypted_from_kid: None, encrypted_to_kids: None, sign_from: None, from_prior_issuer_kid: None, enc_alg_auth: None, enc_alg_anon: None, sign_alg: None, signed_message: None, from_prior: None } }
/// a text that ends early is refused one way or another; `None`: not JSON
fn json_of(b: &[u8]) -> R<Option<Value>> { match serde_json::from_slice(b) { Ok(v) => Ok(Some(v)), Err(e) if e.is_eof() || e.is_io() => Err(None), Err(_) => Ok(None) } }
fn did_of(kid: &str) -> &str { kid.split('#').next().unwrap() }
impl<'a> World<'a> {
    fn look(&self, did: &str) -> R<Option<crate::did::DIDDoc>> { if self.dids.broken.iter().any(|b| b == did) { return bad(ErrorKind::IoError) } Ok(self.dids.docs.iter().find(|d| d.id == did).cloned()) }
    /// a JWE, its header and its recipients
    fn jwe(&self, t: &str) -> R<Option<(Value, Vec<String>)>> {
        let v = match json_of(t.as_bytes())? { Some(v) => v, None => return Ok(None) };
        for k in ["protected", "iv", "ciphertext", "tag"] { if !v[k].is_string() { return Ok(None) } }
        let rs = match v["recipients"].as_array() { Some(a) => a, None => return Ok(None) };
        let kids: Option<Vec<String>> = rs.iter().map(|r| r["header"]["kid"].as_str().map(|s| s.to_string())).collect();
        let kids = match kids { Some(k) => k, None => return Ok(None) };
        let h = match unb64(v["protected"].as_str().unwrap()) { Ok(h) => h, Err(_) => return bad(ErrorKind::Malformed) };
        let h = match json_of(&h)? { Some(h) => h, None => return bad(ErrorKind::Malformed) };
        for k in ["alg", "enc", "apv"] { if !h[k].is_string() { return bad(ErrorKind::Malformed) } }
        if h.get("epk").is_none() || ["typ", "skid"].iter().any(|k| !h[*k].is_string() && !h[*k].is_null()) { return bad(ErrorKind::Malformed) }
        if unb64(h["apv"].as_str().unwrap()).is_err() || h.get("apu").map_or(false, |a| a.as_str().map_or(true, |a| unb64(a).is_err())) { return bad(ErrorKind::Malformed) }
        Ok(Some((h, kids)))
    }
    fn apu(h: &Value) -> Option<Vec<u8>> { h.get("apu").and_then(|a| a.as_str()).map(|a| unb64(a).unwrap()) }
    fn check(&self, h: &Value, kids: &[String]) -> R<()> {
        let k: Vec<&str> = kids.iter().map(|k| k.as_str()).collect();
        if unb64(h["apv"].as_str().unwrap()).unwrap() != apv_of(&k) { return bad(ErrorKind::Malformed) }
        let apu = Self::apu(h);
        if let Some(a) = &apu { if std::str::from_utf8(a).is_err() { return bad(ErrorKind::Malformed) } }
        if let Some(s) = h.get("skid").and_then(|s| s.as_str()) { if apu.as_deref() != Some(s.as_bytes()) { return bad(ErrorKind::Malformed) } }
        Ok(())
    }
    fn found(&self, kids: &[String]) -> R<Vec<String>> {
        if kids.is_empty() || kids.iter().any(|k| !k.contains('#') || did_of(k) != did_of(&kids[0])) { return bad(ErrorKind::Malformed) }
        if self.st.broken_find { return bad(ErrorKind::IllegalArgument) }
        let f: Vec<String> = kids.iter().filter(|k| self.st.lists.contains(k)).cloned().collect();
        if f.is_empty() { bad(ErrorKind::SecretNotFound) } else { Ok(f) }
    }
    fn secret(&self, kid: &str) -> R<Key> {
        if self.st.broken_get { return bad(ErrorKind::IoError) }
        let s = match self.st.secrets.iter().find(|s| s.id == kid) { Some(s) => s, None => return bad(ErrorKind::InvalidState) };
        if let SecretType::Other = s.type_ { return bad(ErrorKind::Unsupported) }
        self.ps.iter().find_map(|p| secret_key(p, s)).cloned().ok_or(None)
    }
    fn anon(&self, t: &str, m: &mut UnpackMetadata) -> R<Option<String>> {
        let (h, kids) = match self.jwe(t)? { None => return Ok(None), Some(x) => x };
        if h["alg"] != "ECDH-ES+A256KW" { return Ok(None) }
        self.check(&h, &kids)?;
        let f = self.found(&kids)?; let mut out = vec![];
        for k in f.iter().take(if self.o.expect_decrypt_by_all_keys { f.len() } else { 1 }) {
            let key = self.secret(k)?;
            if key.kind != Kind::X && key.kind != Kind::P { return bad(ErrorKind::Unsupported) }
            m.enc_alg_anon = Some(match h["enc"].as_str().unwrap() { "A256CBC-HS512" => AnonCryptAlg::A256cbcHs512EcdhEsA256kw, "XC20P" => AnonCryptAlg::Xc20pEcdhEsA256kw, "A256GCM" => AnonCryptAlg::A256gcmEcdhEsA256kw, _ => return bad(ErrorKind::Unsupported) });
            if h.get("apu").is_some() { return Err(None) } // an anonymous envelope names no sender
            out = open_jwe(t, k, &key, None).map_err(|_| None)?.text;
        }
        m.encrypted = true; m.anonymous_sender = true; m.encrypted_to_kids = Some(kids);
        String::from_utf8(out).map(Some).map_err(|_| Some(ErrorKind::Malformed))
    }
    fn auth(&self, t: &str, m: &mut UnpackMetadata) -> R<Option<String>> {
        let (h, kids) = match self.jwe(t)? { None => return Ok(None), Some(x) => x };
        if h["alg"] != "ECDH-1PU+A256KW" { return Ok(None) }
        self.check(&h, &kids)?;
        let from = match Self::apu(&h) { None => return bad(ErrorKind::Malformed), Some(a) => String::from_utf8(a).unwrap() };
        if !from.contains('#') { return bad(ErrorKind::Malformed) }
        let d = match self.look(did_of(&from)) { Err(_) => return bad(ErrorKind::InvalidState), Ok(None) => return bad(ErrorKind::DIDNotResolved), Ok(Some(d)) => d };
        if !d.key_agreement.contains(&from) { return bad(ErrorKind::DIDUrlNotFound) }
        let vm = match method(&d, &from) { None => return bad(ErrorKind::DIDUrlNotFound), Some(v) => v };
        if kind_of(vm).is_none() { return if let VerificationMethodType::Other = vm.type_ { bad(ErrorKind::Unsupported) } else { Err(None) } }
        let own = self.ps.iter().find_map(|p| key_of(p, vm)).ok_or(None)?;
        let f = self.found(&kids)?; let mut out = vec![];
        for k in f.iter().take(if self.o.expect_decrypt_by_all_keys { f.len() } else { 1 }) {
            let key = self.secret(k)?;
            match (own.kind, key.kind) { (Kind::X, Kind::X) | (Kind::P, Kind::P) => if h["enc"] != "A256CBC-HS512" { return bad(ErrorKind::Unsupported) }, (Kind::X, Kind::P) | (Kind::P, Kind::X) => return bad(ErrorKind::Malformed), _ => return bad(ErrorKind::Unsupported) }
            out = open_jwe(t, k, &key, Some(&own.jwk_pub)).map_err(|_| None)?.text;
        }
        m.encrypted = true; m.authenticated = true; m.encrypted_from_kid = Some(from); m.enc_alg_auth = Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
        if m.encrypted_to_kids.is_none() { m.encrypted_to_kids = Some(kids) }
        String::from_utf8(out).map(Some).map_err(|_| Some(ErrorKind::Malformed))
    }
    fn sign(&self, t: &str, m: &mut UnpackMetadata) -> R<Option<String>> {
        let v = match json_of(t.as_bytes())? { Some(v) => v, None => return Ok(None) };
        let (pl, ss) = match (v["payload"].as_str(), v["signatures"].as_array()) { (Some(p), Some(s)) => (p, s), _ => return Ok(None) };
        if ss.iter().any(|s| !s["protected"].is_string() || !s["signature"].is_string() || !s["header"]["kid"].is_string()) { return Ok(None) }
        let mut algs = vec![];
        for s in ss { let b = match unb64(s["protected"].as_str().unwrap()) { Ok(b) => b, Err(_) => return bad(ErrorKind::Malformed) }; let h = match json_of(&b)? { Some(h) => h, None => return bad(ErrorKind::Malformed) }; match (&h["alg"], &h["typ"]) { (Value::String(a), Value::String(_) | Value::Null) => algs.push(a.clone()), _ => return bad(ErrorKind::Malformed) } }
        if ss.len() != 1 { return bad(ErrorKind::Malformed) }
        let kid = ss[0]["header"]["kid"].as_str().unwrap();
        if !kid.contains('#') { return bad(ErrorKind::Malformed) }
        let d = match self.look(did_of(kid))? { None => return bad(ErrorKind::DIDNotResolved), Some(d) => d };
        if !d.authentication.iter().any(|a| a == kid) { return bad(ErrorKind::DIDUrlNotFound) }
        let vm = match method(&d, kid) { None => return bad(ErrorKind::DIDUrlNotFound), Some(v) => v };
        let alg = match algs[0].as_str() { "EdDSA" => SignAlg::EdDSA, "ES256" => SignAlg::ES256, "ES256K" => SignAlg::ES256K, _ => return bad(ErrorKind::Unsupported) };
        let k = self.ps.iter().find_map(|p| key_of(p, vm)).ok_or(None)?;
        if kind_of(vm) != Some(k.kind) || k.alg() != algs[0] { return Err(None) }
        let sig = unb64(ss[0]["signature"].as_str().unwrap()).map_err(|_| None)?;
        if !k.verify(format!("{}.{}", ss[0]["protected"].as_str().unwrap(), pl).as_bytes(), &sig) { return bad(ErrorKind::Malformed) }
        m.authenticated = true; m.non_repudiation = true; m.sign_from = Some(kid.into()); m.sign_alg = Some(alg); m.signed_message = Some(t.into());
        match unb64(pl).ok().and_then(|b| String::from_utf8(b).ok()) { Some(s) => Ok(Some(s)), None => bad(ErrorKind::Malformed) }
    }
    fn message(t: &str) -> Option<Value> {
        let mut v: Value = json_of(t.as_bytes()).ok()??; let o = v.as_object_mut()?;
        if !o.get("id")?.is_string() || !o.get("type")?.is_string() || o.get("body").is_none() { return None }
        if !o.contains_key("typ") { o.insert("typ".into(), json!("application/didcomm-plain+json")); }
        if !o["typ"].is_string() { return None }
        Some(v)
    }
    fn plain(&self, t: &str, m: &mut UnpackMetadata) -> R<Value> {
        json_of(t.as_bytes())?; let v = match Self::message(t) { None => return bad(ErrorKind::Malformed), Some(v) => v };
        if v["typ"] != "application/didcomm-plain+json" { return bad(ErrorKind::Malformed) }
        if let Some(j) = v["from_prior"].as_str() {
            let p: Vec<&str> = j.split('.').collect();
            let h: Value = serde_json::from_slice(&unb64(p[0]).unwrap()).unwrap(); let b: Value = serde_json::from_slice(&unb64(p[1]).unwrap()).unwrap();
            let kid = h["kid"].as_str().unwrap();
            let d = match self.look(did_of(kid))? { None => return bad(ErrorKind::DIDNotResolved), Some(d) => d };
            if !d.authentication.iter().any(|a| a == kid) { return bad(ErrorKind::DIDUrlNotFound) }
            let vm = match method(&d, kid) { None => return bad(ErrorKind::DIDUrlNotFound), Some(v) => v };
            let k = self.ps.iter().find_map(|p| key_of(p, vm)).ok_or(None)?;
            if kind_of(vm) != Some(k.kind) || k.alg() != h["alg"].as_str().unwrap() { return Err(None) }
            if !k.verify(format!("{}.{}", p[0], p[1]).as_bytes(), &unb64(p[2]).unwrap()) || b["iss"] != did_of(kid) { return bad(ErrorKind::Malformed) }
            m.from_prior_issuer_kid = Some(kid.into()); m.from_prior = Some(FromPrior { iss: b["iss"].as_str().unwrap().into(), sub: b["sub"].as_str().unwrap().into(), aud: None, exp: None, nbf: None, iat: None, jti: None });
        }
        Ok(v)
    }
    /// what a forward to the caller carries
    fn forwarded(&self, t: &str) -> R<Option<String>> {
        json_of(t.as_bytes())?; let v = match Self::message(t) { None => return Ok(None), Some(v) => v };
        if v["type"] != "https://didcomm.org/routing/2.0/forward" { return Ok(None) }
        let (next, inner) = match (v["body"]["next"].as_str(), v["attachments"].get(0).and_then(|a| a["data"].get("json"))) { (Some(n), Some(i)) => (n, i), _ => return Ok(None) };
        let kids = if next.contains('#') { vec![next.to_string()] } else { match self.look(next)? { None => return bad(ErrorKind::DIDNotResolved), Some(d) => d.key_agreement } };
        if self.st.broken_find { return bad(ErrorKind::IllegalArgument) }
        Ok(if kids.iter().any(|k| self.st.lists.contains(k)) { Some(inner.to_string()) } else { None })
    }
    fn unpack(&self, t: &str) -> R<(Value, UnpackMetadata)> {
        let mut m = blank(); let mut t = t.to_string();
        while let Some(x) = self.anon(&t, &mut m)? { t = x; match if self.o.unwrap_re_wrapping_forward { self.forwarded(&t)? } else { None } { Some(x) => { t = x; m.re_wrapped_in_forward = true } None => break } }
        if let Some(x) = self.auth(&t, &mut m)? { t = x }
        if let Some(x) = self.sign(&t, &mut m)? { t = x }
        let v = self.plain(&t, &mut m)?; Ok((v, m))
    }
}
#[derive(Clone, Copy, PartialEq)] enum Layer { Anon, Auth, Sign, Fwd }
fn flip_in(v: &mut Value, r: &mut Rng) { if let Value::String(s) = v { if let Ok(mut b) = unb64(s) { if !b.is_empty() { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); *s = b64(&b); } } } }
fn seal(r: &mut Rng, a: &Party, b: &Party, text: &[u8], auth: bool, odd: usize) -> String {
    let kind = if r.chance(1, 2) { Kind::X } else { Kind::P };
    let mut to: Vec<(&str, &Key)> = b.keys.iter().filter(|k| k.1.kind == kind && (r.chance(9, 10))).map(|k| (k.0.as_str(), &k.1)).collect();
    if to.is_empty() || r.chance(1, 20) { to = b.keys.iter().filter(|k| k.0.starts_with(&b.doc.id)).map(|k| (k.0.as_str(), &k.1)).collect() }
    if !r.chance(1, 6) { to.retain(|k| k.0.starts_with(&b.doc.id)) }
    if r.chance(1, 4) { r.shuffle(&mut to) }
    let kind = to.first().map(|t| t.1.kind).unwrap_or(kind);
    let epk = Key::gen(r, if kind == Kind::P { Kind::P } else { Kind::X });
    let enc = if auth { if odd == 1 { *r.pick(&["XC20P", "A256GCM", "XX"]) } else { "A256CBC-HS512" } } else if odd == 1 { "XX" } else { *r.pick(&["A256CBC-HS512", "XC20P", "A256GCM"]) };
    let mut own: Vec<&(String, Key)> = a.keys.iter().filter(|k| k.1.kind == kind || odd == 2).collect(); if own.is_empty() || r.chance(1, 30) { own = a.keys.iter().collect() }
    let strange = Key::gen(r, kind); let nobody = ("did:c:gone#k0".to_string(), strange.clone());
    let (mut sk, mut key) = match if own.is_empty() { None } else { Some(r.pick(&own)) } { Some(k) => (k.0.clone(), &k.1), None => (nobody.0.clone(), &nobody.1) };
    match odd { 19 => sk = r.near(&sk), 3 => sk = did_of(&sk).to_string(), 4 => sk = "did:c:gone#k0".into(), 5 => key = &strange, 6 => if !a.keys.is_empty() { sk = r.pick(&a.keys).0.clone() }, 7 => if !a.keys.is_empty() { key = &r.pick(&a.keys).1 }, _ => {} }
    let alg = if odd == 8 { *r.pick(&["ECDH-ES+A128KW", "ECDH-1PU", "none"]) } else if auth { "ECDH-1PU+A256KW" } else { "ECDH-ES+A256KW" };
    let s = Seal { alg, enc, typ: Some("application/didcomm-encrypted+json"), sender: if auth || odd == 9 { Some((&sk, key)) } else { None }, to: to.clone(), epk, skid: odd != 10 && odd != 9 };
    let mut v = seal_jwe(r, text, &s);
    match odd {
        11 => flip_in(&mut v["ciphertext"], r), 12 => flip_in(&mut v["tag"], r), 13 => if !to.is_empty() { flip_in(&mut v["recipients"][0]["encrypted_key"], r) },
        14 => { v["recipients"].as_array_mut().unwrap().push(json!({"header": {"kid": format!("{}#more", b.doc.id)}, "encrypted_key": "AA"})); }
        15 => { v["recipients"].as_array_mut().unwrap().pop(); }
        16 => { let mut h: Value = serde_json::from_slice(&unb64(v["protected"].as_str().unwrap()).unwrap()).unwrap(); match r.below(4) { 0 => h["skid"] = json!("did:a:alice#kx"), 1 => { h.as_object_mut().unwrap().remove("apu"); } 2 => h["apv"] = json!("AAAA"), _ => h["enc"] = json!("XC20P") }; v["protected"] = json!(b64(h.to_string().as_bytes())) }
        17 => flip_in(&mut v["protected"], r), 18 => { let mut rs = v["recipients"].as_array().unwrap().clone(); r.shuffle(&mut rs); v["recipients"] = json!(rs) }
        _ => {} }
    v.to_string()
}
fn signed(r: &mut Rng, a: &Party, text: &[u8], odd: usize) -> String {
    let own: Vec<&(String, Key)> = a.keys.iter().filter(|k| k.1.kind != Kind::X && (a.doc.authentication.contains(&k.0) || odd == 1)).collect();
    let strange = ("did:c:gone#k0".to_string(), Key::gen(r, Kind::Ed));
    let (kid, key) = if own.is_empty() { &strange } else { *r.pick(&own) };
    let mut kid = kid.clone(); let mut key = key;
    match odd { 15 | 16 => kid = r.near(&kid), 2 => kid = did_of(&kid).into(), 3 => kid = "did:c:gone#k0".into(), 4 => if !a.keys.is_empty() { kid = r.pick(&a.keys).0.clone() }, 5 => key = &strange.1, _ => {} }
    let alg = if odd == 6 { *r.pick(&["none", "HS256", "ES256", "EdDSA", "ES256K"]) } else { key.alg() };
    let mut v = sign_jws(text, &kid, key, "application/didcomm-signed+json", alg);
    match odd {
        7 => flip_in(&mut v["signatures"][0]["signature"], r), 8 => flip_in(&mut v["payload"], r), 9 => { let s = v["signatures"][0].clone(); v["signatures"].as_array_mut().unwrap().push(s) }
        10 => { v["signatures"] = json!([]) } 11 => { v["signatures"][0]["signature"] = json!("") } 12 => { v["signatures"][0]["protected"] = json!(b64(json!({"typ": "application/didcomm-signed+json", "alg": *r.pick(&["none", "ES256", "EdDSA"])}).to_string().as_bytes())) }
        13 => { v["signatures"][0]["protected"] = json!("%%") } 14 => { let o = sign_jws(b"{}", &kid, key, "application/didcomm-signed+json", alg); v["payload"] = o["payload"].clone() }
        _ => {} }
    v.to_string()
}
fn run(ctx: &mut Ctx, n: u64, shapes: &[&[Layer]], odds: usize) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(n) {
        let all = r.chance(1, 3);
        let calm = r.flip(); let odds = if calm { 0 } else { odds };
        let a = if calm { let n = 2 + r.below(4); calm_party(&mut r, "did:a:alice", if all { &[Kind::X, Kind::P, Kind::Ed, Kind::K] } else { &[Kind::X, Kind::P, Kind::Ed] }, n) } else { let mut p = party(&mut r, "did:a:alice", if all { &[Kind::X, Kind::P, Kind::Ed, Kind::K] } else { &[Kind::X, Kind::P, Kind::Ed] }, 5); for (id, k) in p.keys.clone() { if k.kind == Kind::Ed || k.kind == Kind::K || r.chance(1, 3) { if !r.chance(1, 12) && !p.doc.authentication.contains(&id) { p.doc.authentication.push(id) } } } p };
        let more = r.chance(1, 5); let b = if calm { let n = some_count(&mut r); let k = if r.flip() { &[Kind::X, Kind::P][..] } else if r.flip() { &[Kind::X] } else { &[Kind::P] }; calm_party(&mut r, "did:b:bob", k, n) } else { party(&mut r, "did:b:bob", if more { &[Kind::X, Kind::P, Kind::Ed] } else { &[Kind::X, Kind::P] }, 4) };
        let mut dids = Dids::new(vec![a.doc.clone(), b.doc.clone()]);
        match if calm { 40 } else { r.below(40) } { 0 => dids.broken.push("did:a:alice".into()), 1 => dids.broken.push("did:b:bob".into()), _ => {} }
        let mut secrets: Vec<Secret> = vec![]; for (id, k) in b.keys.iter() { if r.chance(4, 5) { let f = r.below(3); secrets.push(k.secret(id, f)) } }
        if !calm && r.chance(1, 30) { if let Some(s) = secrets.first_mut() { if r.flip() { s.type_ = SecretType::Other } else { s.secret_material = SecretMaterial::JWK { private_key_jwk: json!({}) } } } }
        if r.chance(1, 4) { r.shuffle(&mut secrets) }
        let lists: Vec<String> = secrets.iter().map(|s| s.id.clone()).collect();
        if !calm && r.chance(1, 60) { secrets.clear() }
        let st = Store { lists, secrets, broken_find: !calm && r.chance(1, 60), broken_get: !calm && r.chance(1, 60) };
        let o = UnpackOptions { expect_decrypt_by_all_keys: r.chance(1, 3), unwrap_re_wrapping_forward: r.chance(3, 4) };
        // the message, from the inside out
        let mut v = json!({"id": r.text(), "typ": "application/didcomm-plain+json", "type": "t", "body": {"x": r.text()}, "from": "did:a:alice"});
        if r.chance(1, 25) { v["body"]["big"] = json!(some_bulk(&mut r)) }
        match if calm { 24 } else { r.below(24) } { 0 => v["typ"] = json!("application/didcomm-signed+json"), 1 => { v.as_object_mut().unwrap().remove("typ"); } 2 => { v.as_object_mut().unwrap().remove("id"); } 3 => v = json!([v]), 4 => v["typ"] = json!(""), _ => {} }
        if v.is_object() && r.chance(1, 8) {
            let own: Vec<&(String, Key)> = a.keys.iter().filter(|k| k.1.kind != Kind::X).collect();
            if !own.is_empty() { let (kid, k) = *r.pick(&own); let iss = if r.chance(1, 5) { "did:b:bob" } else { "did:a:alice" };
                let t = format!("{}.{}", b64(json!({"typ": "JWT", "alg": k.alg(), "kid": kid}).to_string().as_bytes()), b64(json!({"iss": iss, "sub": "did:a:new"}).to_string().as_bytes()));
                let mut s = k.sign(t.as_bytes()); if r.chance(1, 6) { s[0] ^= 1 } v["from_prior"] = json!(format!("{}.{}", t, b64(&s))); }
        }
        let mut t = v.to_string(); if !calm && r.chance(1, 60) { t = r.text() }
        let some: Vec<Layer> = (0..r.below(4)).map(|_| *r.pick(&[Layer::Anon, Layer::Auth, Layer::Sign])).collect();
        let shape: &[Layer] = if r.chance(1, 10) { &some } else { *r.pick(shapes) };
        let hurt = if r.chance(odds, 10) { r.below(shape.len() + 1) } else { usize::MAX };
        for (i, l) in shape.iter().enumerate().rev() {
            let odd = if i == hurt { 1 + r.below(19) } else { 0 };
            if r.chance(1, 40) { t = r.pick(&[" ", "\n", "\t ", "\u{feff}"]).to_string() + &t } if r.chance(1, 40) { t += *r.pick(&[" ", "\n", "\r\n", "\u{a0}", "x"]) }
            let mut raw = if !calm && r.chance(1, 80) { vec![0x7b, 0xff, 0x7d] } else { t.clone().into_bytes() };
            // text that is not UTF-8, but would be the message if it were read leniently
            if i + 1 == shape.len() && !calm && r.chance(1, 12) { if let Some(p) = t.find("\"type\":\"").filter(|_| raw.len() > 3) { raw.insert(p + 8, *r.pick(&[0xff, 0xc0, 0x80])) } }
            t = match l {
                Layer::Anon => seal(&mut r, &a, &b, &raw, false, odd), Layer::Auth => seal(&mut r, &a, &b, &raw, true, odd), Layer::Sign => signed(&mut r, &a, &raw, odd),
                Layer::Fwd => {
                    let next = match r.below(12) { 0 => "did:c:gone".to_string(), 1 => "did:a:alice".into(), 2 => "did:c:gone#k".into(), 5 => { let t = if b.keys.is_empty() || r.flip() { "did:b:bob".to_string() } else { r.pick(&b.keys).0.clone() }; r.near(&t) } 3 | 4 if !b.keys.is_empty() => r.pick(&b.keys).0.clone(), _ => "did:b:bob".into() };
                    let mut f = json!({"id": "f", "typ": "application/didcomm-plain+json", "type": "https://didcomm.org/routing/2.0/forward", "body": {"next": next}, "attachments": [{"data": {"json": serde_json::from_str::<Value>(&t).unwrap_or(json!(t))}}]});
                    match r.below(20) { 0 => f["type"] = json!("https://didcomm.org/routing/2.0/forwarded"), 1 => f["body"] = json!({"next": 1}), 2 => f["attachments"] = json!([]), 3 => f["attachments"] = json!([{"data": {"base64": "AA"}}]), 4 => f["typ"] = json!("x"), _ => {} }
                    f.to_string() } };
        }
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(Message::unpack(&t, &dids, &st, &o))));
        let inp = json!({"message": t, "docs": serde_json::to_value(&dids.docs).unwrap(), "broken": dids.broken, "found": st.lists, "secrets": serde_json::to_value(&st.secrets).unwrap(), "find fails": st.broken_find, "get fails": st.broken_get, "all keys": o.expect_decrypt_by_all_keys, "unwrap": o.unwrap_re_wrapping_forward});
        ctx.case("unpack", inp, matches!(got, Ok(Ok(_))), || {
            let got = got.map_err(|_| "panic".to_string())?;
            let w = World { ps: vec![&b, &a], dids: &dids, st: &st, o: &o };
            match w.unpack(&t) {
                Err(k) => match got { Ok((_, m)) => Err(format!("accepted as {:?}, not refused as {:?}", m, k)), Err(e) => { vcheck!(k.is_none() || k == Some(e.kind()), "{:?} instead of {:?}: {}", e.kind(), k, e); Ok(()) } },
                Ok((v, m)) => {
                    let (x, n) = got.map_err(|e| format!("refused: {:?} {}", e.kind(), e))?;
                    vcheck!(serde_json::to_value(&x).map_err(|e| e.to_string())? == v, "message {:?}", x);
                    vcheck!(n == m, "metadata {:?}, not {:?}", n, m); Ok(())
                }
            }
        });
    }
}
const A: Layer = Layer::Anon; const U: Layer = Layer::Auth; const S: Layer = Layer::Sign; const F: Layer = Layer::Fwd;
fn about(ctx: &mut Ctx) {
    ctx.rule = "envelopes made independently around a message, in every sound order of layers and some others, most with one layer tampered with; unpacked with stores that know some of the secrets, and compared with an independent unpacking; non-trivial: it was unpacked".into();
    ctx.bound = "two DIDs of up to five keys (now and then forty), messages of up to about 1 MB, up to seven layers, all key kinds, representations and content encryptions".into();
}
pub fn c03(ctx: &mut Ctx) { about(ctx); run(ctx, 1500, &[&[U], &[U], &[A, U], &[U, S], &[A, F, A, U]], 6) }
pub fn c04(ctx: &mut Ctx) { about(ctx); run(ctx, 2000, &[&[S], &[S], &[A, S], &[U, S], &[S, S]], 6) }
pub fn c05(ctx: &mut Ctx) { about(ctx); run(ctx, 1300, &[&[], &[S], &[A], &[U], &[A, U], &[U, S], &[A, S], &[A, U, S], &[A, F, A], &[A, F, U], &[A, F, S], &[A, F, A, U, S], &[A, F, A, F, A, U], &[F], &[A, F, A, F, A, F]], 2) }
