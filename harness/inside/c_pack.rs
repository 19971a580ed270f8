use super::base::*;
use super::c_crypt::*;
use super::world::*;
use crate::algorithms::AuthCryptAlg;
use crate::did::VerificationMethodType;
use crate::error::ErrorKind;
use crate::message::{Message, PackEncryptedOptions};
use crate::secrets::{SecretMaterial, SecretType};
use serde_json::{json, Value};

type R<T> = Result<T, Option<ErrorKind>>;
fn bad<T>(k: ErrorKind) -> R<T> { Err(Some(k)) }
fn did_of(kid: &str) -> &str { kid.split('#').next().unwrap() }
fn is_bare(s: &str) -> bool { s.starts_with("did:") && s.matches(':').count() >= 2 && !s.contains('#') }
struct World<'a> { ps: Vec<&'a Party>, dids: &'a Dids, st: &'a Store }
impl<'a> World<'a> {
    fn look(&self, did: &str) -> R<crate::did::DIDDoc> { if self.dids.broken.iter().any(|b| b == did) { return bad(ErrorKind::IoError) } match self.dids.docs.iter().find(|d| d.id == did) { Some(d) => Ok(d.clone()), None => bad(ErrorKind::DIDNotResolved) } }
    fn plaintext(&self, m: &Message) -> R<Value> {
        if let Some(j) = &m.from_prior {
            let p: Vec<&str> = j.split('.').collect(); if p.len() != 3 { return bad(ErrorKind::Malformed) }
            let h: Value = serde_json::from_slice(&unb64(p[0]).unwrap()).unwrap(); let b: Value = serde_json::from_slice(&unb64(p[1]).unwrap()).unwrap();
            let kid = h["kid"].as_str().unwrap(); if !kid.contains('#') { return bad(ErrorKind::Malformed) } let d = self.look(did_of(kid))?;
            if !d.authentication.iter().any(|a| a == kid) { return bad(ErrorKind::DIDUrlNotFound) }
            let vm = match method(&d, kid) { None => return bad(ErrorKind::DIDUrlNotFound), Some(v) => v };
            let k = self.ps.iter().find_map(|p| key_of(p, vm)).ok_or(None)?;
            if kind_of(vm) != Some(k.kind) || k.alg() != h["alg"].as_str().unwrap() { return Err(None) }
            if !k.verify(format!("{}.{}", p[0], p[1]).as_bytes(), &unb64(p[2]).unwrap()) || b["iss"] != did_of(kid) { return bad(ErrorKind::Malformed) }
            let (iss, sub) = (b["iss"].as_str().unwrap(), b["sub"].as_str().unwrap());
            if !is_bare(iss) || !is_bare(sub) || iss == sub || m.from.as_deref().map_or(false, |f| f != sub) { return bad(ErrorKind::Malformed) }
        }
        Ok(serde_json::to_value(m).unwrap())
    }
    /// the key that signs, and the message
    fn signer(&self, by: &str) -> R<(String, Key)> {
        if !(by.starts_with("did:") && by.matches(':').count() >= 2) { return bad(ErrorKind::IllegalArgument) }
        let d = self.look(did_of(by))?;
        let cands: Vec<String> = if by.contains('#') { if !d.authentication.iter().any(|a| a == by) { return bad(ErrorKind::DIDUrlNotFound) } vec![by.into()] } else { d.authentication.clone() };
        if self.st.broken_find { return bad(ErrorKind::IllegalArgument) }
        let kid = match cands.iter().find(|k| self.st.lists.contains(k)) { None => return bad(ErrorKind::SecretNotFound), Some(k) => k.clone() };
        if self.st.broken_get { return bad(ErrorKind::IoError) }
        let s = match self.st.secrets.iter().find(|s| s.id == kid) { None => return bad(ErrorKind::SecretNotFound), Some(s) => s };
        if let SecretType::Other = s.type_ { return bad(ErrorKind::Unsupported) }
        Ok((kid, self.ps.iter().find_map(|p| secret_key(p, s)).cloned().ok_or(None)?))
    }
    fn signed(&self, m: &Message, by: &str) -> R<(String, Key, Value)> {
        let (kid, k) = self.signer(by)?; let v = self.plaintext(m)?;
        if k.kind == Kind::X { return bad(ErrorKind::Unsupported) } Ok((kid, k, v))
    }
}
/// the JWS is of this message, by this key, and says so
fn check_jws(text: &str, kid: &str, k: &Key, want: &Value) -> Result<(), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?; let s = v["signatures"].as_array().ok_or("signatures")?;
    vcheck!(s.len() == 1 && s[0]["header"] == json!({"kid": kid}), "signatures {:?}", s);
    let (p, pl, sig) = (s[0]["protected"].as_str().ok_or("protected")?, v["payload"].as_str().ok_or("payload")?, s[0]["signature"].as_str().ok_or("signature")?);
    let h: Value = serde_json::from_slice(&unb64(p)?).map_err(|e| e.to_string())?;
    vcheck!(h == json!({"typ": "application/didcomm-signed+json", "alg": k.alg()}), "header {}", h);
    vcheck!(k.verify(format!("{}.{}", p, pl).as_bytes(), &unb64(sig)?), "signature does not verify");
    let b: Value = serde_json::from_slice(&unb64(pl)?).map_err(|e| e.to_string())?; vcheck!(b == *want, "payload {}", b); Ok(())
}
fn refusal<T>(got: Result<T, crate::error::Error>, k: Option<ErrorKind>) -> Result<(), String> { match got { Ok(_) => Err(format!("packed, not refused as {:?}", k)), Err(e) => { vcheck!(k.is_none() || k == Some(e.kind()), "{:?} instead of {:?}: {}", e.kind(), k, e); Ok(()) } } }
pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "messages with and without a claim, packed plain, signed and encrypted from generated documents and stores, and taken apart independently down to the message; non-trivial: it was packed".into();
    ctx.bound = "up to five keys per party, all key kinds and representations, one mediator key".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(1500) {
        let few = r.below(6); let kinds: &[Kind] = match few { 0 | 1 | 2 => &[Kind::X, Kind::Ed], 3 => &[Kind::P, Kind::Ed], 4 => &[Kind::P], _ => &[Kind::X, Kind::P, Kind::Ed, Kind::K] };
        let a = { let mut p = party(&mut r, "did:a:alice", kinds, 5); for (id, k) in p.keys.clone() { if k.kind != Kind::X || r.chance(1, 8) { if !r.chance(1, 12) && !p.doc.authentication.contains(&id) { p.doc.authentication.push(id) } } } if r.chance(1, 4) { r.shuffle(&mut p.doc.authentication) } p };
        let mut b = party(&mut r, "did:b:bob", match few { 0 | 1 | 2 => &[Kind::X], 3 | 4 => &[Kind::P], _ => &[Kind::X, Kind::P] }, 3);
        let med = Key::gen(&mut r, Kind::X); let mut md = doc("did:m:med"); md.key_agreement.push("did:m:med#k".into()); md.verification_method.push(med.vm("did:m:med#k", 0));
        let routed = r.chance(1, 3); if routed { b.doc.service.push(didcomm_service("did:b:bob#s", "https://there", None, vec!["did:m:med#k".into()])) }
        let mut dids = Dids::new(vec![a.doc.clone(), b.doc.clone(), md]);
        match r.below(30) { 0 => dids.broken.push("did:a:alice".into()), 1 => dids.broken.push("did:b:bob".into()), _ => {} }
        let mut secrets = vec![]; for (id, k) in a.keys.iter() { if r.chance(4, 5) { let f = r.below(3); secrets.push(k.secret(id, f)) } }
        if r.chance(1, 20) { if let Some(s) = secrets.first_mut() { if r.flip() { s.type_ = SecretType::Other } else { s.secret_material = SecretMaterial::JWK { private_key_jwk: json!({}) } } } }
        if r.chance(1, 4) { r.shuffle(&mut secrets) }
        let lists: Vec<String> = secrets.iter().map(|s| s.id.clone()).collect();
        if r.chance(1, 40) { secrets.clear() }
        let st = Store { lists, secrets, broken_find: r.chance(1, 50), broken_get: r.chance(1, 50) };
        let mut m = Message::build(r.text(), r.text(), any_json(&mut r, 2)).finalize();
        match r.below(6) { 0 => m.from = Some("did:a:alice".into()), 1 | 2 => m.from = Some("did:a:new".into()), 3 => { let t = *r.pick(&["did:a:alice", "did:a:new", "did:a:new"]); m.from = Some(r.near(t)) } _ => {} }
        if r.chance(1, 3) { let mut t = vec!["did:b:bob".to_string()]; if r.chance(1, 4) { t[0] = r.near("did:b:bob") } if r.chance(1, 4) { let i = r.below(2); t.insert(i, "did:c:c".into()) } m.to = Some(t) } if r.chance(1, 4) { m.thid = Some(r.text()) } if r.chance(1, 4) { let k = format!("x-{}", r.ident()); let v = any_json(&mut r, 1); m.extra_headers.insert(k, v); }
        if r.chance(1, 3) {
            let own: Vec<&(String, Key)> = a.keys.iter().filter(|k| k.1.kind != Kind::X).collect();
            if !own.is_empty() { let (kid, k) = *r.pick(&own);
                let iss = if r.chance(1, 8) { "did:b:bob" } else { "did:a:alice" }; let sub = match r.below(14) { 0 => "did:a:alice", 1 => "did:a", 2 => "did:a:new#1", _ => "did:a:new" };
                let t = format!("{}.{}", b64(json!({"typ": "JWT", "alg": k.alg(), "kid": kid}).to_string().as_bytes()), b64(json!({"iss": iss, "sub": sub}).to_string().as_bytes()));
                let mut s = k.sign(t.as_bytes()); if r.chance(1, 10) { s[0] ^= 1 } m.from_prior = Some(if r.chance(1, 20) { t } else { format!("{}.{}", t, b64(&s)) });
                // the sender is the one the claim speaks of, or nearly
                if r.flip() { m.from = Some(match r.below(5) { 0 => format!("{}#{}", sub, r.ident()), 1 => r.near(sub), _ => sub.to_string() }) } }
        }
        let by = match r.below(9) { 0 => "did:c:gone".to_string(), 1 => "did:a:alice#gone".into(), 2 => "alice".into(), 3 | 4 if !a.keys.is_empty() => r.pick(&a.keys).0.clone(), 5 => "did:a:alice#k0x".into(), _ => "did:a:alice".into() };
        let by = if r.chance(1, 12) { r.near(&by) } else { by };
        let by = if r.chance(1, 2) { Some(by) } else { None };
        let from = match r.below(5) { 0 | 1 => None, 2 if !a.keys.is_empty() => Some(r.pick(&a.keys).0.clone()), _ => Some("did:a:alice".to_string()) };
        let to = if r.chance(1, 5) && !b.keys.is_empty() { r.pick(&b.keys).0.clone() } else { "did:b:bob".to_string() };
        let to = if r.chance(1, 12) { r.near(&to) } else { to }; let from = from.map(|f| if r.chance(1, 15) { r.near(&f) } else { f });
        let base = json!({"message": serde_json::to_value(&m).unwrap(), "docs": serde_json::to_value(&dids.docs).unwrap(), "broken": dids.broken, "found": st.lists, "secrets": serde_json::to_value(&st.secrets).unwrap(), "find fails": st.broken_find, "get fails": st.broken_get});
        let w = World { ps: vec![&b, &a], dids: &dids, st: &st };
        if r.chance(1, 3) {
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(m.pack_plaintext(&dids))));
            ctx.case("plaintext", base.clone(), matches!(got, Ok(Ok(_))), || { let got = got.map_err(|_| "panic".to_string())?;
                match w.plaintext(&m) { Err(k) => refusal(got, k), Ok(v) => { let t = got.map_err(|e| format!("refused: {:?} {}", e.kind(), e))?; let x: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?; vcheck!(x == v, "plaintext {}", t); Ok(()) } } });
        }
        if let Some(by) = &by {
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(m.pack_signed(by, &dids, &st))));
            let mut inp = base.clone(); inp["sign_by"] = json!(by);
            ctx.case("signed", inp, matches!(got, Ok(Ok(_))), || { let got = got.map_err(|_| "panic".to_string())?;
                match w.signed(&m, by) { Err(k) => refusal(got, k), Ok((kid, k, v)) => { let (t, meta) = got.map_err(|e| format!("refused: {:?} {}", e.kind(), e))?; vcheck!(meta.sign_by_kid == kid, "names {}, not {}", meta.sign_by_kid, kid); check_jws(&t, &kid, &k, &v) } } });
        }
        let anon = some_anon(&mut r); let cover = r.flip(); let forward = r.chance(3, 4);
        let o = PackEncryptedOptions { protect_sender: cover, forward, forward_headers: None, messaging_service: if r.chance(1, 12) { Some(if r.flip() { "did:b:bob#s".into() } else { "#s".into() }) } else { None }, enc_alg_auth: AuthCryptAlg::default(), enc_alg_anon: anon.clone() };
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(m.pack_encrypted(&to, from.as_deref(), by.as_deref(), &dids, &st, &o))));
        let mut inp = base; inp["to"] = json!(to); inp["from"] = json!(from); inp["sign_by"] = json!(by); inp["protect_sender"] = json!(cover); inp["enc"] = json!(anon_name(&anon)); inp["forward"] = json!(forward); inp["service"] = json!(o.messaging_service);
        ctx.case("encrypted", inp, matches!(got, Ok(Ok(_))), || {
            let got = got.map_err(|_| "panic".to_string())?; let ps = [&b, &a];
            if !did_like(&to) || ![&by, &from].iter().all(|x| x.as_deref().map_or(true, did_like)) || m.to.as_ref().map_or(false, |t| !t.iter().any(|x| x == did_of(&to))) { return refusal(got, Some(ErrorKind::IllegalArgument)) }
            if let (Some(f), Some(mf)) = (&from, &m.from) { if did_of(f) != mf { return refusal(got, Some(ErrorKind::IllegalArgument)) } }
            let (signer, want) = match &by { None => match w.plaintext(&m) { Ok(v) => (None, v), Err(k) => return refusal(got, k) }, Some(by) => match w.signed(&m, by) { Ok((kid, k, v)) => (Some((kid, k)), v), Err(k) => return refusal(got, k) } };
            let (vms, own) = match wanted(&ps, &dids, &st, &to, from.as_deref()) { Want::Err(k) => return refusal(got, k), Want::To(v, o) => (v, o) };
            // the recipient's document is that of its DID, or of another party's key id
            let svc = dids.docs.iter().find(|d| d.id == did_of(&to)).map_or(false, |d| !d.service.is_empty());
            let via = if !forward { false } else { match &o.messaging_service { None => svc, Some(id) => if svc && id == "did:b:bob#s" { true } else { return refusal(got, Some(ErrorKind::IllegalArgument)) } } };
            let (mut out, meta) = got.map_err(|e| format!("refused: {:?} {}", e.kind(), e))?;
            let ids: Vec<String> = vms.iter().map(|v| v.id.clone()).collect();
            vcheck!(meta.to_kids == ids && meta.from_kid == own.as_ref().map(|b| b.0.clone()) && meta.sign_by_kid == signer.as_ref().map(|s| s.0.clone()), "metadata {:?}", meta);
            vcheck!(meta.messaging_service.as_ref().map(|s| (s.id.as_str(), s.service_endpoint.as_str())) == if via { Some(("did:b:bob#s", "https://there")) } else { None }, "service {:?}", meta.messaging_service);
            if via { let x = open_jwe(&out, "did:m:med#k", &med, None)?; let f: Value = serde_json::from_slice(&x.text).map_err(|e| e.to_string())?; vcheck!(f["body"] == json!({"next": to}), "forward to {}", f["body"]); out = f["attachments"][0]["data"]["json"].to_string(); }
            let inner = match own {
                None => open_for(&ps, &out, &vms, None, anon_name(&anon))?,
                Some((kid, s)) => { let k = ps.iter().find_map(|p| secret_key(p, &s)).ok_or("no secret")?;
                    let mid = if cover { String::from_utf8(open_for(&ps, &out, &vms, None, anon_name(&anon))?).map_err(|e| e.to_string())? } else { out };
                    open_for(&ps, &mid, &vms, Some((&kid, k)), "A256CBC-HS512")? }
            };
            let inner = String::from_utf8(inner).map_err(|e| e.to_string())?;
            match signer { Some((kid, k)) => check_jws(&inner, &kid, &k, &want), None => { let v: Value = serde_json::from_str(&inner).map_err(|e| e.to_string())?; vcheck!(v == want, "inside {}", v); Ok(()) } }
        });
    }
}
