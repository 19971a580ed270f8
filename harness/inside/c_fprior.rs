use super::base::*;
use super::world::*;
use crate::error::ErrorKind;
use crate::message::FromPrior;
use crate::did::{VerificationMaterial, VerificationMethodType};
use crate::secrets::{SecretMaterial, SecretType};
use serde_json::{json, Value};

fn claims_json(c: &FromPrior) -> Value {
    let mut m = serde_json::Map::new(); m.insert("iss".into(), json!(c.iss)); m.insert("sub".into(), json!(c.sub));
    for (k, v) in [("aud", &c.aud), ("jti", &c.jti)] { if let Some(v) = v { m.insert(k.into(), json!(v)); } }
    for (k, v) in [("exp", c.exp), ("nbf", c.nbf), ("iat", c.iat)] { if let Some(v) = v { m.insert(k.into(), json!(v)); } }
    Value::Object(m)
}
fn some_claims(r: &mut Rng, iss: &str, sub: &str) -> FromPrior {
    let mut c = FromPrior { iss: iss.into(), sub: sub.into(), aud: None, exp: None, nbf: None, iat: None, jti: None };
    if r.flip() { c.aud = Some(r.text()) } if r.flip() { c.jti = Some(r.text()) }
    if r.flip() { c.exp = Some(r.next()) } if r.flip() { c.nbf = Some(r.next()) } if r.flip() { c.iat = Some(r.next()) } c
}
fn is_bare(s: &str) -> bool { let p: Vec<&str> = s.split(':').collect(); p.len() >= 3 && p[0] == "did" && !s.contains('#') }
/// one issuer: its document, the keys in it by id, and the ids in the order of the authentication section
struct Issuer { doc: crate::did::DIDDoc, keys: Vec<(String, Key)> }
fn issuer(r: &mut Rng, did: &str) -> Issuer {
    let mut d = doc(did); let mut keys = vec![];
    for i in 0..1 + r.below(4) {
        let id = format!("{}#{}", if r.chance(1, 12) { "did:a:other" } else { did }, if i > 0 && r.chance(1, 4) { "k0x".into() } else { format!("k{}", i) });
        let id = if i > 0 && r.chance(1, 5) { let (k, _): &(String, Key) = &keys[i - 1]; r.near(k) } else { id };
        let kind = *r.pick(&[Kind::Ed, Kind::Ed, Kind::P, Kind::K, Kind::X]); let k = Key::gen(r, kind); let f = r.below(3);
        if !r.chance(1, 12) { d.verification_method.push(k.vm(&id, f)); }
        match r.below(6) { 0 => d.key_agreement.push(id.clone()), 1 => {} _ => d.authentication.push(id.clone()) }
        keys.push((id, k));
    }
    if r.chance(1, 10) { d.authentication.push(format!("{}#nowhere", did)) }
    if r.chance(1, 4) { r.shuffle(&mut d.authentication) }
    if r.chance(1, 4) { r.shuffle(&mut d.verification_method) }
    if r.chance(1, 12) { let n = d.verification_method.len(); if n > 0 { let i = r.below(n); if r.flip() { d.verification_method[i].verification_material = VerificationMaterial::JWK { public_key_jwk: json!({"kty": "OKP"}) } } else { d.verification_method[i].type_ = VerificationMethodType::Other } } }
    Issuer { doc: d, keys }
}
fn world(r: &mut Rng) -> (Vec<Issuer>, Dids) {
    let is: Vec<Issuer> = ["did:a:one", "did:a:two", "did:a:other"].iter().map(|d| issuer(r, d)).collect();
    let mut dids = Dids::new(is.iter().map(|i| i.doc.clone()).collect());
    if r.chance(1, 20) { dids.broken.push("did:a:one".into()) }
    (is, dids)
}
fn good_key(i: &Issuer, kid: &str) -> Option<Key> {
    let vm = i.doc.verification_method.iter().find(|v| v.id == kid)?;
    let k = i.keys.iter().map(|k| &k.1).find(|k| (0..3).any(|f| { let w = k.vm(kid, f); serde_json::to_value(&w).unwrap() == serde_json::to_value(vm).unwrap() }))?;
    Some(k.clone())
}
pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "three generated issuers with shuffled, missing, duplicated and unusable keys; claims packed and the JWT taken apart independently; JWT made independently, with every header and body member tampered with; non-trivial: a JWT was made or the JWT is well formed".into();
    ctx.bound = "three DIDs, up to four keys each, all key kinds and representations".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(1000) {
        let (is, dids) = world(&mut r); let odd = r.flip(); // every second one has nothing wrong with it by design
        let odd = |r: &mut Rng, n: usize| { let x = r.below(n); if odd { x } else { 99 } };
        let mut secrets = vec![]; for i in &is { for (id, k) in &i.keys { if r.chance(3, 4) { let f = r.below(3); secrets.push(k.secret(id, f)) } } }
        if r.chance(1, 15) { if let Some(s) = secrets.first_mut() { if r.flip() { s.type_ = SecretType::Other } else { s.secret_material = SecretMaterial::JWK { private_key_jwk: json!({}) } } } }
        if r.chance(1, 4) { r.shuffle(&mut secrets) }
        let sr = Keys { secrets, broken: r.chance(1, 40) };
        let iss = match odd(&mut r, 16) { 6 => r.near("did:a:one"), 0 => "did:a".to_string(), 1 => "did:a:one#k0".into(), 2 => "".into(), 3 => "did:a:gone".into(), 4 => "did:a:two".into(), 5 => "xdid:a:one".into(), _ => "did:a:one".into() };
        let sub = match odd(&mut r, 14) { 12 | 13 => r.near(&iss), 0 => iss.clone(), 1 => "did:a:two#k".into(), 2 => "two".into(), 3 => "".into(), _ => "did:b:new:x".into() };
        let ids: Vec<String> = is.iter().flat_map(|i| i.keys.iter().map(|k| k.0.clone())).collect();
        let kid = match odd(&mut r, 11) { 10 => { let t = r.pick(&is[0].keys).0.clone(); Some(r.near(&t)) } 0 | 1 | 2 => None, 3 => Some("did:a:one".to_string()), 4 => Some("did:a:one#gone".into()), 5 => Some(r.pick(&ids).clone()), 6 => Some(r.text()), 7 => Some(format!("did:a:one#k0{}", r.pick(&["", " ", "x", "#"]))), 99 if r.flip() => None, _ => Some(r.pick(&is[0].keys).0.clone()) };
        let c = some_claims(&mut r, &iss, &sub);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(c.pack(kid.as_deref(), &dids, &sr))));
        let inp = json!({"claims": claims_json(&c), "kid": kid, "docs": serde_json::to_value(&dids.docs).unwrap(), "broken": dids.broken, "secrets": serde_json::to_value(&sr.secrets).unwrap(), "store": !sr.broken});
        ctx.case("pack", inp, matches!(got, Ok(Ok(_))), || {
            let got = got.map_err(|_| "panic".to_string())?;
            let want = |k: ErrorKind| -> Result<(), String> { match &got { Err(e) if e.kind() == k => Ok(()), Err(e) => Err(format!("{:?} instead of {:?}", e.kind(), k)), Ok(x) => Err(format!("packed {:?}, not {:?}", x, k)) } };
            if !is_bare(&iss) || !is_bare(&sub) || iss == sub { return want(ErrorKind::Malformed) }
            if let Some(k) = &kid { if !k.contains('#') || k.split('#').next() != Some(iss.as_str()) { return want(ErrorKind::IllegalArgument) } }
            if dids.broken.contains(&iss) { return want(ErrorKind::IoError) }
            let i = match is.iter().find(|i| i.doc.id == iss) { None => return want(ErrorKind::DIDNotResolved), Some(i) => i };
            let cands: Vec<String> = match &kid { None => i.doc.authentication.clone(), Some(k) => if i.doc.authentication.contains(k) { vec![k.clone()] } else { return want(ErrorKind::DIDUrlNotFound) } };
            if sr.broken { return want(ErrorKind::IoError) }
            let by = match cands.iter().find(|k| sr.secrets.iter().any(|s| s.id == **k)) { None => return want(ErrorKind::SecretNotFound), Some(k) => k.clone() };
            let sec = sr.secrets.iter().find(|s| s.id == by).unwrap();
            let keys: Vec<&Key> = is.iter().flat_map(|i| i.keys.iter()).filter(|k| k.0 == by).map(|k| &k.1).collect();
            let key = keys.iter().find(|k| (0..3).any(|f| { let w = k.secret(&by, f); serde_json::to_value(&w).unwrap() == serde_json::to_value(sec).unwrap() }));
            let key = match key { None => { vcheck!(got.is_err(), "signed with an unusable secret"); return Ok(()) } Some(k) if k.kind == Kind::X => return want(ErrorKind::Unsupported), Some(k) => k };
            let (jwt, named) = got.map_err(|e| format!("refused: {}", e))?;
            vcheck!(named == by, "names {}, not {}", named, by);
            let p: Vec<&str> = jwt.split('.').collect(); vcheck!(p.len() == 3, "parts {}", jwt);
            let h: Value = serde_json::from_slice(&unb64(p[0])?).map_err(|e| e.to_string())?;
            vcheck!(h == json!({"typ": "JWT", "alg": key.alg(), "kid": by}), "header {}", h);
            let b: Value = serde_json::from_slice(&unb64(p[1])?).map_err(|e| e.to_string())?;
            vcheck!(b == claims_json(&c), "claims {}", b);
            vcheck!(key.verify(format!("{}.{}", p[0], p[1]).as_bytes(), &unb64(p[2])?), "signature");
            // and back
            if let Some(k) = good_key(i, &by) { if k.public == key.public && by.split('#').next() == Some(iss.as_str()) {
                match block_on(FromPrior::unpack(&jwt, &dids)) { Ok((d, k)) => vcheck!(d == c && k == by, "came back as {:?} by {}", d, k), Err(e) => return Err(format!("own JWT refused: {}", e)) } } }
            Ok(())
        });
    }
    for _ in 0..ctx.n(1400) {
        let (is, dids) = world(&mut r); let odd = r.below(3);
        // every third one has nothing wrong with it by design, every third about one thing
        let odd = |r: &mut Rng, n: usize| { let x = r.below(n); match odd { 0 => 99, 1 => x, _ => if r.chance(1, 4) { x } else { 99 } } };
        let a = match odd(&mut r, 10) { 0 => 1, 1 => 2, _ => 0 }; let i = &is[a];
        let (mut kid, key) = r.pick(&i.keys).clone();
        let iss = match odd(&mut r, 8) { 0 => is[r.below(3)].doc.id.clone(), 1 => format!("{}x", i.doc.id), 2 => i.doc.id[..7].to_string(), _ => kid.split('#').next().unwrap().to_string() };
        let c = some_claims(&mut r, &iss, "did:b:new");
        let signer = if odd(&mut r, 8) == 0 { is[r.below(3)].keys[0].1.clone() } else { key.clone() };
        match odd(&mut r, 15) { 14 => kid = r.near(&kid), 0 => kid = kid.split('#').next().unwrap().to_string(), 1 => kid = format!("{}x", kid), 2 => kid = is[r.below(3)].keys[0].0.clone(), 3 => kid = format!("did:a:gone#k0"), 4 => kid = format!("#{}", kid), _ => {} }
        let typ = match odd(&mut r, 14) { 0 => "jwt", 1 => "", 2 => "JWTS", _ => "JWT" };
        let alg = match odd(&mut r, 10) { 0 => "none", 1 => "HS256", 2 => "EdDSA", 3 => "ES256", 4 => "ES256K", _ => signer.alg() };
        let h = json!({"typ": typ, "alg": alg, "kid": kid});
        let mut body = claims_json(&c); let mut text = None;
        match odd(&mut r, 16) { 0 => { body["iss"] = json!(1) } 1 => { body.as_object_mut().unwrap().remove("sub"); } 2 => { body["more"] = json!([1]) } 3 => text = Some(vec![0x7b, 0xff, 0x7d]), 4 => text = Some(r.text().into_bytes()), 5 => { body["exp"] = json!("soon") } _ => {} }
        let text = text.unwrap_or_else(|| body.to_string().into_bytes());
        let p0 = b64(h.to_string().as_bytes()); let mut p1 = b64(&text); let mut s = signer.sign(format!("{}.{}", p0, p1).as_bytes());
        match odd(&mut r, 14) { 0 => { let mut b2 = body.clone(); b2["sub"] = json!("did:b:evil"); p1 = b64(b2.to_string().as_bytes()) } 1 => { let n = s.len(); if n > 0 { let j = r.below(n); s[j] ^= 1 << r.below(8) } } 2 => { s.pop(); } 3 => s = vec![], 4 => p1 = p1.replace('J', "!"), _ => {} }
        let mut blank = false; let jwt = match odd(&mut r, 20) { 0 => format!("{}.{}", p0, p1), 1 => format!("{}.{}.{}.", p0, p1, b64(&s)), 2 => { blank = true; format!("{}.{}.{}{}", p0, p1, b64(&s), r.pick(&["\n", " ", "\r\n"])) } 3 => { blank = true; format!("{}{}.{}.{}", r.pick(&["\n", " "]), p0, p1, b64(&s)) } _ => format!("{}.{}.{}", p0, p1, b64(&s)) };
        let good = good_key(i, &kid);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(FromPrior::unpack(&jwt, &dids))));
        ctx.case("unpack", json!({"jwt": jwt, "header": h, "body": body, "docs": serde_json::to_value(&dids.docs).unwrap(), "broken": dids.broken}), got.as_ref().map_or(true, |g| g.is_ok()), || {
            let got = got.map_err(|_| "panic".to_string())?;
            let want = |k: &[ErrorKind]| -> Result<(), String> { match &got { Err(e) if k.contains(&e.kind()) => Ok(()), Err(e) => Err(format!("{:?} instead of {:?}", e.kind(), k)), Ok(x) => Err(format!("accepted {:?}, not {:?}", x, k)) } };
            let refused = || -> Result<(), String> { match &got { Err(_) => Ok(()), Ok(x) => Err(format!("accepted {:?}", x)) } };
            if blank { return refused() }
            if jwt.split('.').count() != 3 { return want(&[ErrorKind::Malformed]) }
            if typ != "JWT" || !kid.contains('#') { return want(&[ErrorKind::Malformed]) }
            let did = kid.split('#').next().unwrap();
            if dids.broken.iter().any(|b| b == did) { return want(&[ErrorKind::IoError]) }
            let d = match is.iter().find(|i| i.doc.id == did) { None => return want(&[ErrorKind::DIDNotResolved]), Some(i) => i };
            if !d.doc.authentication.contains(&kid) || !d.doc.verification_method.iter().any(|v| v.id == kid) { return want(&[ErrorKind::DIDUrlNotFound]) }
            if !["EdDSA", "ES256", "ES256K"].contains(&alg) { return want(&[ErrorKind::Unsupported]) }
            let k = match good_key(d, &kid) { None => return refused(), Some(k) => k };
            if k.alg() != alg { return refused() }
            if !k.verify(format!("{}.{}", p0, p1).as_bytes(), &s) { return want(&[ErrorKind::Malformed]) }
            let b: Option<Value> = unb64(&p1).ok().and_then(|b| serde_json::from_slice(&b).ok());
            let ok = match &b { Some(v) => v["iss"].is_string() && v["sub"].is_string() && v.get("exp").map_or(true, |e| e.is_u64()), None => false };
            if !ok { return match &b { Some(Value::Array(_)) => Ok(()), _ => want(&[ErrorKind::Malformed]) } }
            if c.iss != did { return want(&[ErrorKind::Malformed]) }
            let (c2, k2) = got.map_err(|e| format!("refused: {}", e))?;
            vcheck!(c2 == c, "claims {:?}", c2); vcheck!(k2 == kid, "key id {}", k2);
            Ok(())
        });
    }
}
