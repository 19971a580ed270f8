use super::base::*;
use super::world::*;
use crate::error::ErrorKind;
use crate::jws::{self, Algorithm};
use askar_crypto::{alg::{ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair}, jwk::FromJwk, repr::KeySecretBytes};
use serde_json::{json, Value};

fn alg_of(s: &str) -> Algorithm { match s { "EdDSA" => Algorithm::EdDSA, "ES256" => Algorithm::Es256, "ES256K" => Algorithm::Es256K, x => Algorithm::Other(x.into()) } }
fn sign(p: &[u8], kid: &str, k: &Key, alg: &str) -> crate::error::Result<String> { match k.kind {
    Kind::Ed => jws::sign(p, (kid, &Ed25519KeyPair::from_secret_bytes(&k.secret).unwrap()), alg_of(alg)),
    Kind::P => jws::sign(p, (kid, &P256KeyPair::from_secret_bytes(&k.secret).unwrap()), alg_of(alg)),
    _ => jws::sign(p, (kid, &K256KeyPair::from_secret_bytes(&k.secret).unwrap()), alg_of(alg)) } }
fn sign_compact(p: &[u8], kid: &str, k: &Key, typ: &str, alg: &str) -> crate::error::Result<String> { match k.kind {
    Kind::Ed => jws::sign_compact(p, (kid, &Ed25519KeyPair::from_secret_bytes(&k.secret).unwrap()), typ, alg_of(alg)),
    Kind::P => jws::sign_compact(p, (kid, &P256KeyPair::from_secret_bytes(&k.secret).unwrap()), typ, alg_of(alg)),
    _ => jws::sign_compact(p, (kid, &K256KeyPair::from_secret_bytes(&k.secret).unwrap()), typ, alg_of(alg)) } }
fn verify(p: &jws::ParsedJWS, kid: &str, k: &Key) -> crate::error::Result<bool> { let j = k.jwk_pub.to_string(); match k.kind {
    Kind::Ed => p.verify((kid, &Ed25519KeyPair::from_jwk(&j).unwrap())), Kind::P => p.verify((kid, &P256KeyPair::from_jwk(&j).unwrap())), _ => p.verify((kid, &K256KeyPair::from_jwk(&j).unwrap())) } }
fn verify_compact(p: &jws::ParsedCompactJWS, k: &Key) -> crate::error::Result<bool> { let j = k.jwk_pub.to_string(); match k.kind {
    Kind::Ed => p.verify(&Ed25519KeyPair::from_jwk(&j).unwrap()), Kind::P => p.verify(&P256KeyPair::from_jwk(&j).unwrap()), _ => p.verify(&K256KeyPair::from_jwk(&j).unwrap()) } }
/// what verifying must say: Some(verdict), or None for an error
fn verdict(k: &Key, alg: &str, input: &str, sig: &str) -> Option<bool> {
    if !["EdDSA", "ES256", "ES256K"].contains(&alg) { return None }
    let s = unb64(sig).ok()?; if alg != k.alg() { return None }
    Some(k.verify(input.as_bytes(), &s))
}
fn spoil(r: &mut Rng, s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); match r.below(11) {
    // the alphabet of other decoders
    8 | 9 => for x in c.iter_mut() { *x = match *x { '-' => '+', '_' => '/', y => y } }, 10 => { let i = if r.flip() { 0 } else { c.len() }; c.insert(i, *r.pick(&['=', '\u{feff}', '+', '/', '~'])) }
    6 => c.push(' '), 7 => { let i = r.below(c.len() + 1); c.insert(i, *r.pick(&[' ', '.', '/'])) }
    0 => { c.pop(); } 1 => c.push('A'), 2 => c.push('='), 3 => c.push('!'), 4 if !c.is_empty() => { let i = r.below(c.len()); c[i] = *r.pick(&['A', 'B', 'z', '-', '_', '+']); } _ => {} } c.into_iter().collect() }

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "JWS made by the library, taken apart independently; JWS made independently and then tampered with, with several signatures and repeated key ids; compact texts of any number of parts; non-trivial: the text has the right shape".into();
    ctx.bound = "all three signature keys, payloads up to 12 characters or 40 bytes, up to four signatures".into();
    let mut r = Rng::new(ctx.seed);
    let kinds = [Kind::Ed, Kind::P, Kind::K];
    for _ in 0..ctx.n(600) {
        let kind = *r.pick(&kinds); let k = Key::gen(&mut r, kind);
        let payload = if r.flip() { r.text().into_bytes() } else { let n = r.below(40); r.bytes(n) };
        let kid = if r.flip() { r.text() } else { format!("did:a:{}#{}", r.ident(), r.ident()) };
        let alg = if r.chance(1, 8) { r.pick(&["none", "EdDSa", "HS256", ""]).to_string() } else { k.alg().to_string() };
        let typ = if r.flip() { "JWT".to_string() } else { r.text() };
        let known = ["EdDSA", "ES256", "ES256K"].contains(&alg.as_str());
        let inp = json!({"payload": payload, "kid": kid, "key": k.jwk_sec, "alg": alg, "typ": typ});
        // general
        ctx.case("sign", inp.clone(), known, || {
            let s = match sign(&payload, &kid, &k, &alg) { Ok(s) => s, Err(e) => { vcheck!(!known && e.kind() == ErrorKind::Unsupported, "refused: {}", e); return Ok(()) } };
            vcheck!(known, "signed with {}", alg);
            let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            vcheck!(v["payload"] == json!(b64(&payload)), "payload {}", v);
            vcheck!(v["signatures"].as_array().map(|a| a.len()) == Some(1), "signatures {}", v);
            let g = &v["signatures"][0];
            vcheck!(v.as_object().unwrap().len() == 2 && g.as_object().unwrap().len() == 3 && g["header"] == json!({"kid": kid}), "members {}", v);
            let p = g["protected"].as_str().ok_or("protected")?;
            let h: Value = serde_json::from_slice(&unb64(p)?).map_err(|e| e.to_string())?;
            vcheck!(h == json!({"typ": "application/didcomm-signed+json", "alg": alg}), "header {}", h);
            let sig = g["signature"].as_str().ok_or("signature")?;
            vcheck!(verdict(&k, &alg, &format!("{}.{}", p, b64(&payload)), sig) == Some(true), "the signature is not one of protected.payload");
            if !s.contains('\\') {
                let mut buf = vec![]; let q = jws::parse(&s, &mut buf).map_err(|e| format!("own JWS refused: {}", e))?;
                vcheck!(verify(&q, &kid, &k).ok() == Some(true), "own JWS not verified");
            }
            Ok(())
        });
        // compact
        ctx.case("sign_compact", inp, known, || {
            let s = match sign_compact(&payload, &kid, &k, &typ, &alg) { Ok(s) => s, Err(e) => { vcheck!(!known && e.kind() == ErrorKind::Unsupported, "refused: {}", e); return Ok(()) } };
            vcheck!(known, "signed with {}", alg);
            let ps: Vec<&str> = s.split('.').collect(); vcheck!(ps.len() == 3, "parts {}", s);
            let h: Value = serde_json::from_slice(&unb64(ps[0])?).map_err(|e| e.to_string())?;
            vcheck!(h == json!({"typ": typ, "alg": alg, "kid": kid}), "header {}", h);
            vcheck!(ps[1] == b64(&payload), "payload {}", ps[1]);
            vcheck!(verdict(&k, &alg, &format!("{}.{}", ps[0], ps[1]), ps[2]) == Some(true), "the signature is not one of header.payload");
            let mut buf = vec![];
            match jws::parse_compact(&s, &mut buf) {
                Ok(q) => { vcheck!(q.header == ps[0] && q.payload == ps[1] && q.signature == ps[2] && q.parsed_header.kid == kid && q.parsed_header.typ == typ && q.parsed_header.alg == alg_of(&alg), "another parse"); vcheck!(verify_compact(&q, &k).ok() == Some(true), "own JWS not verified"); }
                Err(e) => { let t = format!("{}{}", json!(kid), json!(typ)); vcheck!(t.contains('\\'), "own JWS refused: {}", e) }
            }
            Ok(())
        });
    }
    // foreign, tampered
    for _ in 0..ctx.n(2500) {
        let n = r.below(5); let keys: Vec<Key> = (0..n.max(1)).map(|_| { let k = *r.pick(&kinds); Key::gen(&mut r, k) }).collect();
        let payload = r.text(); let mut pl = b64(payload.as_bytes());
        let mut sigs = vec![];
        for i in 0..n {
            let k = &keys[i];
            let alg = match r.below(8) { 0 => r.pick(&["EdDSA", "ES256", "ES256K", "none", "eddsa"]).to_string(), _ => k.alg().to_string() };
            let typ = r.pick(&["application/didcomm-signed+json", "didcomm-signed+json", "x\\y", "~~~???>>>~?>"]).to_string();
            let mut h = json!({"typ": typ, "alg": alg}); if r.chance(1, 10) { h["crit"] = json!(["x"]); }
            let p = b64(h.to_string().as_bytes());
            let over = match r.below(8) { 0 => format!("{}.{}", p, payload), 1 => format!("{}.{}.", p, pl), _ => format!("{}.{}", p, pl) };
            let mut s = b64(&k.sign(over.as_bytes()));
            if r.chance(1, 8) { s = spoil(&mut r, &s) }
            let p = if r.chance(1, 12) { spoil(&mut r, &p) } else { p };
            let id = format!("did:a:{}#k", r.below(3)); sigs.push((if r.chance(1, 8) { r.near(&id) } else { id }, p, s));
        }
        if r.chance(1, 12) { pl = spoil(&mut r, &pl) }
        let v = json!({"payload": pl, "signatures": sigs.iter().map(|(k, p, s)| json!({"header": {"kid": k}, "protected": p, "signature": s})).collect::<Vec<_>>(), "extra": 1});
        let text = v.to_string();
        let who = format!("did:a:{}#k", r.below(3)); let who = if r.chance(1, 8) { r.near(&who) } else { who }; let which = if r.chance(2, 3) { sigs.iter().position(|s| s.0 == who).unwrap_or(0) } else { r.below(keys.len()) };
        let key = keys[which].clone();
        ctx.case("foreign", json!({"jws": v, "kid": who, "key": key.jwk_pub}), n > 0, || {
            let hs: Vec<Option<Value>> = sigs.iter().map(|s| unb64(&s.1).ok().and_then(|b| serde_json::from_slice(&b).ok())).collect();
            let bad = hs.iter().position(|h| !matches!(h, Some(h) if h["typ"].is_string() && h["alg"].is_string()));
            let mut buf = vec![];
            let p = match (jws::parse(&text, &mut buf), bad) {
                (Ok(p), None) => p, (Ok(_), Some(i)) => return Err(format!("protected header {} accepted", i)),
                (Err(_), None) => return Err("refused".into()),
                (Err(e), Some(_)) => { vcheck!(e.kind() == ErrorKind::Malformed || e.kind() == ErrorKind::InvalidState, "kind {:?}", e.kind()); return Ok(()) } };
            vcheck!(p.jws.payload == pl && p.jws.signatures.len() == sigs.len() && p.protected.len() == sigs.len(), "other fields");
            for i in 0..sigs.len() { let s = &p.jws.signatures[i]; vcheck!(s.header.kid == sigs[i].0 && s.protected == sigs[i].1 && s.signature == sigs[i].2, "other signature {}", i);
                let h = hs[i].as_ref().unwrap(); vcheck!(p.protected[i].typ == h["typ"].as_str().unwrap() && p.protected[i].alg == alg_of(h["alg"].as_str().unwrap()), "other header {}", i) }
            let want = match sigs.iter().position(|s| s.0 == who) { None => None, Some(i) => verdict(&key, hs[i].as_ref().unwrap()["alg"].as_str().unwrap(), &format!("{}.{}", sigs[i].1, pl), &sigs[i].2) };
            let got = verify(&p, &who, &key);
            vcheck!(got.as_ref().ok() == want.as_ref() || (got.is_err() && want == Some(false)), "verification says {:?}, not {:?}", got.map_err(|e| e.to_string()), want);
            Ok(())
        });
    }
    // compact, tampered
    for _ in 0..ctx.n(4000) {
        let kind = *r.pick(&kinds); let k = Key::gen(&mut r, kind);
        let alg = match r.below(6) { 0 => r.pick(&["EdDSA", "ES256", "ES256K", "none"]).to_string(), _ => k.alg().to_string() };
        let mut h = json!({"typ": r.pick(&["JWT", "jwt", "x", "~~~???>>>~?>"]), "alg": alg, "kid": format!("did:a:b#{}", r.ident())});
        match r.below(12) { 0 => { h.as_object_mut().unwrap().remove(*r.pick(&["typ", "alg", "kid"])); } 1 => { h[*r.pick(&["typ", "alg", "kid"])] = any_json(&mut r, 1); } 2 => { h = any_json(&mut r, 2); } 3 => { h["more"] = json!(1); } _ => {} }
        let p0 = b64(h.to_string().as_bytes()); let p0 = if r.chance(1, 10) { spoil(&mut r, &p0) } else { p0 };
        let p1 = b64(r.text().as_bytes()); let p1 = if r.chance(1, 10) { spoil(&mut r, &p1) } else { p1 };
        let p2 = b64(&k.sign(format!("{}.{}", p0, p1).as_bytes())); let p2 = if r.chance(1, 6) { spoil(&mut r, &p2) } else { p2 };
        let ps: Vec<String> = match r.below(14) { 0 => vec![p0, p1], 1 => vec![p0, p1, p2, "".into()], 2 => vec![p0, p1, p2, "AA".into()], 3 => vec![p0], 4 => vec![], 5 => vec!["".into(), p0, p1, p2], 6 => vec![p0, "".into(), p2], 7 => vec![p0, p1, "".into()], 8 => vec!["".into(), p1, p2], _ => vec![p0, p1, p2] };
        let text = ps.join("."); let text = match r.below(20) { 0 => format!("{}\n", text), 1 => format!(" {}", text), 2 => spoil(&mut r, &text), _ => text }; let parts: Vec<&str> = text.split('.').collect();
        ctx.case("compact", json!({"jws": text, "key": k.jwk_pub}), parts.len() == 3, || {
            let h: Option<Value> = if parts.len() == 3 { unb64(parts[0]).ok().and_then(|b| serde_json::from_slice(&b).ok()) } else { None };
            let plain = |v: &Value| v.as_str().map(|s| !json!(s).to_string().contains('\\'));
            let sound = match &h { Some(h) if h.is_object() => ["typ", "kid"].iter().all(|k| h[*k].is_string()) && h["alg"].is_string(), _ => false };
            let mut buf = vec![];
            let p = match jws::parse_compact(&text, &mut buf) {
                Ok(p) => { vcheck!(sound || h.as_ref().map_or(false, |h| h.is_array()), "accepted"); p }
                Err(e) => { let esc = h.as_ref().map_or(false, |h| plain(&h["typ"]) == Some(false) || plain(&h["kid"]) == Some(false)); vcheck!(!sound || esc, "refused: {}", e); vcheck!(e.kind() == ErrorKind::Malformed, "kind {:?}", e.kind()); return Ok(()) } };
            if !sound { return Ok(()) }
            let h = h.unwrap();
            vcheck!(p.header == parts[0] && p.payload == parts[1] && p.signature == parts[2], "other parts");
            vcheck!(json!(p.parsed_header.kid) == h["kid"] && json!(p.parsed_header.typ) == h["typ"] && p.parsed_header.alg == alg_of(h["alg"].as_str().unwrap()), "other header");
            let want = verdict(&k, h["alg"].as_str().unwrap(), &format!("{}.{}", parts[0], parts[1]), parts[2]);
            let got = verify_compact(&p, &k);
            vcheck!(got.as_ref().ok() == want.as_ref() || (got.is_err() && want == Some(false)), "verification says {:?}, not {:?}", got.map_err(|e| e.to_string()), want);
            if let Err(e) = got { let a = h["alg"].as_str().unwrap(); vcheck!(e.kind() == if ["EdDSA", "ES256", "ES256K"].contains(&a) { ErrorKind::Malformed } else { ErrorKind::Unsupported }, "kind {:?}", e.kind()) }
            Ok(())
        });
    }
}
