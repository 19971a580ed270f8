// C26: options read from JSON, metadata and rotation claims written to it.
use super::base::*;
use crate::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use crate::{FromPrior, MessagingServiceMetadata, PackEncryptedMetadata, PackEncryptedOptions, PackSignedMetadata, UnpackMetadata, UnpackOptions};
use serde_json::{json, Map, Value};

const ANON: [&str; 3] = ["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"];
const AUTH: &str = "A256cbcHs512Ecdh1puA256kw";
fn anon_alg(s: &str) -> Option<AnonCryptAlg> { match s { "A256cbcHs512EcdhEsA256kw" => Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw), "Xc20pEcdhEsA256kw" => Some(AnonCryptAlg::Xc20pEcdhEsA256kw), "A256gcmEcdhEsA256kw" => Some(AnonCryptAlg::A256gcmEcdhEsA256kw), _ => None } }
fn word(r: &mut Rng) -> Value {
    let near = ["a256cbcHs512EcdhEsA256kw", "A256cbcHs512EcdhEsA256kw ", "XC20P", "A256GCM", "Xc20PEcdhEsA256kw", "xc20pEcdhEsA256kw", "A256CBC-HS512", "", "true", "ECDH-ES+A256KW"];
    match r.below(13) { 10 => json!(r.word()), 11 => { let n = *r.pick(&ANON); json!(r.near(n)) } 12 => { let n = *r.pick(&["XC20P", "A256GCM", "A256CBC-HS512"]); json!(n) } 0 => json!(AUTH), 1 | 2 | 3 => json!(r.pick(&ANON)), 4 => json!(r.pick(&near)), _ => json!(r.ident()) }
}
fn any(r: &mut Rng) -> Value {
    match r.below(12) { 0 | 1 | 2 => json!(r.flip()), 3 => Value::Null, 4 => json!(r.below(3)), 5 | 6 => word(r), 7 => { let k = r.ident(); let v = any_json(r, 2); json!({ k: v }) } 8 => json!({}), 9 => json!([]), _ => any_json(r, 2) }
}
/// the value that most likely fits the member
fn fit(r: &mut Rng, k: &str) -> Value {
    match k {
        "protect_sender" | "forward" | "expect_decrypt_by_all_keys" | "unwrap_re_wrapping_forward" => json!(r.flip()),
        "forward_headers" => { let mut m = Map::new(); for _ in 0..r.below(4) { let k = r.ident(); let v = any_json(r, 2); m.insert(k, v); } Value::Object(m) }
        "messaging_service" => json!(r.text()),
        "enc_alg_auth" => json!(AUTH),
        _ => json!(r.pick(&ANON)),
    }
}
fn text_of(v: &Value) -> Option<Option<String>> { match v { Value::Null => Some(None), Value::String(s) => Some(Some(s.clone())), _ => None } }
fn flag(m: &Map<String, Value>, k: &str, d: bool) -> Option<bool> { match m.get(k) { None => Some(d), Some(Value::Bool(b)) => Some(*b), Some(_) => None } }

fn options_of(m: &Map<String, Value>) -> Option<PackEncryptedOptions> {
    Some(PackEncryptedOptions {
        protect_sender: flag(m, "protect_sender", false)?, forward: flag(m, "forward", true)?,
        forward_headers: match m.get("forward_headers") { None | Some(Value::Null) => None, Some(Value::Object(o)) => Some(o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()), _ => return None },
        messaging_service: text_of(m.get("messaging_service").unwrap_or(&Value::Null))?,
        enc_alg_auth: match m.get("enc_alg_auth") { None => AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, Some(Value::String(s)) if s == AUTH => AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, _ => return None },
        enc_alg_anon: match m.get("enc_alg_anon") { None => AnonCryptAlg::Xc20pEcdhEsA256kw, Some(Value::String(s)) => anon_alg(s)?, _ => return None },
    })
}
fn unpack_options_of(m: &Map<String, Value>) -> Option<UnpackOptions> {
    Some(UnpackOptions { expect_decrypt_by_all_keys: flag(m, "expect_decrypt_by_all_keys", false)?, unwrap_re_wrapping_forward: flag(m, "unwrap_re_wrapping_forward", false)? })
}
fn gen_members(r: &mut Rng, names: &[&str]) -> Map<String, Value> {
    let mut m = Map::new();
    let wrong = r.chance(1, 2);
    let one = r.below(names.len());
    for (i, k) in names.iter().enumerate() { if r.flip() || wrong && i == one { let v = if wrong && i == one { any(r) } else { fit(r, k) }; m.insert(k.to_string(), v); } }
    while r.chance(1, 2) { let n = *r.pick(names); let k = near(r, n); if !names.contains(&k.as_str()) { let v = if r.flip() { fit(r, n) } else { any(r) }; m.insert(k, v); } }
    m
}
/// a name that is not this member's but might be taken for it
fn near(r: &mut Rng, name: &str) -> String {
    let words: Vec<&str> = name.split('_').collect();
    let cap = |w: &str| w[..1].to_uppercase() + &w[1..];
    let others: &[&str] = match name { "nbf" => &["not_before", "notBefore"], "exp" => &["expires", "expires_time", "expiry"], "iat" => &["issued_at", "created_time"], "iss" => &["issuer", "from"], "sub" => &["subject", "to"], "aud" => &["audience"], "jti" => &["id", "jwt_id"],
        "forward_headers" => &["headers", "extra_headers"], "messaging_service" => &["service", "service_id"], "enc_alg_auth" => &["enc_alg", "alg_auth"], "enc_alg_anon" => &["enc_alg", "alg_anon"], "protect_sender" => &["protect", "hide_sender", "protect_sender_id"], "forward" => &["wrap"], "unwrap_re_wrapping_forward" => &["unwrap", "unwrap_forward"], _ => &["all_keys"] };
    match r.below(9) { 7 => r.word(), 8 => r.near(name), 0 => r.ident(), 1 => words[0].to_string() + &words[1..].iter().map(|w| cap(w)).collect::<String>(), 2 => words.iter().map(|w| cap(w)).collect(), 3 => name.to_uppercase(), 4 => words.join("-"), 5 => words.concat(), _ => r.pick(others).to_string() }
}
/// a scalar algorithm member given as an object is a form of serde's own ("{name: null}"), outside the statement
fn outside(m: &Map<String, Value>) -> bool { ["enc_alg_auth", "enc_alg_anon"].iter().any(|k| matches!(m.get(*k), Some(Value::Object(_)))) }

fn opt_text(r: &mut Rng) -> Option<String> { if r.flip() { Some(r.text()) } else { None } }
fn opt_num(r: &mut Rng) -> Option<u64> { match r.below(4) { 0 => None, 1 => Some(u64::MAX), 2 => Some(0), _ => Some(r.below(1 << 40) as u64) } }
fn texts(r: &mut Rng) -> Vec<String> { let n = r.below(4); (0..n).map(|_| r.text()).collect() }
fn claims(r: &mut Rng) -> FromPrior { FromPrior { iss: r.text(), sub: r.text(), aud: opt_text(r), exp: opt_num(r), nbf: opt_num(r), iat: opt_num(r), jti: opt_text(r) } }
fn claims_json(f: &FromPrior) -> Value {
    let mut m = Map::new();
    m.insert("iss".into(), json!(f.iss)); m.insert("sub".into(), json!(f.sub));
    if let Some(x) = &f.aud { m.insert("aud".into(), json!(x)); } if let Some(x) = &f.jti { m.insert("jti".into(), json!(x)); }
    if let Some(x) = f.exp { m.insert("exp".into(), json!(x)); } if let Some(x) = f.nbf { m.insert("nbf".into(), json!(x)); } if let Some(x) = f.iat { m.insert("iat".into(), json!(x)); }
    Value::Object(m)
}
fn same(what: &str, got: Result<Value, serde_json::Error>, want: Value) -> Result<(), String> {
    let got = got.map_err(|e| format!("{} not written: {}", what, e))?;
    vcheck!(got == want, "{} is written as {} and not as {}", what, got, want); Ok(())
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "objects with any subset of the option members, fitting and not, and unknown ones; metadata and claim sets with any subset of their parts; non-trivial: a member is missing or does not fit".into();
    ctx.bound = "all subsets of members (sampled), texts to about 20 characters, nesting 2".into();
    let mut r = Rng::new(ctx.seed);
    ctx.case("built-in defaults", json!({}), true, || {
        let d = PackEncryptedOptions::default();
        vcheck!(Some(&d) == options_of(&Map::new()).as_ref(), "the packing defaults are {:?}", d);
        vcheck!(serde_json::from_str::<PackEncryptedOptions>("{}").ok().as_ref() == Some(&d), "the empty object is not the packing default");
        let u = UnpackOptions::default();
        vcheck!(!u.expect_decrypt_by_all_keys && u.unwrap_re_wrapping_forward, "the unpacking defaults are {:?}", u);
        vcheck!(AnonCryptAlg::default() == AnonCryptAlg::Xc20pEcdhEsA256kw && AuthCryptAlg::default() == AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, "default algorithms");
        Ok(())
    });
    let po = ["protect_sender", "forward", "forward_headers", "messaging_service", "enc_alg_auth", "enc_alg_anon"];
    let uo = ["expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"];
    for _ in 0..ctx.n(8000) {
        let m = gen_members(&mut r, &po);
        if outside(&m) { continue }
        let v = Value::Object(m.clone());
        ctx.case("packing options", v.clone(), m.len() < po.len(), || {
            let got = serde_json::from_str::<PackEncryptedOptions>(&v.to_string());
            match (options_of(&m), got) { (Some(w), Ok(g)) => vcheck!(w == g, "read as {:?}, meant {:?}", g, w), (None, Err(_)) => {} (w, g) => vcheck!(false, "read as {:?}, meant {:?}", g, w) }
            Ok(())
        });
    }
    for _ in 0..ctx.n(2500) {
        let m = gen_members(&mut r, &uo);
        let v = Value::Object(m.clone());
        ctx.case("unpacking options", v.clone(), m.len() < uo.len(), || {
            let got = serde_json::from_str::<UnpackOptions>(&v.to_string());
            match (unpack_options_of(&m), got) { (Some(w), Ok(g)) => vcheck!(w == g, "read as {:?}, meant {:?}", g, w), (None, Err(_)) => {} (w, g) => vcheck!(false, "read as {:?}, meant {:?}", g, w) }
            Ok(())
        });
    }
    for v in [json!(null), json!(true), json!("forward"), json!(1)].iter() {
        ctx.case("not an object", v.clone(), true, || { vcheck!(serde_json::from_value::<PackEncryptedOptions>(v.clone()).is_err() && serde_json::from_value::<UnpackOptions>(v.clone()).is_err(), "accepted"); Ok(()) });
    }
    let mut words: Vec<Value> = ANON.iter().map(|x| json!(x)).chain(["EdDSA", "ES256", "ES256K", AUTH, "Ed25519", "eddsa", "ES384", "ES256k", "Es256"].iter().map(|x| json!(x))).collect();
    for _ in 0..ctx.n(200) { let w = word(&mut r); words.push(w); } for v in [json!(1), json!(null), json!([]), json!(true)].iter() { words.push(v.clone()) }
    for v in words {
        ctx.case("algorithm name", v.clone(), true, || {
            let s = v.as_str().unwrap_or("");
            let a = serde_json::from_value::<AnonCryptAlg>(v.clone()).ok(); vcheck!(a == anon_alg(s), "anonymous algorithm {:?}", a);
            if let Some(a) = a { same("the algorithm", serde_json::to_value(&a), v.clone())?; }
            let a = serde_json::from_value::<AuthCryptAlg>(v.clone()).ok(); vcheck!(a.is_some() == (s == AUTH), "authenticated algorithm {:?}", a);
            if let Some(a) = a { same("the algorithm", serde_json::to_value(&a), v.clone())?; }
            let a = serde_json::from_value::<SignAlg>(v.clone()).ok(); vcheck!(a == match s { "EdDSA" => Some(SignAlg::EdDSA), "ES256" => Some(SignAlg::ES256), "ES256K" => Some(SignAlg::ES256K), _ => None }, "signature algorithm {:?}", a);
            if let Some(a) = a { same("the algorithm", serde_json::to_value(&a), v.clone())?; }
            Ok(())
        });
    }
    for _ in 0..ctx.n(2500) {
        let svc = if r.flip() { let id = r.text(); let e = r.text(); Some(MessagingServiceMetadata { id, service_endpoint: e }) } else { None };
        let svc_json = svc.as_ref().map(|s| json!({"id": s.id, "service_endpoint": s.service_endpoint})).unwrap_or(Value::Null);
        let p = PackEncryptedMetadata { messaging_service: svc, from_kid: opt_text(&mut r), sign_by_kid: opt_text(&mut r), to_kids: texts(&mut r) };
        let want = json!({"messaging_service": svc_json, "from_kid": p.from_kid, "sign_by_kid": p.sign_by_kid, "to_kids": p.to_kids});
        ctx.case("packing metadata", want.clone(), p.from_kid.is_none(), || {
            same("the metadata", serde_json::to_value(&p), want.clone())?;
            let s = PackSignedMetadata { sign_by_kid: p.to_kids.concat() };
            same("the metadata", serde_json::to_value(&s), json!({"sign_by_kid": s.sign_by_kid}))
        });
        let f = claims(&mut r);
        let fj = claims_json(&f);
        ctx.case("rotation claims", fj.clone(), f.aud.is_none(), || {
            same("the claim set", serde_json::to_value(&f), fj.clone())?;
            let back: FromPrior = serde_json::from_str(&fj.to_string()).map_err(|e| format!("refused: {}", e))?;
            vcheck!(back == f, "read back as {:?}", back); Ok(())
        });
        let mut broken = fj.as_object().unwrap().clone();
        let names = ["iss", "sub", "aud", "exp", "nbf", "iat", "jti"];
        let k = *r.pick(&names); let v = any(&mut r); if r.flip() { broken.remove(k); } else if r.flip() { broken.insert(k.into(), v); }
        while r.chance(2, 3) { let n = *r.pick(&names); let k = near(&mut r, n); if !names.contains(&k.as_str()) { let v = if r.flip() { fj[n].clone() } else if r.flip() { json!(5) } else { json!("x") }; broken.insert(k, v); } }
        let bj = Value::Object(broken.clone());
        ctx.case("claims with one member off", bj.clone(), true, || {
            let t = |k: &str| text_of(broken.get(k).unwrap_or(&Value::Null));
            let n = |k: &str| match broken.get(k) { None | Some(Value::Null) => Some(None), Some(v) => v.as_u64().map(Some) };
            let meant = (|| Some(FromPrior { iss: t("iss")??, sub: t("sub")??, aud: t("aud")?, exp: n("exp")?, nbf: n("nbf")?, iat: n("iat")?, jti: t("jti")? }))();
            let got = serde_json::from_str::<FromPrior>(&bj.to_string()).ok();
            vcheck!(got == meant, "read as {:?}, meant {:?}", got, meant); Ok(())
        });
        let au = if r.flip() { Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw) } else { None };
        let an = match r.below(4) { 0 => None, i => Some(ANON[i - 1]) };
        let sg = match r.below(4) { 0 => None, 1 => Some(("EdDSA", SignAlg::EdDSA)), 2 => Some(("ES256", SignAlg::ES256)), _ => Some(("ES256K", SignAlg::ES256K)) };
        let fp = if r.flip() { Some(claims(&mut r)) } else { None };
        let u = UnpackMetadata { encrypted: r.flip(), authenticated: r.flip(), non_repudiation: r.flip(), anonymous_sender: r.flip(), re_wrapped_in_forward: r.flip(), encrypted_from_kid: opt_text(&mut r),
            encrypted_to_kids: if r.flip() { Some(texts(&mut r)) } else { None }, sign_from: opt_text(&mut r), from_prior_issuer_kid: opt_text(&mut r), enc_alg_auth: au, enc_alg_anon: an.and_then(anon_alg),
            sign_alg: sg.as_ref().map(|x| x.1.clone()), signed_message: opt_text(&mut r), from_prior: fp };
        let want = json!({"encrypted": u.encrypted, "authenticated": u.authenticated, "non_repudiation": u.non_repudiation, "anonymous_sender": u.anonymous_sender, "re_wrapped_in_forward": u.re_wrapped_in_forward,
            "encrypted_from_kid": u.encrypted_from_kid, "encrypted_to_kids": u.encrypted_to_kids, "sign_from": u.sign_from, "from_prior_issuer_kid": u.from_prior_issuer_kid,
            "enc_alg_auth": u.enc_alg_auth.as_ref().map(|_| AUTH), "enc_alg_anon": an, "sign_alg": sg.map(|x| x.0), "signed_message": u.signed_message, "from_prior": u.from_prior.as_ref().map(claims_json)});
        ctx.case("unpacking metadata", want.clone(), u.from_prior.is_none(), || same("the metadata", serde_json::to_value(&u), want.clone()));
    }
}
