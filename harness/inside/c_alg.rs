use super::base::*;
use crate::jwe::envelope as e;
use crate::jws as s;
use askar_crypto::sign::SignatureType;
use serde_json::{json, Value};

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "the registered names, near misses of them and random texts, in both directions; non-trivial: a name that is not registered".into();
    ctx.bound = "all registered names (exhaustive), about 60 near misses, sampled texts".into();
    let mut r = Rng::new(ctx.seed);
    let names = ["ECDH-1PU+A256KW", "ECDH-ES+A256KW", "A256CBC-HS512", "XC20P", "A256GCM", "EdDSA", "ES256", "ES256K"];
    let mut texts: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    for n in names.iter() { texts.push(n.to_lowercase()); texts.push(n.to_uppercase()); texts.push(format!("{} ", n)); texts.push(n[..n.len() - 1].into()); texts.push(format!("{}K", n)); texts.push(n.replace("-", "_")); texts.push(n.replace("+", "")) }
    for n in ["ECDH-ES", "ECDH-1PU", "ECDH-ES+A128KW", "ECDH-1PU+A128KW", "ECDH-ES+XC20PKW", "A128CBC-HS256", "A256CBC", "C20P", "A128GCM", "ES384", "RS256", "HS256", "none", "Ed25519", "Other", "other", "", "Ecdh1puA256kw", "A256cbcHs512", "Xc20P", "A256Gcm", "Es256", "Es256K"].iter() { texts.push(n.to_string()) }
    for w in words() { texts.push(w.clone()) } for n in names.iter() { for _ in 0..25 { texts.push(r.near(n)) } }
    for _ in 0..ctx.n(300) { texts.push(r.text()) }
    for t in texts {
        let known = names.contains(&t.as_str());
        ctx.case("name", json!(t), !known, || {
            let v = json!(t); let txt = v.to_string();
            let a: e::Algorithm = serde_json::from_str(&txt).map_err(|x| x.to_string())?;
            let w = match t.as_str() { "ECDH-1PU+A256KW" => e::Algorithm::Ecdh1puA256kw, "ECDH-ES+A256KW" => e::Algorithm::EcdhEsA256kw, _ => e::Algorithm::Other(t.clone()) };
            vcheck!(a == w, "jwe alg read as {:?}", a); vcheck!(serde_json::to_value(&a).ok() == Some(v.clone()), "jwe alg written as {:?}", serde_json::to_value(&a)); vcheck!(a.as_str() == t, "textual form {:?}", a.as_str());
            let a: e::EncAlgorithm = serde_json::from_str(&txt).map_err(|x| x.to_string())?;
            let w = match t.as_str() { "A256CBC-HS512" => e::EncAlgorithm::A256cbcHs512, "XC20P" => e::EncAlgorithm::Xc20P, "A256GCM" => e::EncAlgorithm::A256Gcm, _ => e::EncAlgorithm::Other(t.clone()) };
            vcheck!(a == w, "jwe enc read as {:?}", a); vcheck!(serde_json::to_value(&a).ok() == Some(v.clone()), "jwe enc written as {:?}", serde_json::to_value(&a));
            let a: s::Algorithm = serde_json::from_str(&txt).map_err(|x| x.to_string())?;
            let w = match t.as_str() { "EdDSA" => s::Algorithm::EdDSA, "ES256" => s::Algorithm::Es256, "ES256K" => s::Algorithm::Es256K, _ => s::Algorithm::Other(t.clone()) };
            vcheck!(a == w, "jws alg read as {:?}", a); vcheck!(serde_json::to_value(&a).ok() == Some(v.clone()), "jws alg written as {:?}", serde_json::to_value(&a));
            let g = a.sig_type(); let w = match t.as_str() { "EdDSA" => Some(SignatureType::EdDSA), "ES256" => Some(SignatureType::ES256), "ES256K" => Some(SignatureType::ES256K), _ => None };
            match g { Ok(g) => vcheck!(Some(g) == w, "signature type {:?}", g), Err(x) => vcheck!(w.is_none() && x.kind() == crate::error::ErrorKind::Unsupported, "{:?}", x.kind()) }
            Ok(())
        });
    }
    for v in [json!(1), json!(null), json!({"Other": "EdDSA"}), json!(["EdDSA"]), json!(true)].iter() {
        ctx.case("not a text", v.clone(), true, || {
            vcheck!(serde_json::from_value::<e::Algorithm>(v.clone()).is_err() && serde_json::from_value::<e::EncAlgorithm>(v.clone()).is_err() && serde_json::from_value::<s::Algorithm>(v.clone()).is_err(), "accepted"); Ok(())
        });
    }
}
