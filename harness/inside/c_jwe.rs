use super::base::*;
use super::world::*;
use crate::error::ErrorKind;
use crate::jwe::{self, Algorithm, EncAlgorithm};
use crate::jwk::{FromJwkValue, ToJwkValue};
use crate::utils::crypto::{JoseKDF, KeyWrap};
use askar_crypto::{alg::{aes::{A256CbcHs512, A256Gcm, A256Kw, AesKey}, chacha20::{Chacha20Key, XC20P}, p256::P256KeyPair, x25519::X25519KeyPair},
    encrypt::{KeyAeadInPlace, KeyAeadMeta}, jwk::FromJwk, kdf::{ecdh_1pu::Ecdh1PU, ecdh_es::EcdhEs, KeyExchange}, repr::{KeyGen, KeySecretBytes, ToSecretBytes}};
use serde_json::{json, Value};

type Kw = AesKey<A256Kw>;
fn alg_of(s: &str) -> Algorithm { match s { "ECDH-1PU+A256KW" => Algorithm::Ecdh1puA256kw, "ECDH-ES+A256KW" => Algorithm::EcdhEsA256kw, x => Algorithm::Other(x.into()) } }
fn enc_of(s: &str) -> EncAlgorithm { match s { "A256CBC-HS512" => EncAlgorithm::A256cbcHs512, "XC20P" => EncAlgorithm::Xc20P, "A256GCM" => EncAlgorithm::A256Gcm, x => EncAlgorithm::Other(x.into()) } }
fn enc1<CE: KeyAeadInPlace + KeyAeadMeta + KeyGen + ToSecretBytes, KDF: JoseKDF<KE, Kw>, KE: KeyExchange + KeyGen + ToJwkValue + FromJwk + KeySecretBytes>(t: &[u8], alg: &str, enc: &str, s: Option<(&str, &Key)>, to: &[(String, Key)]) -> crate::error::Result<String> {
    let sk = s.map(|(k, x)| (k, KE::from_secret_bytes(&x.secret).unwrap()));
    let rk: Vec<(String, KE)> = to.iter().map(|(k, x)| (k.clone(), KE::from_jwk(&x.jwk_pub.to_string()).unwrap())).collect();
    let rs: Vec<(&str, &KE)> = rk.iter().map(|(k, x)| (k.as_str(), x)).collect();
    jwe::encrypt::<CE, KDF, KE, Kw>(t, alg_of(alg), enc_of(enc), sk.as_ref().map(|(k, x)| (*k, x)), &rs)
}
fn dec1<CE: KeyAeadInPlace + KeySecretBytes, KDF: JoseKDF<KE, Kw>, KE: KeyExchange + KeyGen + ToJwkValue + FromJwkValue + FromJwk + KeySecretBytes>(text: &str, s: Option<(&str, &Key)>, kid: &str, own: &Key) -> crate::error::Result<Vec<u8>> {
    let mut buf = vec![]; let p = jwe::parse(text, &mut buf)?;
    let sk = s.map(|(k, x)| (k, KE::from_jwk(&x.jwk_pub.to_string()).unwrap()));
    let k = KE::from_secret_bytes(&own.secret).unwrap();
    p.decrypt::<CE, KDF, KE, Kw>(sk.as_ref().map(|(k, x)| (*k, x)), (kid, &k))
}
macro_rules! pick_types { ($f:ident, $enc:expr, $pu:expr, $kind:expr, $($a:expr),*) => { match ($enc, $pu, $kind) {
    ("A256CBC-HS512", true, Kind::X) => $f::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair>($($a),*), ("A256CBC-HS512", false, Kind::X) => $f::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair>($($a),*),
    ("A256CBC-HS512", true, _) => $f::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair>($($a),*), ("A256CBC-HS512", false, _) => $f::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair>($($a),*),
    ("A256GCM", true, Kind::X) => $f::<AesKey<A256Gcm>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair>($($a),*), ("A256GCM", false, Kind::X) => $f::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair>($($a),*),
    ("A256GCM", true, _) => $f::<AesKey<A256Gcm>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair>($($a),*), ("A256GCM", false, _) => $f::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair>($($a),*),
    (_, true, Kind::X) => $f::<Chacha20Key<XC20P>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair>($($a),*), (_, false, Kind::X) => $f::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair>($($a),*),
    (_, true, _) => $f::<Chacha20Key<XC20P>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair>($($a),*), (_, false, _) => $f::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair>($($a),*) } } }
const ENCS: [&str; 3] = ["A256CBC-HS512", "A256GCM", "XC20P"];
fn spoil(r: &mut Rng, s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); match r.below(8) {
    6 => c.push(' '), 7 => { let i = r.below(c.len() + 1); c.insert(i, *r.pick(&[' ', '.', '/'])) }
    0 => { c.pop(); } 1 => c.push('A'), 2 => c.push('='), 3 => c.push('!'), 4 if !c.is_empty() => { let i = r.below(c.len()); c[i] = *r.pick(&['A', 'B', 'z', '-', '_', '+']); } _ => {} } c.into_iter().collect() }

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "envelopes made by the library, opened independently; envelopes made independently, intact and tampered with, decrypted by the library; non-trivial: at least one recipient".into();
    ctx.bound = "two key types, three content encryptions, up to four recipients, messages up to 70 bytes".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(300) {
        let kind = if r.flip() { Kind::X } else { Kind::P }; let enc = *r.pick(&ENCS); let pu = r.flip();
        let alg = if r.chance(1, 10) { "X-1" } else if pu { "ECDH-1PU+A256KW" } else { "ECDH-ES+A256KW" };
        let n = r.below(5); let mut to: Vec<(String, Key)> = (0..n).map(|i| (if r.chance(1, 4) { format!("{}{}", r.text(), i) } else { format!("did:a:{}#{}{}", r.ident(), r.ident(), i) }, Key::gen(&mut r, kind))).collect();
        for i in 1..n { if r.chance(1, 3) { let j = r.below(i); let t = r.near(&to[j].0); if !to.iter().any(|x| x.0 == t) { to[i].0 = t } } }
        r.shuffle(&mut to);
        let skey = Key::gen(&mut r, kind); let skid = if r.chance(1, 4) { r.text() } else { format!("did:a:{}#s", r.ident()) };
        // with ECDH-ES a sender id may be given too; without one ECDH-1PU has no key
        let with = if pu { !r.chance(1, 12) } else { r.chance(1, 6) };
        let s = if with { Some((skid.as_str(), &skey)) } else { None };
        let m = r.below(70); let text = r.bytes(m);
        let inp = json!({"text": text, "alg": alg, "enc": enc, "1pu": pu, "sender": with.then(|| json!([skid, skey.jwk_sec])), "to": to.iter().map(|(k, x)| json!([k, x.jwk_sec])).collect::<Vec<_>>()});
        ctx.case("encrypt", inp, n > 0, || {
            let out = match pick_types!(enc1, enc, pu, kind, &text, alg, enc, s, &to) { Ok(o) => o, Err(e) => { vcheck!(pu && !with && n > 0, "refused: {}", e); vcheck!(e.kind() == ErrorKind::InvalidState, "kind {:?}", e.kind()); return Ok(()) } };
            vcheck!(!(pu && !with && n > 0), "sender-authenticated without a sender key");
            let v: Value = serde_json::from_str(&out).map_err(|e| e.to_string())?;
            let ks: Vec<&str> = to.iter().map(|t| t.0.as_str()).collect();
            vcheck!(v.as_object().unwrap().len() == 5, "members {}", v);
            vcheck!(v["recipients"].as_array().map(|a| a.iter().map(|x| x["header"]["kid"].clone()).collect::<Vec<_>>()) == Some(ks.iter().map(|k| json!(k)).collect()), "recipients {}", v["recipients"]);
            vcheck!(v["recipients"].as_array().unwrap().iter().all(|x| x.as_object().unwrap().len() == 2 && x["header"].as_object().unwrap().len() == 1), "recipient members {}", v["recipients"]);
            let h: Value = serde_json::from_slice(&unb64(v["protected"].as_str().ok_or("protected")?)?).map_err(|e| e.to_string())?;
            let mut want = json!({"typ": "application/didcomm-encrypted+json", "alg": alg, "enc": enc, "apv": b64(&apv_of(&ks)), "epk": h["epk"]});
            if with { want["skid"] = json!(skid); want["apu"] = json!(b64(skid.as_bytes())); }
            vcheck!(h == want, "header {} instead of {}", h, want);
            vcheck!(h["epk"].get("d").is_none(), "the ephemeral secret is in the header");
            if alg != "X-1" { for (kid, key) in &to {
                let o = open_jwe(&out, kid, key, s.filter(|_| pu).map(|(_, k)| &k.jwk_pub))?;
                vcheck!(o.text == text, "{} reads something else", kid);
            } }
            let again = pick_types!(enc1, enc, pu, kind, &text, alg, enc, s, &to).map_err(|e| e.to_string())?; let w: Value = serde_json::from_str(&again).unwrap();
            let hw: Value = serde_json::from_slice(&unb64(w["protected"].as_str().unwrap())?).unwrap();
            vcheck!(w["iv"] != v["iv"] && hw["epk"] != h["epk"], "iv or ephemeral key used again");
            if !out.contains('\\') && !h.to_string().contains('\\') {
                let mut buf = vec![]; let p = jwe::parse(&out, &mut buf).map_err(|e| format!("own JWE refused: {}", e))?;
                let p = p.verify_didcomm().map_err(|e| format!("own JWE not accepted: {}", e))?;
                vcheck!(p.apv == apv_of(&ks) && p.apu.as_deref() == s.map(|x| x.0.as_bytes()), "apu or apv");
                for (kid, key) in &to { let t = pick_types!(dec1, enc, pu, kind, &out, s, kid, key).map_err(|e| format!("own JWE not decrypted: {}", e))?; vcheck!(t == text, "{} decrypts something else", kid); }
            }
            Ok(())
        });
    }
    for _ in 0..ctx.n(700) {
        let kind = if r.flip() { Kind::X } else { Kind::P }; let enc = *r.pick(&ENCS); let pu = r.flip();
        let alg = if pu { "ECDH-1PU+A256KW" } else { "ECDH-ES+A256KW" };
        let n = 1 + r.below(4); let keys: Vec<Key> = (0..n).map(|_| Key::gen(&mut r, kind)).collect();
        let mut names: Vec<String> = (0..n).map(|i| if r.chance(1, 8) { "did:a:b#0".into() } else { format!("did:a:{}#{}", r.ident(), i) }).collect();
        for i in 1..n { if r.chance(1, 3) { let j = r.below(i); let t = r.near(&names[j]); names[i] = t } } if r.flip() { r.shuffle(&mut names) }
        let skey = Key::gen(&mut r, kind); let skid = format!("did:a:{}#s", r.ident()); let with = pu || r.chance(1, 6);
        let ekind = if r.chance(1, 14) { if kind == Kind::X { Kind::P } else { Kind::X } } else { kind }; let epk = Key::gen(&mut r, ekind);
        let m = r.below(60); let text = r.bytes(m);
        let seal = Seal { alg, enc, typ: if r.chance(1, 6) { None } else { Some("application/didcomm-encrypted+json") }, sender: if with { Some((&skid, &skey)) } else { None }, to: names.iter().map(|s| s.as_str()).zip(keys.iter()).collect(), epk, skid: r.flip() };
        let mut v = seal_jwe(&mut r, &text, &seal);
        match r.below(9) {
            0 => { let k = *r.pick(&["ciphertext", "iv", "tag", "protected"]); let t = spoil(&mut r, v[k].as_str().unwrap()); v[k] = json!(t); }
            1 => { let i = r.below(n); let t = spoil(&mut r, v["recipients"][i]["encrypted_key"].as_str().unwrap()); v["recipients"][i]["encrypted_key"] = json!(t); }
            2 => { let a = v["recipients"].as_array_mut().unwrap(); let i = r.below(n); let j = r.below(n); let x = a[i]["encrypted_key"].clone(); a[i]["encrypted_key"] = a[j]["encrypted_key"].clone(); a[j]["encrypted_key"] = x; }
            3 => { let a = v["recipients"].as_array_mut().unwrap(); let i = r.below(n); let x = a.remove(i); if r.flip() { a.push(x) } }
            4 => { let mut h: Value = serde_json::from_slice(&unb64(v["protected"].as_str().unwrap()).unwrap()).unwrap(); match r.below(4) { 0 => { h["apv"] = json!(b64(&[1, 2])); } 1 => { h["more"] = json!(1); } 2 => { h["apu"] = json!(b64(b"did:a:x#1")); } _ => { h["alg"] = json!(if pu { "ECDH-ES+A256KW" } else { "ECDH-1PU+A256KW" }); } } v["protected"] = json!(b64(h.to_string().as_bytes())); }
            _ => {} }
        let i = r.below(n); let kid = if r.chance(1, 12) { "did:a:b#9".to_string() } else if r.chance(1, 8) { r.near(&names[i]) } else { names[i].clone() }; let key = if r.chance(1, 10) { keys[r.below(n)].clone() } else { keys[i].clone() };
        let (other, okid) = (Key::gen(&mut r, kind), if r.flip() { r.near(&skid) } else { format!("did:a:{}#s", r.ident()) });
        let from: Option<(&str, &Key)> = if !with { if r.chance(1, 10) { Some((&skid, &skey)) } else { None } } else { match r.below(12) { 0 => None, 1 => Some((&okid, &skey)), 2 => Some((&skid, &other)), _ => Some((&skid, &skey)) } };
        let out = v.to_string();
        ctx.case("decrypt", json!({"jwe": v, "kid": kid, "key": key.jwk_sec, "enc": enc, "1pu": pu, "sender": from.map(|(k, x)| json!([k, x.jwk_pub]))}), true, || {
            let got = pick_types!(dec1, enc, pu, kind, &out, from, &kid, &key);
            let want = (|| { let o = open_jwe(&out, &kid, &key, from.map(|x| &x.1.jwk_pub))?;
                if o.header["enc"] != json!(enc) || o.header["alg"] != json!(alg) { return Err("not what is decrypted".to_string()) }
                if o.apu.as_deref() != from.map(|x| x.0.as_bytes()) { return Err("another sender id".into()) }
                Ok(o.text) })();
            match (&got, &want) { (Ok(a), Ok(b)) => vcheck!(a == b, "decrypts something else"), (Err(_), Err(_)) => {}, (Ok(_), Err(e)) => return Err(format!("decrypted although: {}", e)), (Err(e), Ok(_)) => return Err(format!("not decrypted: {}", e)) }
            Ok(())
        });
    }
}
