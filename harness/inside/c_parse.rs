use super::base::*;
use crate::error::ErrorKind;
use crate::jwe;
use serde_json::{json, Map, Value};

fn kid(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "did:example:bob#key-1".into(), 1 => "did:example:bob#key-10".into(), 2 => "did:example:bob#key-2".into(),
        3 => "a".into(), 4 => "a.b".into(), 5 => "B".into(), 6 => String::new(), _ => format!("did:example:{}#{}", r.ident(), r.plain()),
    }
}
fn ref_apv(kids: &[String]) -> Vec<u8> {
    // independent of the code under test: insertion sort on bytes, explicit concatenation
    let mut k: Vec<&[u8]> = vec![];
    for x in kids { let b = x.as_bytes(); let p = k.iter().position(|y| *y > b).unwrap_or(k.len()); k.insert(p, b) }
    let mut t: Vec<u8> = vec![];
    for (i, x) in k.iter().enumerate() { if i > 0 { t.push(b'.') } t.extend_from_slice(x) }
    sha256(&t)
}
fn envelope(kids: &[String], hdr: &Value) -> String {
    json!({"protected": b64(serde_json::to_string(hdr).unwrap().as_bytes()), "iv": "aXY", "ciphertext": "Y3Q", "tag": "dGFn",
        "recipients": kids.iter().map(|k| json!({"header": {"kid": k}, "encrypted_key": "a2V5"})).collect::<Vec<_>>()}).to_string()
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "envelopes with 0..6 random recipients (duplicates, shared prefixes, every order), a recipients hash that is right or wrong in one of ten ways, and every combination of sender id and agreement info; non-trivial: more than one recipient or a sender id".into();
    ctx.bound = "at most 6 recipients per envelope; key ids of at most 40 characters; sampled".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(12000) {
        let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 6]);
        let mut kids: Vec<String> = (0..n).map(|_| kid(&mut r)).collect();
        if n > 1 && r.chance(1, 4) { let i = r.below(n); let j = r.below(n); kids[i] = kids[j].clone() }
        let right = ref_apv(&kids);
        let join = |v: &[String], s: &str| sha256(v.join(s).as_bytes());
        let apv = match r.below(16) {
            0 => { let mut v = right.clone(); let i = r.below(32); v[i] ^= 1 << r.below(8); v }
            1 => { let mut v = right.clone(); v.truncate(r.below(32)); v }
            2 => { let mut v = right.clone(); v.push(0); v }
            3 => join(&kids, "."),
            4 => { let mut k = kids.clone(); k.sort(); k.reverse(); join(&k, ".") }
            5 => { let mut k = kids.clone(); k.sort(); k.dedup(); join(&k, ".") }
            6 => { let mut k = kids.clone(); k.sort(); join(&k, "") }
            7 => { let mut k = kids.clone(); k.sort(); join(&k, ",") }
            8 => { let mut k = kids.clone(); k.sort(); k.pop(); join(&k, ".") }
            9 => vec![],
            10 => { let mut k = kids.clone(); if let Some(x) = k.first_mut() { *x = x.to_uppercase() } k.sort(); join(&k, ".") }
            11 => { let mut k: Vec<String> = kids.iter().map(|x| x.split('#').next().unwrap_or("").to_string()).collect(); k.sort(); join(&k, ".") }
            _ => right.clone(),
        };
        let skid = match r.below(4) { 0 | 1 => None, 2 => Some("did:example:alice#key-1".to_string()), _ => Some(r.plain()) };
        let apu: Option<Vec<u8>> = match r.below(9) {
            0 => None, 1 => Some(vec![0xff, 0xfe]), 2 => Some(vec![]),
            3 => skid.as_ref().map(|s| s.to_uppercase().into_bytes()),
            4 => skid.as_ref().map(|s| format!("{}x", s).into_bytes()),
            5 => skid.as_ref().map(|s| { let mut b = s.clone().into_bytes(); b.pop(); b }),
            6 => Some(b"did:example:alice#key-1".to_vec()),
            7 => skid.as_ref().map(|s| { let mut b = s.clone().into_bytes(); b.push(0x80); b }),
            _ => skid.as_ref().map(|s| s.clone().into_bytes()),
        };
        let mut hdr = json!({"typ": "application/didcomm-encrypted+json", "alg": "ECDH-1PU+A256KW", "enc": "A256CBC-HS512", "apv": b64(&apv), "epk": {"kty": "OKP"}});
        if let Some(s) = &skid { hdr["skid"] = json!(s) }
        if let Some(a) = &apu { hdr["apu"] = json!(b64(a)) }
        let ok = apv == right && apu.as_ref().map(|a| String::from_utf8(a.clone()).is_ok()).unwrap_or(true)
            && match (&skid, &apu) { (Some(s), Some(a)) => s.as_bytes() == &a[..], (Some(_), None) => false, _ => true };
        let msg = envelope(&kids, &hdr);
        let input = json!({"envelope": msg, "kids": kids, "skid": skid, "apu": apu, "apv": apv, "expected": if ok { "accepted" } else { "Malformed" }});
        let nt = n > 1 || skid.is_some();
        ctx.case("binding", input, nt, || {
            let mut buf = vec![];
            let p = jwe::parse(&msg, &mut buf).map_err(|e| format!("well formed envelope does not parse: {:?}", e))?;
            let (kids0, skid0) = (p.jwe.recipients.iter().map(|x| x.header.kid.to_string()).collect::<Vec<_>>(), p.protected.skid.map(|s| s.to_string()));
            match p.verify_didcomm() {
                Ok(p) => {
                    vcheck!(ok, "accepted although the recipients hash or the sender id is not bound");
                    vcheck!(p.jwe.recipients.iter().map(|x| x.header.kid.to_string()).collect::<Vec<_>>() == kids0 && p.protected.skid.map(|s| s.to_string()) == skid0 && p.apv == apv && p.apu == apu, "acceptance changed the envelope");
                }
                Err(e) => { vcheck!(!ok, "rejected although every binding holds: {:?}", e); vcheck!(e.kind() == ErrorKind::Malformed, "rejected with {:?} instead of Malformed", e.kind()) }
            }
            Ok(())
        });
    }
}

/// reference reader: what the envelope must parse to, or the error kind
fn ref_parse(text: &str) -> Result<Value, ErrorKind> {
    let v: Value = serde_json::from_str(text).map_err(|e| if e.is_eof() { ErrorKind::InvalidState } else { ErrorKind::Malformed })?;
    let m = ErrorKind::Malformed;
    let s = |v: &Value, k: &str| -> Result<String, ErrorKind> { v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string()).ok_or(m) };
    let o = |v: &Value, k: &str| -> Result<Option<String>, ErrorKind> { match v.get(k) { None | Some(Value::Null) => Ok(None), Some(Value::String(x)) => Ok(Some(x.clone())), _ => Err(m) } };
    if !v.is_object() { return Err(m) }
    let protected = s(&v, "protected")?;
    let mut rec = vec![];
    for x in v.get("recipients").and_then(|x| x.as_array()).ok_or(m)? { rec.push(json!([s(x.get("header").ok_or(m)?, "kid")?, s(x, "encrypted_key")?])) }
    let (iv, ct, tag) = (s(&v, "iv")?, s(&v, "ciphertext")?, s(&v, "tag")?);
    let raw = base64::decode_config(&protected, base64::URL_SAFE_NO_PAD).map_err(|_| m)?;
    let h: Value = serde_json::from_slice(&raw).map_err(|e| if e.is_eof() { ErrorKind::InvalidState } else { m })?;
    if !h.is_object() { return Err(m) }
    let (typ, alg, enc, skid, apu, apv) = (o(&h, "typ")?, s(&h, "alg")?, s(&h, "enc")?, o(&h, "skid")?, o(&h, "apu")?, s(&h, "apv")?);
    let epk = h.get("epk").ok_or(m)?.clone();
    let apv_b = base64::decode_config(&apv, base64::URL_SAFE_NO_PAD).map_err(|_| m)?;
    let apu_b = match &apu { None => None, Some(a) => Some(base64::decode_config(a, base64::URL_SAFE_NO_PAD).map_err(|_| m)?) };
    Ok(json!({"protected": protected, "recipients": rec, "iv": iv, "ciphertext": ct, "tag": tag, "typ": typ, "alg": alg, "enc": enc, "skid": skid, "apu": apu, "apv": apv, "epk": epk, "apu_bytes": apu_b, "apv_bytes": apv_b}))
}
fn mutate(r: &mut Rng, v: &mut Value, keys: &[&str]) -> &'static str {
    let k = *r.pick(keys);
    match r.below(13) {
        // text that other decoders of base64 take
        9 | 10 => { let n = 3 + r.below(6); let mut b = r.bytes(n); b[0] = 0xfb; b[1] = 0xff; v[k] = json!(base64::encode_config(&b, if r.flip() { base64::STANDARD } else { base64::STANDARD_NO_PAD })); "field in the other base64 alphabet" }
        11 | 12 => { let s = v[k].as_str().unwrap_or("QUJD").to_string(); let i = match r.below(3) { 0 => 0, 1 => s.len(), _ => r.below(s.len() + 1) }; let t = *r.pick(&[" ", "=", ".", "+", "/", "\u{feff}", "!", "=="]); if s.is_char_boundary(i) { v[k] = json!(format!("{}{}{}", &s[..i], t, &s[i..])) } "field with a stray character" }
        0 => { v.as_object_mut().unwrap().remove(k); "field removed" }
        1 => { v[k] = Value::Null; "field null" }
        2 => { v[k] = json!(r.below(100)); "field a number" }
        3 => { v[k] = json!({"x": 1}); "field an object" }
        4 => { v[k] = json!(true); "field a boolean" }
        5 => { let key = r.ident(); v[key.as_str()] = any_json(r, 2); "unknown field added" }
        6 => { v[k] = json!("%%%"); "field not base64" }
        7 => { v[k] = json!(""); "field empty" }
        _ => { v[k] = json!("QUI="); "field padded base64" }
    }
}
pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "envelopes with random members, then up to three structural mutations of the envelope or of its protected header (removed, null, wrong type, unknown field, bad base64), or truncation / a byte edit of the text; non-trivial: any mutation, or more than one recipient".into();
    ctx.bound = "at most 4 recipients, nesting depth 3; sampled; no JSON escapes in the members read by reference, no positional (array) encoding of objects".into();
    let mut r = Rng::new(ctx.seed ^ 2);
    for _ in 0..ctx.n(16000) {
        let n = r.below(5);
        let alg = match r.below(4) { 0 => "ECDH-1PU+A256KW".to_string(), 1 => "ECDH-ES+A256KW".into(), 2 => "ecdh-es+a256kw".into(), _ => r.ident() };
        let enc = match r.below(5) { 0 => "A256CBC-HS512".to_string(), 1 => "XC20P".into(), 2 => "A256GCM".into(), 3 => "XC20p".into(), _ => r.ident() };
        let apvn = r.below(40);
        let mut hdr = json!({"alg": alg, "enc": enc, "apv": b64(&r.bytes(apvn)), "epk": any_json(&mut r, 2)});
        if r.flip() { hdr["typ"] = json!("application/didcomm-encrypted+json") }
        if r.flip() { hdr["skid"] = json!(r.plain()) }
        if r.flip() { let n = r.below(20); hdr["apu"] = json!(b64(&r.bytes(n))) }
        let mut labels = vec![];
        if r.chance(1, 3) { labels.push(mutate(&mut r, &mut hdr, &["typ", "alg", "enc", "skid", "apu", "apv", "epk"])) }
        let hs = { let s = serde_json::to_string(&hdr).unwrap(); if r.chance(1, 20) { labels.push("header text cut"); let mut k = r.below(s.len()); while !s.is_char_boundary(k) { k -= 1 } s[..k].to_string() } else { s } };
        let mut hb = hs.into_bytes();
        if r.chance(1, 40) { labels.push("header not UTF-8"); let i = r.below(hb.len() + 1); hb.insert(i, 0xff) }
        let mut env = json!({"protected": b64(&hb), "iv": r.ident(), "ciphertext": r.ident(), "tag": r.ident(),
            "recipients": (0..n).map(|_| json!({"header": {"kid": r.plain()}, "encrypted_key": r.ident()})).collect::<Vec<_>>()});
        if r.chance(1, 3) { labels.push(mutate(&mut r, &mut env, &["protected", "recipients", "iv", "ciphertext", "tag"])) }
        if n > 0 && r.chance(1, 5) && env["recipients"].is_array() {
            let i = r.below(n);
            if r.flip() { labels.push(mutate(&mut r, &mut env["recipients"][i], &["header", "encrypted_key"])) } else { labels.push(mutate(&mut r, &mut env["recipients"][i]["header"], &["kid"])) }
        }
        let mut text = env.to_string();
        if r.chance(1, 12) { labels.push("text cut"); let mut k = r.below(text.len()); while !text.is_char_boundary(k) { k -= 1 } text.truncate(k) }
        if r.chance(1, 20) { labels.push("text with something around it"); let t = *r.pick(&["\u{feff}", " ", "\n", "x", "{}", "\u{0}", "}", ",", "\u{a0}", "//", "\u{1e}"]); text = if r.flip() { format!("{}{}", t, text) } else { format!("{}{}", text, t) } }
        let exp = ref_parse(&text);
        let nt = !labels.is_empty() || n > 1;
        ctx.case(&labels.join(", "), json!({"text": text, "expected": match &exp { Ok(v) => v.clone(), Err(k) => json!(format!("{:?}", k)) }}), nt, || {
            let mut buf = vec![];
            let got = match jwe::parse(&text, &mut buf) {
                Err(e) => Err(e.kind()),
                Ok(p) => Ok(json!({"protected": p.jwe.protected, "recipients": p.jwe.recipients.iter().map(|x| json!([x.header.kid, x.encrypted_key])).collect::<Vec<_>>(), "iv": p.jwe.iv, "ciphertext": p.jwe.ciphertext, "tag": p.jwe.tag,
                    "typ": p.protected.typ.as_ref().map(|x| x.to_string()), "alg": p.protected.alg.as_str(), "enc": serde_json::to_value(&p.protected.enc).unwrap(), "skid": p.protected.skid, "apu": p.protected.apu, "apv": p.protected.apv, "epk": p.protected.epk, "apu_bytes": p.apu, "apv_bytes": p.apv})),
            };
            if exp.is_err() && labels.iter().any(|l| l.contains("cut")) {
                // two faults at once: either may be reported
                vcheck!(matches!(got, Err(ErrorKind::Malformed) | Err(ErrorKind::InvalidState)), "expected a rejection, got {:?}", got);
                return Ok(());
            }
            vcheck!(got == exp, "expected {:?}, got {:?}", exp, got);
            Ok(())
        });
    }
}
