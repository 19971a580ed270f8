use super::base::*;
use super::world::*;
use crate::algorithms::AnonCryptAlg;
use crate::did::{DIDDoc, Service, ServiceKind};
use crate::error::ErrorKind;
use crate::protocols::routing::{try_parse_forward, wrap_in_forward, wrap_in_forward_if_needed};
use crate::utils::did::{did_or_url, is_did};
use crate::{Attachment, AttachmentData, Message, PackEncryptedOptions};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const FORWARD: &str = "https://didcomm.org/routing/2.0/forward";
fn model_is_did(s: &str) -> bool { s.starts_with("did:") && s.matches(':').count() >= 2 }
fn didish(r: &mut Rng) -> String { match r.below(12) {
    0 => r.text(), 1 => format!("did:{}", r.text()), 2 => "did".into(), 3 => "did:".into(), 4 => "did::".into(), 5 => format!("Did:a:{}", r.ident()), 6 => format!(" did:a:{}", r.ident()), 7 => format!("a:did:{}", r.ident()),
    8 => format!("did:{}:{}#{}", r.ident(), r.ident(), r.ident()), 9 => format!("did:{}:{}#{}#{}", r.ident(), r.ident(), r.ident(), r.ident()), 10 => format!("{}#did:a:b", r.ident()), _ => format!("did:{}:{}", r.ident(), r.text()) } }

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "texts with and without ':' and '#' in every arrangement; non-trivial: holds ':' or '#'".into(); ctx.bound = "all texts up to length 7 over {d,i,:,#} prefixed by 'did' or nothing; random DIDs and URLs".into();
    let mut r = Rng::new(ctx.seed);
    let mut all: Vec<String> = vec![];
    fn rec(p: String, n: usize, v: &mut Vec<String>) { v.push(p.clone()); if n > 0 { for c in ['d', ':', '#', 'é'] { rec(format!("{}{}", p, c), n - 1, v) } } }
    rec("did".into(), 5, &mut all); rec("".into(), 5, &mut all);
    for _ in 0..ctx.n(8000) { all.push(didish(&mut r)) }
    for s in all { ctx.case("split", json!(s), s.contains(':') || s.contains('#'), || {
        vcheck!(is_did(&s) == model_is_did(&s), "is_did gives {}", is_did(&s));
        let (d, u) = did_or_url(&s);
        let want = match s.find('#') { Some(i) => (&s[..i], Some(&s[..])), None => (&s[..], None) };
        vcheck!((d, u) == want, "did_or_url gives {:?}", (d, u)); Ok(()) }) }
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "packing with every combination of valid, invalid, listed and unlisted addresses against a resolver that knows nothing; non-trivial: message has to or from".into(); ctx.bound = "random addresses, up to 3 recipients".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(20000) {
        let pool: Vec<String> = vec!["did:a:x".into(), "did:a:y".into(), "did:a:x1".into(), "did:a:".into(), didish(&mut r)];
        let url = |r: &mut Rng, s: String| if r.flip() { format!("{}#{}", s, r.ident()) } else { s };
        let one = |r: &mut Rng| { let s = r.pick(&pool).clone(); if r.chance(1, 6) { didish(r) } else { url(r, s) } };
        let to = one(&mut r); let from = if r.flip() { Some(one(&mut r)) } else { None }; let sign = if r.chance(1, 3) { Some(one(&mut r)) } else { None };
        let mto: Option<Vec<String>> = match r.below(4) { 0 => None, 1 => Some(vec![]), _ => Some((0..1 + r.below(3)).map(|_| if r.chance(1, 5) { to.clone() } else if r.chance(1, 5) { r.near(&to) } else { r.pick(&pool).clone() }).collect()) };
        let mfrom = match r.below(3) { 0 => None, 1 => from.clone().map(|f| f.split('#').next().unwrap().into()), _ => Some(if r.chance(1, 3) { let f = from.clone().unwrap_or_default(); r.near(f.split('#').next().unwrap()) } else { r.pick(&pool).clone() }) };
        let part = |s: &str| s.split('#').next().unwrap().to_string();
        // what is nearly the same can be on either side
        let (from, mfrom) = match (from, mfrom) { (Some(f), Some(m)) if r.chance(1, 3) => { let t = url(&mut r, m); (Some(t), Some(part(&f))) } x => x };
        let (to, mto) = match mto { Some(mut v) if !v.is_empty() && r.chance(1, 4) => { let i = r.below(v.len()); let was = part(&to); let t = std::mem::replace(&mut v[i], was); (url(&mut r, t), Some(v)) } x => (to, x) };
        let good = model_is_did(&to) && from.as_deref().map_or(true, model_is_did) && sign.as_deref().map_or(true, model_is_did)
            && mto.as_ref().map_or(true, |v| v.contains(&part(&to))) && match (&from, &mfrom) { (Some(f), Some(m)) => part(f) == *m, _ => true };
        let prot = r.flip();
        ctx.case("addresses", json!({"to": to, "from": from, "sign": sign, "mto": mto, "mfrom": mfrom, "protect": prot}), mto.is_some() || mfrom.is_some(), || {
            let mut m = Message::build("1".into(), "t".into(), json!({})).finalize(); m.to = mto.clone(); m.from = mfrom.clone();
            let d = Dids::new(vec![]); let k = Keys { secrets: vec![], broken: false };
            let res = block_on(m.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &k, &PackEncryptedOptions { protect_sender: prot, ..Default::default() }));
            let e = match res { Ok(_) => return Err("packed without any document".into()), Err(e) => e };
            if good { vcheck!(e.kind() != ErrorKind::IllegalArgument, "refused: {}", e) } else { vcheck!(e.kind() == ErrorKind::IllegalArgument && d.asked().is_empty(), "gives {:?} after resolving {:?}", e.kind(), d.asked()) }
            if let Some(s) = &sign { if !model_is_did(s) {
                let e = block_on(m.pack_signed(s, &d, &k)).map(|_| ()).map_err(|e| e.kind());
                vcheck!(e == Err(ErrorKind::IllegalArgument), "pack_signed gives {:?}", e) } }
            Ok(()) });
        // the same addresses with documents and secrets: what is allowed is packed
        if r.chance(1, 8) { ctx.case("allowed addresses are packed", json!({"to": to, "from": from, "mto": mto, "mfrom": mfrom}), good, || {
            if !good || to.contains('#') || from.as_deref().map_or(false, |f| f.contains('#')) { return Ok(()) }
            let mut m = Message::build("1".into(), "t".into(), json!({})).finalize(); m.to = mto.clone(); m.from = mfrom.clone();
            let mut rr = Rng::new(7); let mut docs: Vec<DIDDoc> = vec![]; let mut secrets = vec![];
            for d in [Some(to.clone()), from.clone()].iter().flatten() { if docs.iter().any(|x| x.id == *d) { continue } let k = Key::gen(&mut rr, Kind::X); let id = format!("{}#1", d); let mut x = doc(d); x.key_agreement.push(id.clone()); x.verification_method.push(k.vm(&id, 0)); secrets.push(k.secret(&id, 0)); docs.push(x) }
            block_on(m.pack_encrypted(&to, from.as_deref(), None, &Dids::new(docs), &Keys { secrets, broken: false }, &PackEncryptedOptions::default())).map(|_| ()).map_err(|e| format!("refused: {}", e)) }) }
    }
}

/// DIDs with one X25519 key each
fn towns(r: &mut Rng, n: usize) -> Vec<(String, String, Key, DIDDoc)> { (0..n).map(|i| { let did = format!("did:t:m{}", i); let kid = format!("{}#k", did); let k = Key::gen(r, Kind::X); let mut d = doc(&did); d.key_agreement.push(kid.clone()); d.verification_method.push(k.vm(&kid, i)); (did, kid, k, d) }).collect() }
fn headers(r: &mut Rng) -> Option<HashMap<String, Value>> { match r.below(3) { 0 => None, 1 => Some(HashMap::new()), _ => Some((0..1 + r.below(3)).map(|_| (format!("x-{}", r.ident()), any_json(r, 1))).collect()) } }
/// opens one layer, checks the forward message in it, and gives what it carries
fn peel(text: &str, kid: &str, key: &Key, next: &str, h: &Option<HashMap<String, Value>>, enc: &str) -> Result<Value, String> {
    let o = open_jwe(text, kid, key, None)?;
    vcheck!(o.header["alg"] == "ECDH-ES+A256KW" && o.header["enc"] == enc, "header {}", o.header);
    vcheck!(o.kids == vec![kid.to_string()], "encrypted for {:?}", o.kids);
    let v: Value = serde_json::from_slice(&o.text).map_err(|e| e.to_string())?;
    let m = v.as_object().ok_or("not an object")?;
    let mut want: Map<String, Value> = Map::new();
    for (k, x) in h.iter().flatten() { want.insert(k.clone(), x.clone()); }
    want.insert("id".into(), m.get("id").cloned().unwrap_or(Value::Null)); want.insert("type".into(), json!(FORWARD)); want.insert("typ".into(), json!("application/didcomm-plain+json")); want.insert("body".into(), json!({"next": next})); want.insert("attachments".into(), m.get("attachments").cloned().unwrap_or(Value::Null));
    vcheck!(*m == want, "forward message {}", v);
    vcheck!(m["id"].as_str().map_or(false, |i| !i.is_empty()), "id {}", m["id"]);
    let a = m["attachments"].as_array().ok_or("attachments")?; vcheck!(a.len() == 1, "{} attachments", a.len());
    let payload = a[0]["data"]["json"].clone();
    let parsed: Message = serde_json::from_slice(&o.text).map_err(|e| e.to_string())?;
    let f = try_parse_forward(&parsed).ok_or("not recognised")?;
    vcheck!(f.next == next && f.forwarded_msg == payload && f.msg == &parsed, "recognised as {:?} {:?}", f.next, f.forwarded_msg);
    Ok(payload)
}
fn anon(i: usize) -> (AnonCryptAlg, &'static str) { match i { 0 => (AnonCryptAlg::A256cbcHs512EcdhEsA256kw, "A256CBC-HS512"), 1 => (AnonCryptAlg::Xc20pEcdhEsA256kw, "XC20P"), _ => (AnonCryptAlg::A256gcmEcdhEsA256kw, "A256GCM") } }

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "onions for 0 to 24 routing keys, peeled layer by layer with an independent decryptor; non-trivial: at least two keys".into(); ctx.bound = "24 routing keys, repeated ones included, X25519 keys in three forms".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(400) {
        let ts = towns(&mut r, 4); let n = if r.chance(1, 20) { 5 + r.below(20) } else { r.below(5) };
        let route: Vec<usize> = (0..n).map(|_| r.below(4)).collect(); let h = headers(&mut r); let to = format!("did:z:{}", r.ident()); let payload = if r.chance(1, 4) { any_json(&mut r, 2) } else { json!({"ciphertext": r.text()}) }; let alg = r.below(3);
        let keys: Vec<String> = route.iter().map(|i| if r.flip() { ts[*i].0.clone() } else { ts[*i].1.clone() }).collect();
        ctx.case("onion", json!({"route": keys, "headers": h, "to": to, "payload": payload, "alg": alg}), n > 1, || {
            let d = Dids::new(ts.iter().map(|t| t.3.clone()).collect());
            let msg = payload.to_string();
            let out = block_on(wrap_in_forward(&msg, h.as_ref(), &to, &keys, &anon(alg).0, &d)).map_err(|e| e.to_string())?;
            if n == 0 { vcheck!(out == msg, "not the message itself"); return Ok(()) }
            let mut cur = out;
            for i in 0..n {
                let next = if i + 1 < n { keys[i + 1].clone() } else { to.clone() };
                let p = peel(&cur, &ts[route[i]].1, &ts[route[i]].2, &next, &h, anon(alg).1).map_err(|e| format!("layer {}: {}", i, e))?;
                if i + 1 == n { vcheck!(p == payload, "innermost carries {}", p) } cur = p.to_string();
            }
            Ok(()) });
    }
    for bad in ["", "{", "nonsense", "\u{0}"] { ctx.case("not JSON", json!(bad), true, || { let ts = towns(&mut Rng::new(1), 1); let d = Dids::new(vec![ts[0].3.clone()]);
        match block_on(wrap_in_forward(bad, None, "did:a:b", &vec![ts[0].0.clone()], &AnonCryptAlg::default(), &d)) { Err(e) if e.kind() == ErrorKind::Malformed => Ok(()), x => Err(format!("{:?}", x.map_err(|e| e.kind()))) } }) }
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "messages that are forward messages but for one thing, and messages that are; built ones opened and recognised; non-trivial: the type is the forward type".into(); ctx.bound = "up to 3 attachments, bodies of depth 2".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(20000) {
        let ty = match r.below(7) { 6 => r.near(FORWARD), 0 => r.text(), 1 => format!("{}/", FORWARD), 2 => FORWARD.to_uppercase(), _ => FORWARD.to_string() };
        let next = r.text();
        let body = match r.below(7) { 0 => any_json(&mut r, 2), 1 => json!({"next": any_json(&mut r, 1)}), 2 => json!({"Next": next}), 3 => json!([{"next": next}]), _ => json!({"next": next, "x": any_json(&mut r, 1)}) };
        let mut ats = vec![]; for _ in 0..r.below(4) { ats.push(match r.below(4) { 0 => Attachment::base64(r.plain()).finalize(), 1 => Attachment::links(vec![r.plain()], r.plain()).finalize(), _ => Attachment::json(any_json(&mut r, 2)).finalize() }) }
        let none = r.chance(1, 6);
        ctx.case("recognition", json!({"type": ty, "body": body, "attachments": if none { Value::Null } else { json!(ats) }}), ty == FORWARD, || {
            let mut m = Message::build("1".into(), ty.clone(), body.clone()).finalize(); m.attachments = if none { None } else { Some(ats.clone()) };
            let want = if ty == FORWARD && !none { match (body.get("next").filter(|_| body.is_object()), ats.first()) { (Some(Value::String(n)), Some(a)) => match &a.data { AttachmentData::Json { value } => Some((n.clone(), value.json.clone())), _ => None }, _ => None } } else { None };
            let got = try_parse_forward(&m).map(|p| (p.next.clone(), p.forwarded_msg.clone(), p.msg == &m));
            vcheck!(got == want.clone().map(|w| (w.0, w.1, true)), "got {:?}, not {:?}", got, want); Ok(()) });
    }
    for _ in 0..ctx.n(40) { let ts = towns(&mut r, 1); let h = headers(&mut r); let to = didish(&mut r); let payload = any_json(&mut r, 3); let alg = r.below(3);
        ctx.case("built and recognised", json!({"to": to, "headers": h, "payload": payload}), true, || {
            let d = Dids::new(vec![ts[0].3.clone()]);
            let out = block_on(wrap_in_forward(&payload.to_string(), h.as_ref(), &to, &vec![ts[0].0.clone()], &anon(alg).0, &d)).map_err(|e| e.to_string())?;
            let p = peel(&out, &ts[0].1, &ts[0].2, &to, &h, anon(alg).1)?; vcheck!(p == payload, "carries {}", p); Ok(()) }) }
}

// ---- the service: a model of C11 ----
fn usable(s: &Service) -> bool { match &s.service_endpoint { ServiceKind::DIDCommMessaging { value } => match &value.accept { None => true, Some(a) => a.is_empty() || a.iter().any(|x| x == "didcomm/v2") }, _ => false } }
fn m_find(d: &Dids, did: &str, id: Option<&str>) -> Result<Option<(String, String, Vec<String>)>, ErrorKind> {
    if d.broken.iter().any(|b| b == did) { return Err(ErrorKind::IoError) }
    let doc = d.docs.iter().find(|x| x.id == did).ok_or(ErrorKind::DIDNotResolved)?;
    let full = |s: &Service| match &s.service_endpoint { ServiceKind::DIDCommMessaging { value } => (s.id.clone(), value.uri.clone(), value.routing_keys.clone()), _ => unreachable!() };
    match id { Some(id) => match doc.service.iter().find(|s| s.id == id) { Some(s) if usable(s) => Ok(Some(full(s))), _ => Err(ErrorKind::IllegalArgument) }, None => Ok(doc.service.iter().find(|s| usable(s)).map(full)) }
}
/// None: not wrapped; otherwise service id, endpoint and route
fn m_route(d: &Dids, to: &str, id: Option<&str>) -> Result<Option<(String, String, Vec<String>)>, ErrorKind> {
    let s = match m_find(d, to.split('#').next().unwrap(), id)? { None => return Ok(None), Some(s) => s };
    if !model_is_did(&s.1) { return Ok(if s.2.is_empty() { None } else { Some((s.0, s.1, s.2)) }) }
    let t = m_find(d, &s.1, None)?.ok_or(ErrorKind::InvalidState)?;
    if model_is_did(&t.1) { return Err(ErrorKind::InvalidState) }
    let mut route = vec![s.1.clone()]; route.extend(s.2.clone()); Ok(Some((s.0, t.1, route)))
}
pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "recipient and mediator documents with services of both kinds, profiles, DID endpoints and missing documents, against a model; the route is read off the onion; non-trivial: a service exists".into(); ctx.bound = "4 mediators, up to 3 services each, up to 3 routing keys".into();
    let mut r = Rng::new(ctx.seed);
    let base = towns(&mut r, 4);
    for _ in 0..ctx.n(9000) {
        let svc = |r: &mut Rng, did: &str, n: usize| -> Vec<Service> { (0..n).map(|i| { let id = format!("{}#s{}", did, if r.chance(1, 8) { 0 } else { i }); if r.chance(1, 5) { Service { id, service_endpoint: ServiceKind::Other { value: json!({"uri": "http://other", "accept": ["didcomm/v2"], "routingKeys": []}) } } } else {
            let uri = match r.below(6) { 0 | 1 => format!("did:t:m{}", r.below(5)), 2 => format!("did:t:m{}#k", r.below(4)), 3 => "did:x".into(), _ => format!("http://e{}", r.below(9)) };
            let accept = match r.below(6) { 0 => None, 1 => Some(vec![]), 2 => Some(vec!["didcomm/aip2;env=rfc19".into()]), 3 => Some(vec!["x".into(), "didcomm/v2".into()]), 4 => Some(vec!["didcomm/v2;x".into()]), _ => Some(vec!["didcomm/v2".into()]) };
            let uri = if r.chance(1, 12) { r.near(&uri) } else { uri }; let id = if r.chance(1, 8) { r.near(&id) } else { id };
            let accept = accept.map(|mut a: Vec<String>| { if r.chance(1, 8) { let t = r.near("didcomm/v2"); a.push(t) } a });
            let mut keys: Vec<String> = (0..r.below(3)).map(|_| format!("did:t:m{}{}", r.below(4), if r.flip() { "#k" } else { "" })).collect();
            // the same key twice on the route, the endpoint among the keys
            if !keys.is_empty() && r.chance(1, 5) { let i = r.below(keys.len()); let k = keys[i].clone(); let j = if r.flip() { i } else { r.below(keys.len() + 1) }; keys.insert(j, k) } if r.chance(1, 8) { keys.insert(0, uri.clone()) } didcomm_service(&id, &uri, accept, keys) } }).collect() };
        let mut docs: Vec<DIDDoc> = base.iter().map(|t| { let mut d = t.3.clone(); let n = r.below(3); d.service = svc(&mut r, &t.0, n); d }).collect();
        let mut bob = doc("did:t:bob"); let n = r.below(4); bob.service = svc(&mut r, "did:t:bob", n); if !r.chance(1, 20) { docs.push(bob) }
        let mut d = Dids::new(docs); if r.chance(1, 20) { d.broken.push(format!("did:t:m{}", r.below(4))) } if r.chance(1, 30) { d.broken.push("did:t:bob".into()) }
        let to = if r.flip() { "did:t:bob".to_string() } else { "did:t:bob#k1".into() }; let to = if r.chance(1, 15) { r.near(&to) } else { to };
        let id = if r.chance(1, 2) { let t = format!("did:t:bob#s{}", r.below(4)); Some(match r.below(14) { 0 | 1 => r.near(&t), 2 => "".into(), 3 => "#s0".into(), 4 => "s0".into(), _ => t }) } else { None };
        let off = r.chance(1, 10); let h = headers(&mut r); let alg = r.below(3); let payload = json!({"p": r.text()});
        let has = d.docs.last().map_or(false, |x| !x.service.is_empty());
        ctx.case("route", json!({"docs": d.docs, "broken": d.broken, "to": to, "service": id, "forward": !off, "headers": h}), has && !off, || {
            let o = PackEncryptedOptions { forward: !off, forward_headers: h.clone(), messaging_service: id.clone(), enc_alg_anon: anon(alg).0, ..Default::default() };
            let want = if off { Ok(None) } else { m_route(&d, &to, id.as_deref()) }; d.forget();
            let got = block_on(wrap_in_forward_if_needed(&payload.to_string(), &to, &d, &o));
            match (want, got) {
                (Err(k), Err(e)) => { vcheck!(e.kind() == k, "error {:?}, not {:?}", e.kind(), k); }
                (Ok(None), Ok(None)) => { if off { vcheck!(d.asked().is_empty(), "resolved {:?}", d.asked()) } }
                (Ok(Some((sid, ep, route))), Ok(Some((out, meta)))) => {
                    vcheck!(meta.id == sid && meta.service_endpoint == ep, "metadata {:?}, not {} {}", meta, sid, ep);
                    let mut cur = out;
                    for i in 0..route.len() {
                        let t = base.iter().find(|t| t.0 == route[i] || t.1 == route[i]).ok_or(format!("route {:?} cannot be encrypted for", route))?;
                        let next = if i + 1 < route.len() { route[i + 1].clone() } else { to.clone() };
                        let p = peel(&cur, &t.1, &t.2, &next, &h, anon(alg).1).map_err(|e| format!("hop {} of {:?}: {}", i, route, e))?;
                        if i + 1 == route.len() { vcheck!(p == payload, "innermost carries {}", p) } cur = p.to_string();
                    } }
                // a route through keys that cannot be encrypted for is refused
                (Ok(Some((_, _, route))), Err(e)) => { vcheck!(route.iter().any(|k| !base.iter().any(|t| t.0 == *k || t.1 == *k) || d.broken.iter().any(|b| k.starts_with(b.as_str()))), "refused: {}", e); }
                (w, g) => return Err(format!("gives {:?}, not {:?}", g.map(|x| x.map(|y| y.1)).map_err(|e| e.to_string()), w)),
            } Ok(()) });
    }
}
