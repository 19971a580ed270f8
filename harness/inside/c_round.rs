use super::base::*;
use super::c_crypt::*;
use super::world::*;
use crate::algorithms::{AuthCryptAlg, SignAlg};
use crate::message::{FromPrior, Message, PackEncryptedOptions, UnpackMetadata, UnpackOptions};
use crate::protocols::routing::try_parse_forward;
use crate::{Attachment, Message as M};
use serde_json::{json, Value};

/// a party whose document and secrets are in order: one method and one secret under each id
fn sound(r: &mut Rng, did: &str, agree: &[Kind], auth: &[Kind]) -> Party {
    let mut d = doc(did); let mut keys: Vec<(String, Key)> = vec![];
    for (n, (list, is_auth)) in [(agree, false), (auth, true)].iter().enumerate() { for (i, k) in list.iter().enumerate() {
        let id = match r.below(5) { 0 => format!("{}#{}{}", did, n, "x".repeat(i)), 1 => format!("{}#key-{}{}", did, if *is_auth { "s" } else { "" }, i), _ => format!("{}#{}{}", did, if *is_auth { "s" } else { "k" }, i) };
        let key = Key::gen(r, *k); let f = r.below(3); d.verification_method.push(key.vm(&id, f)); if *is_auth { d.authentication.push(id.clone()) } else { d.key_agreement.push(id.clone()) } keys.push((id, key)); } }
    if r.chance(1, 3) { r.shuffle(&mut d.verification_method) } if r.chance(1, 3) { r.shuffle(&mut d.key_agreement) } if r.chance(1, 3) { r.shuffle(&mut d.authentication) }
    Party { doc: d, keys }
}
fn kinds(r: &mut Rng, from: &[Kind], most: usize) -> Vec<Kind> { (0..1 + r.below(most)).map(|_| *r.pick(from)).collect() }
fn store(r: &mut Rng, p: &Party, keep: impl Fn(&str) -> bool) -> Store { let secrets: Vec<_> = p.keys.iter().filter(|k| keep(&k.0)).map(|(id, k)| { let f = r.below(3); k.secret(id, f) }).collect(); Store { lists: secrets.iter().map(|s| s.id.clone()).collect(), secrets, broken_find: false, broken_get: false } }
fn attachment(r: &mut Rng) -> Attachment {
    macro_rules! with { ($b:expr) => {{ let mut b = $b; if r.flip() { b = b.id(r.text()) } if r.chance(1, 3) { b = b.description(r.text()) } if r.chance(1, 3) { b = b.filename(r.text()) } if r.chance(1, 3) { b = b.media_type(r.text()) } if r.chance(1, 3) { b = b.format(r.text()) } if r.chance(1, 3) { b = b.lastmod_time(r.next()) } if r.chance(1, 3) { b = b.byte_count(r.next()) } if r.chance(1, 3) { b = b.jws(r.text()) } b.finalize() }} }
    match r.below(3) { 0 => with!(Attachment::base64(r.text())), 1 => with!(Attachment::json(any_json(r, 3))), _ => with!(Attachment::links((0..r.below(3)).map(|_| r.text()).collect(), r.text())) }
}
const TAKEN: [&str; 18] = ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments", "protected", "recipients", "iv", "ciphertext", "payload", "signatures"];
fn message(r: &mut Rng, from: Option<&str>, to: Option<Vec<String>>) -> Message {
    let mut m = M::build(r.text(), r.text(), any_json(r, 3)).finalize();
    m.from = from.map(|f| f.to_string()); m.to = to;
    if r.chance(1, 3) { m.thid = Some(r.text()) } if r.chance(1, 3) { m.pthid = Some(r.text()) } if r.chance(1, 3) { m.created_time = Some(r.next()) } if r.chance(1, 3) { m.expires_time = Some(r.next()) }
    if r.chance(1, 3) { m.attachments = Some((0..r.below(4)).map(|_| attachment(r)).collect()) }
    if r.chance(1, 3) { for _ in 0..1 + r.below(3) { let k = if r.flip() { r.ident() } else { r.text() }; if !TAKEN.contains(&k.as_str()) { m.extra_headers.insert(k, any_json(r, 2)); } } }
    m
}
fn fail<'a>(what: &'a str) -> impl Fn(crate::error::Error) -> String + 'a { move |e| format!("{}: {:?} {}", what, e.kind(), e) }
fn signer_alg(p: &Party, kid: &str) -> Option<SignAlg> { p.keys.iter().find(|k| k.0 == kid).and_then(|k| match k.1.kind { Kind::Ed => Some(SignAlg::EdDSA), Kind::P => Some(SignAlg::ES256), Kind::K => Some(SignAlg::ES256K), Kind::X => None }) }
struct Layers<'a> { to_kids: Option<&'a Vec<String>>, from_kid: Option<&'a String>, anon: Option<&'a crate::algorithms::AnonCryptAlg>, signer: Option<(&'a str, SignAlg)>, claim: Option<&'a (FromPrior, String)> }
fn same(m: &Message, l: &Layers, got: Result<(Message, UnpackMetadata), crate::error::Error>) -> Result<(), String> {
    let (x, meta) = got.map_err(fail("not unpacked"))?;
    vcheck!(x == *m, "the message came back as {}", serde_json::to_value(&x).unwrap());
    vcheck!(serde_json::to_value(&x).unwrap() == serde_json::to_value(m).unwrap(), "came back with other JSON");
    let want = UnpackMetadata { encrypted: l.to_kids.is_some(), authenticated: l.from_kid.is_some() || l.signer.is_some(), non_repudiation: l.signer.is_some(), anonymous_sender: l.anon.is_some(), re_wrapped_in_forward: false,
        encrypted_from_kid: l.from_kid.cloned(), encrypted_to_kids: l.to_kids.cloned(), sign_from: l.signer.as_ref().map(|s| s.0.to_string()), from_prior_issuer_kid: l.claim.map(|c| c.1.clone()), enc_alg_auth: l.from_kid.map(|_| AuthCryptAlg::A256cbcHs512Ecdh1puA256kw),
        enc_alg_anon: l.anon.cloned(), sign_alg: l.signer.as_ref().map(|s| s.1.clone()), signed_message: meta.signed_message.clone(), from_prior: l.claim.map(|c| c.0.clone()) };
    vcheck!(meta == want, "metadata {:?}, not {:?}", meta, want);
    match (&l.signer, &meta.signed_message) { (None, None) => Ok(()), (Some(_), Some(t)) => { let v: Value = serde_json::from_str(t).map_err(|e| e.to_string())?; let b: Value = serde_json::from_slice(&unb64(v["payload"].as_str().ok_or("payload")?)?).map_err(|e| e.to_string())?; vcheck!(b == serde_json::to_value(m).unwrap(), "the signed text holds {}", b); Ok(()) } x => Err(format!("signed text {:?}", x.1)) }
}
pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "whole messages packed by one party in every form, carried over generated mediators and unpacked by the other; non-trivial: encrypted or signed".into();
    ctx.bound = "up to three (now and then forty) key agreement and three authentication keys per party, up to four hops, messages of up to about 1 MB".into();
    let mut r = Rng::new(ctx.seed); let all = [Kind::X, Kind::P]; let auth = [Kind::Ed, Kind::P, Kind::K];
    for _ in 0..ctx.n(700) {
        // one key agreement kind serves both, others may be there as well
        let common = *r.pick(&all); let mut ak = kinds(&mut r, &all, 2); let i = r.below(ak.len() + 1); ak.insert(i, common); let bk = if r.flip() { vec![common; 1 + r.below(3)] } else { let mut k = vec![common]; k.extend(kinds(&mut r, &all, 2)); if r.flip() { k.reverse() } k }; let bk = if r.chance(1, 30) { vec![common; some_count(&mut r)] } else { bk };
        let sk = kinds(&mut r, &auth, 3); let a = sound(&mut r, "did:a:alice", &ak, &sk); let bs = kinds(&mut r, &auth, 1); let mut b = sound(&mut r, "did:b:bob", &bk, &bs);
        let ok = [*r.pick(&auth)]; let old = sound(&mut r, "did:a:old", &[Kind::X], &ok);
        let meds: Vec<Party> = (0..3).map(|i| { let k = [*r.pick(&all)]; let did = format!("did:m:m{}", i); sound(&mut r, &did, &k, &[]) }).collect();
        // services: routing keys, and maybe a mediator's DID as the endpoint
        let mut route: Vec<(usize, String)> = vec![]; let mut docs: Vec<_> = meds.iter().map(|m| m.doc.clone()).collect(); let mut endpoint = "https://bob".to_string();
        let mailed = r.flip();
        if mailed {
            for _ in 0..r.below(4) { let i = r.below(3); let k = if r.flip() { meds[i].doc.id.clone() } else { meds[i].keys[0].0.clone() }; route.push((i, k)) }
            let keys: Vec<String> = route.iter().map(|x| x.1.clone()).collect();
            let accept = match r.below(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec!["x".to_string(), "didcomm/v2".into()]) };
            if r.chance(1, 3) { let i = r.below(3); let did = meds[i].doc.id.clone(); b.doc.service.push(didcomm_service("did:b:bob#s", &did, accept, keys)); endpoint = format!("https://m{}", i); docs[i].service.push(didcomm_service(&format!("{}#s", did), &endpoint, None, vec![])); route.insert(0, (i, did)); }
            else { b.doc.service.push(didcomm_service("did:b:bob#s", &endpoint, accept, keys)) }
        }
        // who signs need not be who sends
        let zk = kinds(&mut r, &auth, 2); let z = if r.chance(1, 4) { Some(sound(&mut r, "did:s:signer", &[], &zk)) } else { None };
        docs.extend(vec![a.doc.clone(), b.doc.clone(), old.doc.clone()]); docs.extend(z.iter().map(|z| z.doc.clone())); r.shuffle(&mut docs); let dids = Dids::new(docs);
        let mut a = a; if let Some(z) = &z { a.keys.extend(z.keys.iter().cloned()) }
        let sa = store(&mut r, &a, |_| true);
        let mut to_list = vec!["did:b:bob".to_string()]; if r.chance(1, 3) { let i = r.below(2); to_list.insert(i, "did:c:c".into()) }
        let mfrom = if r.chance(3, 4) { Some("did:a:alice") } else { None };
        let to_list = if r.flip() { Some(to_list) } else { None }; let mut m = message(&mut r, mfrom, to_list); if r.chance(1, 20) { m.body = json!(some_bulk(&mut r)) }
        let mut claim = None;
        if r.chance(1, 4) { let fp = FromPrior { iss: "did:a:old".into(), sub: "did:a:alice".into(), aud: if r.flip() { Some(r.plain()) } else { None }, exp: if r.flip() { Some(r.next()) } else { None }, nbf: None, iat: if r.flip() { Some(r.next()) } else { None }, jti: if r.flip() { Some(r.plain()) } else { None } };
            let s = store(&mut r, &old, |_| true); match block_on(fp.pack(None, &dids, &s)) { Ok((t, k)) => { m.from_prior = Some(t); claim = Some((fp, k)) } Err(e) => ctx.case("claim", json!({"claim": serde_json::to_value(&fp).unwrap()}), true, || Err(fail("claim not packed")(e))) } }
        let sd = z.as_ref().map_or(&a.doc, |z| &z.doc); let by = if r.chance(1, 3) { r.pick(&sd.authentication).clone() } else { sd.id.clone() };
        let uo = UnpackOptions { expect_decrypt_by_all_keys: r.flip(), unwrap_re_wrapping_forward: r.flip() };
        let nobody = Store { lists: vec![], secrets: vec![], broken_find: false, broken_get: false };
        let base = json!({"message": serde_json::to_value(&m).unwrap(), "docs": serde_json::to_value(&dids.docs).unwrap(), "sender's secrets": serde_json::to_value(&sa.secrets).unwrap(), "all keys": uo.expect_decrypt_by_all_keys, "unwrap": uo.unwrap_re_wrapping_forward});
        if r.chance(1, 4) { ctx.case("plaintext", base.clone(), m.from_prior.is_some(), || { let t = block_on(m.pack_plaintext(&dids)).map_err(fail("not packed"))?; same(&m, &Layers { to_kids: None, from_kid: None, anon: None, signer: None, claim: claim.as_ref() }, block_on(Message::unpack(&t, &dids, &nobody, &uo))) }) }
        if r.chance(1, 3) { let mut inp = base.clone(); inp["sign_by"] = json!(by); ctx.case("signed", inp, true, || { let (t, k) = block_on(m.pack_signed(&by, &dids, &sa)).map_err(fail("not packed"))?;
            let alg = signer_alg(&a, &k.sign_by_kid).ok_or("signer")?; same(&m, &Layers { to_kids: None, from_kid: None, anon: None, signer: Some((&k.sign_by_kid, alg)), claim: claim.as_ref() }, block_on(Message::unpack(&t, &dids, &nobody, &uo))) }) }
        // encrypted; without a kind in common with the named key there is nothing to pack for
        let to = if r.chance(1, 4) { b.keys.iter().find(|k| k.1.kind == common).unwrap().0.clone() } else { "did:b:bob".to_string() };
        let from = match r.below(3) { 0 => None, 1 => Some(a.keys.iter().find(|k| k.1.kind == common).unwrap().0.clone()), _ => Some("did:a:alice".to_string()) };
        let by = if r.flip() { Some(by) } else { None };
        let anon = some_anon(&mut r);
        let o = PackEncryptedOptions { protect_sender: r.flip(), forward: r.chance(4, 5), forward_headers: if r.flip() { None } else { Some((0..r.below(3)).map(|i| (format!("x-{}{}", r.ident(), i), any_json(&mut r, 1))).collect()) }, messaging_service: if mailed && r.chance(1, 3) { Some("did:b:bob#s".into()) } else { None }, enc_alg_auth: AuthCryptAlg::default(), enc_alg_anon: anon.clone() };
        let keep = r.next(); let mopts: Vec<bool> = (0..8).map(|_| r.flip()).collect();
        let mut inp = base; inp["to"] = json!(to); inp["from"] = json!(from); inp["sign_by"] = json!(by); inp["options"] = json!({"protect_sender": o.protect_sender, "forward": o.forward, "headers": o.forward_headers, "service": o.messaging_service, "enc": anon_name(&anon)}); inp["keep"] = json!(keep);
        ctx.case("encrypted", inp, true, || {
            let (mut t, pm) = block_on(m.pack_encrypted(&to, from.as_deref(), by.as_deref(), &dids, &sa, &o)).map_err(fail("not packed"))?;
            vcheck!(pm.from_kid.is_some() == from.is_some() && pm.sign_by_kid.is_some() == by.is_some() && !pm.to_kids.is_empty(), "pack metadata {:?}", pm);
            // the recipient holds at least one of the secrets
            let sure = &pm.to_kids[(keep % pm.to_kids.len() as u64) as usize]; let mut rr = Rng::new(keep);
            let sb = store(&mut rr, &b, |k| k == sure || (keep >> 8 ^ hash(k)) % 2 == 0);
            let mailed = o.forward && !route.is_empty();
            vcheck!(pm.messaging_service.as_ref().map(|s| (s.id.as_str(), s.service_endpoint.as_str())) == if mailed { Some(("did:b:bob#s", endpoint.as_str())) } else { None }, "service {:?}", pm.messaging_service);
            if mailed { let mut i = 0; while i < route.len() {
                let mo = UnpackOptions { expect_decrypt_by_all_keys: mopts[i + 1], unwrap_re_wrapping_forward: mopts[i] };
                let sm = store(&mut rr, &meds[route[i].0], |_| true);
                let (f, fm) = block_on(Message::unpack(&t, &dids, &sm, &mo)).map_err(|e| format!("hop {}: {:?} {}", i, e.kind(), e))?;
                // forwards to the same mediator, one in the other, are all unwrapped at once where that is asked for
                let first = i; if mo.unwrap_re_wrapping_forward { while i + 1 < route.len() && route[i + 1].0 == route[i].0 { i += 1 } }
                let p = try_parse_forward(&f).ok_or(format!("hop {} gets no forward message", i))?; let next = if i + 1 < route.len() { &route[i + 1].1 } else { &to };
                vcheck!(p.next == *next, "hop {} is to pass to {}, not {}", i, p.next, next);
                vcheck!(fm.encrypted && fm.anonymous_sender && !fm.authenticated && !fm.non_repudiation && fm.encrypted_to_kids == Some(vec![meds[route[i].0].keys[0].0.clone()]) && fm.enc_alg_anon.as_ref() == Some(&anon) && fm.re_wrapped_in_forward == (i > first), "hop {}: {:?}", i, fm);
                vcheck!(o.forward_headers.iter().flatten().all(|(k, v)| f.extra_headers.get(k) == Some(v)) && f.extra_headers.len() == o.forward_headers.as_ref().map_or(0, |h| h.len()), "hop {} has headers {:?}", i, f.extra_headers);
                t = p.forwarded_msg.to_string(); i += 1;
            } }
            let signer = match &pm.sign_by_kid { None => None, Some(k) => Some((k.as_str(), signer_alg(&a, k).ok_or("signer")?)) };
            same(&m, &Layers { to_kids: Some(&pm.to_kids), from_kid: pm.from_kid.as_ref(), anon: if from.is_none() || o.protect_sender { Some(&anon) } else { None }, signer, claim: claim.as_ref() }, block_on(Message::unpack(&t, &dids, &sb, &uo)))
        });
    }
}
