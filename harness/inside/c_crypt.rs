use super::base::*;
use super::world::*;
use crate::algorithms::{AnonCryptAlg, AuthCryptAlg};
use crate::did::{DIDDoc, VerificationMaterial, VerificationMethod, VerificationMethodType};
use crate::error::{err_msg, Error, ErrorKind};
use crate::message::{Message, PackEncryptedOptions};
use crate::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use async_trait::async_trait;
use serde_json::{json, Value};

/// a store whose list of found ids and whose secrets need not agree
pub struct Store { pub lists: Vec<String>, pub secrets: Vec<Secret>, pub broken_find: bool, pub broken_get: bool }
#[cfg_attr(feature = "uniffi", async_trait)]
#[cfg_attr(not(feature = "uniffi"), async_trait(?Send))]
impl SecretsResolver for Store {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>, Error> { if self.broken_get { return Err(err_msg(ErrorKind::IoError, "get")) } Ok(self.secrets.iter().find(|s| s.id == id).cloned()) }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>, Error> { if self.broken_find { return Err(err_msg(ErrorKind::IllegalArgument, "find")) } Ok(ids.iter().filter(|i| self.lists.iter().any(|s| s == **i)).map(|i| *i).collect()) }
}
/// one party: its document and the keys under the ids in it (an id may have more than one key: the document's first counts)
pub struct Party { pub doc: DIDDoc, pub keys: Vec<(String, Key)> }
pub fn party(r: &mut Rng, did: &str, kinds: &[Kind], most: usize) -> Party {
    let mut d = doc(did); let mut keys = vec![];
    let n = if r.chance(1, 20) { 0 } else { 1 + r.below(most) };
    for i in 0..n {
        let id = match r.below(10) { 8 | 9 if i > 0 => { let (k, _): &(String, Key) = &keys[i - 1]; r.near(k) } 0 if i > 0 => { let (k, _): &(String, Key) = &keys[i - 1]; k.clone() } 1 => format!("{}#k{}x", did, i.saturating_sub(1)), 2 => format!("did:other:z#k{}", i), _ => format!("{}#k{}", did, i) };
        let kind = *r.pick(kinds); let k = Key::gen(r, kind); let f = r.below(3);
        let mut vm = k.vm(&id, f);
        match r.below(30) { 0 => vm.type_ = VerificationMethodType::Other, 1 => vm.verification_material = VerificationMaterial::JWK { public_key_jwk: json!({"kty": "OKP"}) }, 2 => if kind == Kind::X { vm = VerificationMethod { id: id.clone(), type_: VerificationMethodType::JsonWebKey2020, controller: did.into(), verification_material: VerificationMaterial::JWK { public_key_jwk: json!({"kty": "OKP", "crv": "X25519", "x": "AA"}) } } }, _ => {} }
        if !r.chance(1, 25) { d.verification_method.push(vm) }
        if !r.chance(1, 8) { d.key_agreement.push(id.clone()) }
        if r.chance(1, 8) { d.authentication.push(id.clone()) }
        keys.push((id, k));
    }
    if r.chance(1, 40) { d.key_agreement.push(format!("{}#nowhere", did)) }
    if r.chance(1, 4) { r.shuffle(&mut d.key_agreement) }
    if r.chance(1, 3) { r.shuffle(&mut d.verification_method) }
    Party { doc: d, keys }
}
/// a party with nothing odd about it
pub fn calm_party(r: &mut Rng, did: &str, kinds: &[Kind], n: usize) -> Party {
    let mut d = doc(did); let mut keys = vec![]; let first = r.below(kinds.len());
    for i in 0..n {
        let id = format!("{}#k{}", did, i); let kind = kinds[(first + i) % kinds.len()]; let k = Key::gen(r, kind); let f = r.below(3);
        d.verification_method.push(k.vm(&id, f));
        if kind == Kind::X || kind == Kind::P { d.key_agreement.push(id.clone()) }
        if kind != Kind::X { d.authentication.push(id.clone()) }
        keys.push((id, k));
    }
    Party { doc: d, keys }
}
/// a number of keys: few, as a rule
pub fn some_count(r: &mut Rng) -> usize { match r.below(24) { 0 => 17 + r.below(24), 1 => 6 + r.below(11), _ => 1 + r.below(5) } }
/// a text: as a rule short, but now and then large
pub fn some_bulk(r: &mut Rng) -> String { let n = *r.pick(&[257usize, 1025, 4097, 16500, 33000, 70000, 140000, 300000, 1_100_000]); let c = *r.pick(&["a", "é", "{", "z "]); c.repeat(n / c.len() + r.below(3)) }
/// the key type that a verification method declares
pub fn kind_of(v: &VerificationMethod) -> Option<Kind> { match (&v.type_, &v.verification_material) {
    (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: j }) => match (j["kty"].as_str(), j["crv"].as_str()) { (Some("EC"), Some("P-256")) => Some(Kind::P), (Some("EC"), Some("secp256k1")) => Some(Kind::K), (Some("OKP"), Some("Ed25519")) => Some(Kind::Ed), (Some("OKP"), Some("X25519")) => Some(Kind::X), _ => None },
    (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::Base58 { .. }) | (VerificationMethodType::X25519KeyAgreementKey2020, VerificationMaterial::Multibase { .. }) => Some(Kind::X),
    (VerificationMethodType::Ed25519VerificationKey2018, VerificationMaterial::Base58 { .. }) | (VerificationMethodType::Ed25519VerificationKey2020, VerificationMaterial::Multibase { .. }) => Some(Kind::Ed),
    _ => None } }
pub fn method<'a>(d: &'a DIDDoc, id: &str) -> Option<&'a VerificationMethod> { d.verification_method.iter().find(|v| v.id == id) }
/// the generated key that this method is a form of
pub fn key_of<'a>(p: &'a Party, v: &VerificationMethod) -> Option<&'a Key> { p.keys.iter().filter(|k| k.0 == v.id).map(|k| &k.1).find(|k| (0..3).any(|f| serde_json::to_value(k.vm(&v.id, f)).unwrap() == serde_json::to_value(v).unwrap())) }
pub fn secret_key<'a>(p: &'a Party, s: &Secret) -> Option<&'a Key> { p.keys.iter().filter(|k| k.0 == s.id).map(|k| &k.1).find(|k| (0..3).any(|f| serde_json::to_value(k.secret(&s.id, f)).unwrap() == serde_json::to_value(s).unwrap())) }
pub fn anon_name(a: &AnonCryptAlg) -> &'static str { match a { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256CBC-HS512", AnonCryptAlg::Xc20pEcdhEsA256kw => "XC20P", AnonCryptAlg::A256gcmEcdhEsA256kw => "A256GCM" } }
pub fn some_anon(r: &mut Rng) -> AnonCryptAlg { match r.below(3) { 0 => AnonCryptAlg::A256cbcHs512EcdhEsA256kw, 1 => AnonCryptAlg::Xc20pEcdhEsA256kw, _ => AnonCryptAlg::A256gcmEcdhEsA256kw } }
fn meant(d: &DIDDoc, addr: &str) -> Vec<String> { d.key_agreement.iter().filter(|k| !addr.contains('#') || *k == addr).cloned().collect() }
pub fn did_like(s: &str) -> bool { s.starts_with("did:") && s.matches(':').count() >= 2 }
/// what packing has to give: the recipients' methods and the sender's, or the error kind (None: some error)
pub enum Want { To(Vec<VerificationMethod>, Option<(String, Secret)>), Err(Option<ErrorKind>) }
pub fn wanted(ps: &[&Party], dids: &Dids, st: &Store, to: &str, from: Option<&str>) -> Want {
    let look = |a: &str| -> Result<DIDDoc, ErrorKind> { let d = a.split('#').next().unwrap(); if dids.broken.iter().any(|b| b == d) { Err(ErrorKind::IoError) } else { dids.docs.iter().find(|x| x.id == d).cloned().ok_or(ErrorKind::DIDNotResolved) } };
    let fail = |k: ErrorKind| Want::Err(Some(k));
    let td = match look(to) { Ok(d) => d, Err(k) => return fail(k) };
    let (kind, from) = match from {
        None => {
            let ids = meant(&td, to); if ids.is_empty() { return fail(ErrorKind::DIDUrlNotFound) }
            if ids.iter().any(|i| method(&td, i).is_none()) { return fail(ErrorKind::Unsupported) }
            match ids.iter().filter_map(|i| kind_of(method(&td, i).unwrap())).next() { Some(k) if k == Kind::X || k == Kind::P => (k, None), _ => return fail(ErrorKind::InvalidState) }
        }
        Some(f) => {
            let fd = match look(f) { Ok(d) => d, Err(k) => return fail(k) };
            let own = meant(&fd, f); if own.is_empty() { return fail(ErrorKind::DIDUrlNotFound) }
            if st.broken_find { return fail(ErrorKind::IllegalArgument) }
            let own: Vec<String> = own.into_iter().filter(|i| st.lists.contains(i)).collect();
            if own.is_empty() { return fail(ErrorKind::SecretNotFound) }
            if own.iter().any(|i| method(&fd, i).is_none()) { return fail(ErrorKind::Malformed) }
            let ids = meant(&td, to); if ids.is_empty() { return fail(ErrorKind::DIDUrlNotFound) }
            if ids.iter().any(|i| method(&td, i).is_none()) { return fail(ErrorKind::Malformed) }
            let theirs: Vec<Option<Kind>> = ids.iter().map(|i| kind_of(method(&td, i).unwrap())).collect();
            let by = match own.iter().find(|i| { let k = kind_of(method(&fd, i).unwrap()); k.is_some() && theirs.contains(&k) }) { None => return fail(ErrorKind::NoCompatibleCrypto), Some(i) => i.clone() };
            if st.broken_get { return fail(ErrorKind::IoError) }
            let s = match st.secrets.iter().find(|s| s.id == by) { None => return fail(ErrorKind::InvalidState), Some(s) => s.clone() };
            let k = kind_of(method(&fd, &by).unwrap()).unwrap(); if k != Kind::X && k != Kind::P { return fail(ErrorKind::Unsupported) }
            if !ps.iter().any(|p| secret_key(p, &s).map(|x| x.kind) == Some(k)) { return Want::Err(None) }
            (k, Some((by, s)))
        }
    };
    let vms: Vec<VerificationMethod> = meant(&td, to).iter().map(|i| method(&td, i).unwrap().clone()).filter(|v| kind_of(v) == Some(kind)).collect();
    if vms.iter().any(|v| !ps.iter().any(|p| key_of(p, v).is_some())) { return Want::Err(None) }
    Want::To(vms, from)
}
/// opens the envelope as every one of these recipients; gives back what is inside
pub fn open_for(ps: &[&Party], text: &str, vms: &[VerificationMethod], sender: Option<(&str, &Key)>, enc: &str) -> Result<Vec<u8>, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let kids: Vec<String> = v["recipients"].as_array().ok_or("no recipients")?.iter().map(|x| x["header"]["kid"].as_str().unwrap_or("?").to_string()).collect();
    let ids: Vec<String> = vms.iter().map(|v| v.id.clone()).collect();
    vcheck!(kids == ids, "encrypted for {:?}, not {:?}", kids, ids);
    let mut out = None;
    for (i, vm) in vms.iter().enumerate() {
        if ids[..i].contains(&vm.id) { continue }
        let k = ps.iter().find_map(|p| key_of(p, vm)).ok_or("no key")?;
        let o = open_jwe(text, &vm.id, k, sender.map(|s| &s.1.jwk_pub)).map_err(|e| format!("as {}: {}", vm.id, e))?;
        vcheck!(o.header["alg"] == if sender.is_some() { "ECDH-1PU+A256KW" } else { "ECDH-ES+A256KW" } && o.header["enc"] == enc, "header {}", o.header);
        vcheck!(o.header.get("skid").and_then(|s| s.as_str()) == sender.map(|s| s.0) && o.apu.as_deref() == sender.map(|s| s.0.as_bytes()), "sender in header {}", o.header);
        vcheck!(out.is_none() || out.as_ref() == Some(&o.text), "recipients read different texts");
        out = Some(o.text);
    }
    out.ok_or("nobody".into())
}
pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "generated sender and recipient documents with shuffled, missing, duplicated, foreign and unusable keys and stores that know some of the secrets; a message is packed without forwarding and opened independently as every recipient; non-trivial: it was packed".into();
    ctx.bound = "up to five keys per party (now and then forty), messages of up to about 1 MB, four key kinds in every representation, three content encryptions".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(2500) {
        let few = r.chance(2, 3); let kinds: &[Kind] = if few { &[Kind::X, Kind::P] } else { &[Kind::X, Kind::P, Kind::Ed, Kind::K] };
        let calm = r.flip(); let (na, nb) = (some_count(&mut r), some_count(&mut r));
        let mut a = if calm { calm_party(&mut r, "did:a:alice", kinds, na) } else { party(&mut r, "did:a:alice", kinds, 4) }; let mut b = if calm { calm_party(&mut r, "did:b:bob:1", kinds, nb) } else { party(&mut r, "did:b:bob:1", kinds, 5) };
        if r.chance(1, 4) { r.shuffle(&mut a.doc.key_agreement); r.shuffle(&mut b.doc.key_agreement) } if r.chance(1, 4) { r.shuffle(&mut b.doc.verification_method) }
        let mut dids = Dids::new(vec![a.doc.clone(), b.doc.clone()]);
        match if calm { 25 } else { r.below(25) } { 0 => dids.broken.push("did:a:alice".into()), 1 => dids.broken.push("did:b:bob:1".into()), _ => {} }
        let mut secrets = vec![]; for (id, k) in a.keys.iter() { if r.chance(3, 4) { let f = r.below(3); secrets.push(k.secret(id, f)) } }
        if r.chance(1, if calm { 60 } else { 15 }) { if let Some(s) = secrets.first_mut() { if r.flip() { s.type_ = SecretType::Other } else { s.secret_material = SecretMaterial::JWK { private_key_jwk: json!({}) } } } }
        if r.chance(1, 4) { r.shuffle(&mut secrets) }
        let lists: Vec<String> = secrets.iter().map(|s| s.id.clone()).collect();
        if r.chance(1, 30) { secrets.clear() }
        let st = Store { lists, secrets, broken_find: r.chance(1, 40), broken_get: r.chance(1, 40) };
        let to = match r.below(11) { 9 | 10 => { let t = if b.keys.is_empty() || r.flip() { "did:b:bob:1".to_string() } else { r.pick(&b.keys).0.clone() }; r.near(&t) } 0 => "did:c:gone".to_string(), 1 => format!("did:b:bob:1#gone"), 2 | 3 if !b.keys.is_empty() => r.pick(&b.keys).0.clone(), 4 => "did:b:bob:1#k0x".into(), _ => "did:b:bob:1".into() };
        let from = match r.below(10) { 9 => { let t = if a.keys.is_empty() || r.flip() { "did:a:alice".to_string() } else { r.pick(&a.keys).0.clone() }; Some(r.near(&t)) } 0 | 1 => None, 2 => Some("did:c:gone#k0".to_string()), 3 | 4 if !a.keys.is_empty() => Some(r.pick(&a.keys).0.clone()), 5 => Some("did:a:alice#k0".into()), _ => Some("did:a:alice".into()) };
        let anon = some_anon(&mut r); let cover = r.flip();
        let text = r.text(); let m = Message::build("1".into(), "t".into(), json!({ "a": if r.chance(1, 40) { some_bulk(&mut r) } else { text } })).finalize();
        let plain = serde_json::to_value(&m).unwrap();
        let o = PackEncryptedOptions { protect_sender: cover, forward: false, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::default(), enc_alg_anon: anon.clone() };
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(m.pack_encrypted(&to, from.as_deref(), None, &dids, &st, &o))));
        let inp = json!({"to": to, "from": from, "protect_sender": cover, "enc": anon_name(&anon), "docs": serde_json::to_value(&dids.docs).unwrap(), "broken": dids.broken, "found": st.lists, "secrets": serde_json::to_value(&st.secrets).unwrap(), "find fails": st.broken_find, "get fails": st.broken_get});
        ctx.case("pack", inp, matches!(got, Ok(Ok(_))), || {
            let got = got.map_err(|_| "panic".to_string())?; let ps = [&b, &a];
            match if did_like(&to) && from.as_deref().map_or(true, did_like) { wanted(&ps, &dids, &st, &to, from.as_deref()) } else { Want::Err(Some(ErrorKind::IllegalArgument)) } {
                Want::Err(k) => match got { Ok(_) => Err(format!("packed, not refused as {:?}", k)), Err(e) => { vcheck!(k.is_none() || k == Some(e.kind()), "{:?} instead of {:?}: {}", e.kind(), k, e); Ok(()) } },
                Want::To(vms, by) => {
                    let (out, meta) = got.map_err(|e| format!("refused: {:?} {}", e.kind(), e))?;
                    let ids: Vec<String> = vms.iter().map(|v| v.id.clone()).collect();
                    vcheck!(meta.to_kids == ids, "to_kids {:?}, not {:?}", meta.to_kids, ids);
                    vcheck!(meta.from_kid == by.as_ref().map(|b| b.0.clone()) && meta.sign_by_kid.is_none() && meta.messaging_service.is_none(), "metadata {:?}", meta);
                    let inner = match by {
                        None => open_for(&ps, &out, &vms, None, anon_name(&anon))?,
                        Some((kid, s)) => { let k = ps.iter().find_map(|p| secret_key(p, &s)).ok_or("no secret")?;
                            let mid = if cover { String::from_utf8(open_for(&ps, &out, &vms, None, anon_name(&anon))?).map_err(|e| e.to_string())? } else { out };
                            open_for(&ps, &mid, &vms, Some((&kid, k)), "A256CBC-HS512")? }
                    };
                    let v: Value = serde_json::from_slice(&inner).map_err(|e| e.to_string())?;
                    vcheck!(v == plain, "inside {}", v); Ok(())
                }
            }
        });
    }
}
