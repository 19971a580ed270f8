use super::base::*;
use crate::did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType};
use crate::did::resolvers::ExampleDIDResolver;
use crate::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use crate::secrets::resolvers::ExampleSecretsResolver;
use serde_json::{json, Map, Value};

const TYPES: [&str; 7] = ["JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019", "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other"];
fn vm_type(n: usize) -> VerificationMethodType { match n { 0 => VerificationMethodType::JsonWebKey2020, 1 => VerificationMethodType::X25519KeyAgreementKey2019, 2 => VerificationMethodType::Ed25519VerificationKey2018, 3 => VerificationMethodType::EcdsaSecp256k1VerificationKey2019, 4 => VerificationMethodType::X25519KeyAgreementKey2020, 5 => VerificationMethodType::Ed25519VerificationKey2020, _ => VerificationMethodType::Other } }
fn vm_index(t: &VerificationMethodType) -> usize { match t { VerificationMethodType::JsonWebKey2020 => 0, VerificationMethodType::X25519KeyAgreementKey2019 => 1, VerificationMethodType::Ed25519VerificationKey2018 => 2, VerificationMethodType::EcdsaSecp256k1VerificationKey2019 => 3, VerificationMethodType::X25519KeyAgreementKey2020 => 4, VerificationMethodType::Ed25519VerificationKey2020 => 5, VerificationMethodType::Other => 6 } }
fn s_type(n: usize) -> SecretType { match n { 0 => SecretType::JsonWebKey2020, 1 => SecretType::X25519KeyAgreementKey2019, 2 => SecretType::Ed25519VerificationKey2018, 3 => SecretType::EcdsaSecp256k1VerificationKey2019, 4 => SecretType::X25519KeyAgreementKey2020, 5 => SecretType::Ed25519VerificationKey2020, _ => SecretType::Other } }
fn s_index(t: &SecretType) -> usize { match t { SecretType::JsonWebKey2020 => 0, SecretType::X25519KeyAgreementKey2019 => 1, SecretType::Ed25519VerificationKey2018 => 2, SecretType::EcdsaSecp256k1VerificationKey2019 => 3, SecretType::X25519KeyAgreementKey2020 => 4, SecretType::Ed25519VerificationKey2020 => 5, SecretType::Other => 6 } }

// ---- reference models, with their JSON written out by hand ----
#[derive(Clone, Debug)] enum RMat { J(Value), M(String), B(String) }
#[derive(Clone, Debug)] struct RVm { id: String, t: usize, controller: String, mat: RMat }
#[derive(Clone, Debug)] enum RKind { D(String, Option<Vec<String>>, Vec<String>), O(Map<String, Value>) }
#[derive(Clone, Debug)] struct RSvc { id: String, kind: RKind }
#[derive(Clone, Debug)] struct RDoc { id: String, ka: Vec<String>, auth: Vec<String>, vm: Vec<RVm>, svc: Vec<RSvc> }
#[derive(Clone, Debug)] struct RSec { id: String, t: usize, mat: RMat }
fn mat_json(m: &mut Map<String, Value>, x: &RMat, pre: &str) { match x { RMat::J(v) => m.insert(format!("{}KeyJwk", pre), v.clone()), RMat::M(s) => m.insert(format!("{}KeyMultibase", pre), json!(s)), RMat::B(s) => m.insert(format!("{}KeyBase58", pre), json!(s)) }; }
fn vm_json(v: &RVm) -> Value { let mut m = Map::new(); m.insert("id".into(), json!(v.id)); m.insert("type".into(), json!(TYPES[v.t])); m.insert("controller".into(), json!(v.controller)); mat_json(&mut m, &v.mat, "public"); Value::Object(m) }
fn sec_json(v: &RSec) -> Value { let mut m = Map::new(); m.insert("id".into(), json!(v.id)); m.insert("type".into(), json!(TYPES[v.t])); mat_json(&mut m, &v.mat, "private"); Value::Object(m) }
fn svc_json(v: &RSvc) -> Value {
    let (t, e) = match &v.kind { RKind::D(u, a, k) => { let mut m = Map::new(); m.insert("uri".into(), json!(u)); if let Some(a) = a { m.insert("accept".into(), json!(a)); } m.insert("routingKeys".into(), json!(k)); ("DIDCommMessaging", Value::Object(m)) } RKind::O(m) => ("Other", Value::Object(m.clone())) };
    json!({"id": v.id, "type": t, "serviceEndpoint": e}) }
fn doc_json(d: &RDoc) -> Value { json!({"id": d.id, "keyAgreement": d.ka, "authentication": d.auth, "verificationMethod": d.vm.iter().map(vm_json).collect::<Vec<_>>(), "service": d.svc.iter().map(svc_json).collect::<Vec<_>>()}) }
fn mat_eq(x: &VerificationMaterial, r: &RMat) -> bool { match (x, r) { (VerificationMaterial::JWK { public_key_jwk }, RMat::J(v)) => public_key_jwk == v, (VerificationMaterial::Multibase { public_key_multibase }, RMat::M(v)) => public_key_multibase == v, (VerificationMaterial::Base58 { public_key_base58 }, RMat::B(v)) => public_key_base58 == v, _ => false } }
fn smat_eq(x: &SecretMaterial, r: &RMat) -> bool { match (x, r) { (SecretMaterial::JWK { private_key_jwk }, RMat::J(v)) => private_key_jwk == v, (SecretMaterial::Multibase { private_key_multibase }, RMat::M(v)) => private_key_multibase == v, (SecretMaterial::Base58 { private_key_base58 }, RMat::B(v)) => private_key_base58 == v, _ => false } }
fn vm_eq(x: &VerificationMethod, r: &RVm) -> bool { x.id == r.id && vm_index(&x.type_) == r.t && x.controller == r.controller && mat_eq(&x.verification_material, &r.mat) }
fn sec_eq(x: &Secret, r: &RSec) -> bool { x.id == r.id && s_index(&x.type_) == r.t && smat_eq(&x.secret_material, &r.mat) }
fn svc_eq(x: &Service, r: &RSvc) -> bool { x.id == r.id && match (&x.service_endpoint, &r.kind) { (ServiceKind::DIDCommMessaging { value }, RKind::D(u, a, k)) => value.uri == *u && value.accept == *a && value.routing_keys == *k, (ServiceKind::Other { value }, RKind::O(m)) => *value == Value::Object(m.clone()), _ => false } }
fn doc_eq(x: &DIDDoc, r: &RDoc) -> bool { x.id == r.id && x.key_agreement == r.ka && x.authentication == r.auth && x.verification_method.len() == r.vm.len() && x.verification_method.iter().zip(&r.vm).all(|(a, b)| vm_eq(a, b)) && x.service.len() == r.svc.len() && x.service.iter().zip(&r.svc).all(|(a, b)| svc_eq(a, b)) }
fn mk_mat(r: &RMat) -> VerificationMaterial { match r { RMat::J(v) => VerificationMaterial::JWK { public_key_jwk: v.clone() }, RMat::M(v) => VerificationMaterial::Multibase { public_key_multibase: v.clone() }, RMat::B(v) => VerificationMaterial::Base58 { public_key_base58: v.clone() } } }
fn mk_smat(r: &RMat) -> SecretMaterial { match r { RMat::J(v) => SecretMaterial::JWK { private_key_jwk: v.clone() }, RMat::M(v) => SecretMaterial::Multibase { private_key_multibase: v.clone() }, RMat::B(v) => SecretMaterial::Base58 { private_key_base58: v.clone() } } }
fn mk_vm(r: &RVm) -> VerificationMethod { VerificationMethod { id: r.id.clone(), type_: vm_type(r.t), controller: r.controller.clone(), verification_material: mk_mat(&r.mat) } }
fn mk_svc(r: &RSvc) -> Service { Service { id: r.id.clone(), service_endpoint: match &r.kind { RKind::D(u, a, k) => ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: u.clone(), accept: a.clone(), routing_keys: k.clone() } }, RKind::O(m) => ServiceKind::Other { value: Value::Object(m.clone()) } } } }
fn mk_doc(r: &RDoc) -> DIDDoc { DIDDoc { id: r.id.clone(), key_agreement: r.ka.clone(), authentication: r.auth.clone(), verification_method: r.vm.iter().map(mk_vm).collect(), service: r.svc.iter().map(mk_svc).collect() } }
fn mk_sec(r: &RSec) -> Secret { Secret { id: r.id.clone(), type_: s_type(r.t), secret_material: mk_smat(&r.mat) } }
fn texts(r: &mut Rng) -> Vec<String> { let mut v: Vec<String> = (0..r.below(4)).map(|_| r.text()).collect(); if !v.is_empty() && r.chance(1, 3) { let x = v[0].clone(); v.push(x) } v }
fn r_mat(r: &mut Rng) -> RMat { match r.below(3) { 0 => RMat::J(if r.chance(1, 4) { any_json(r, 2) } else { json!({"kty": "OKP", "crv": r.text(), "x": r.text()}) }), 1 => RMat::M(r.text()), _ => RMat::B(r.text()) } }
fn r_vm(r: &mut Rng) -> RVm { RVm { id: r.text(), t: r.below(7), controller: r.text(), mat: r_mat(r) } }
fn r_svc(r: &mut Rng) -> RSvc { RSvc { id: r.text(), kind: if r.chance(2, 3) { RKind::D(r.text(), if r.flip() { Some(texts(r)) } else { None }, texts(r)) } else { let mut m: Map<String, Value> = (0..r.below(3)).map(|_| (r.text(), any_json(r, 2))).collect(); if r.flip() { m.insert("uri".into(), json!("x")); m.insert("type".into(), json!("DIDCommMessaging")); } RKind::O(m) } } }
fn r_doc(r: &mut Rng) -> RDoc { RDoc { id: r.text(), ka: texts(r), auth: texts(r), vm: (0..r.below(4)).map(|_| r_vm(r)).collect(), svc: (0..r.below(4)).map(|_| r_svc(r)).collect() } }
fn r_sec(r: &mut Rng) -> RSec { RSec { id: r.text(), t: r.below(7), mat: r_mat(r) } }

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "random documents, methods, services and secrets written and read back against hand-written JSON, from text and from a JSON value; each object with one member renamed, removed or of another type; non-trivial: at least one list is not empty or the object is refused".into();
    ctx.bound = "lists up to 4 entries, JSON depth 2, all pairings of the seven key types with the three material forms".into();
    let mut r = Rng::new(ctx.seed);
    for t in 0..7 { for f in 0..3 {
        let text = r.text(); let mat = match f { 0 => RMat::J(json!({"kty": "EC", "x": text})), 1 => RMat::M(text.clone()), _ => RMat::B(text.clone()) };
        let v = RVm { id: "did:a:b#k".into(), t, controller: "did:a:b".into(), mat: mat.clone() }; let s = RSec { id: "did:a:b#k".into(), t, mat };
        ctx.case("type and form", json!([TYPES[t], f, text]), true, || {
            let j = vm_json(&v); let x = mk_vm(&v);
            vcheck!(serde_json::to_value(&x).ok() == Some(j.clone()), "method written as {:?}", serde_json::to_value(&x));
            vcheck!(serde_json::from_str::<VerificationMethod>(&j.to_string()).map(|y| vm_eq(&y, &v)).unwrap_or(false), "method not read back");
            let j = sec_json(&s); let x = mk_sec(&s);
            vcheck!(serde_json::to_value(&x).ok() == Some(j.clone()), "secret written as {:?}", serde_json::to_value(&x));
            vcheck!(serde_json::from_str::<Secret>(&j.to_string()).map(|y| sec_eq(&y, &s)).unwrap_or(false), "secret not read back"); Ok(())
        });
    } }
    for _ in 0..ctx.n(800) {
        let d = r_doc(&mut r); let j = doc_json(&d);
        ctx.case("document", j.clone(), !d.vm.is_empty() || !d.svc.is_empty(), || {
            let x = mk_doc(&d); let w = serde_json::to_value(&x).map_err(|e| e.to_string())?;
            vcheck!(w == j, "written as {}", w);
            let y: DIDDoc = serde_json::from_str(&serde_json::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            vcheck!(doc_eq(&y, &d), "read back from text as {:?}", y);
            let y: DIDDoc = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            vcheck!(doc_eq(&y, &d), "read from a JSON value as {:?}", y);
            vcheck!(doc_eq(&x.clone(), &d), "clone differs"); Ok(())
        });
        let s = r_sec(&mut r); let j = sec_json(&s);
        ctx.case("secret", j.clone(), true, || {
            let x = mk_sec(&s); let w = serde_json::to_value(&x).map_err(|e| e.to_string())?;
            vcheck!(w == j, "written as {}", w);
            let y: Secret = serde_json::from_str(&w.to_string()).map_err(|e| e.to_string())?;
            vcheck!(sec_eq(&y, &s), "read back as {:?}", y); vcheck!(sec_eq(&x.clone(), &s), "clone differs"); Ok(())
        });
        // objects lacking what they need
        let v_ = r_vm(&mut r); let v = v_.clone(); let s = r_sec(&mut r); let c = r_svc(&mut r); let d = r_doc(&mut r);
        let mut bad: Vec<(&str, Value, bool)> = vec![];
        for (what, base, req) in [("method", vm_json(&v), vec!["id", "type", "controller"]), ("secret", sec_json(&s), vec!["id", "type"]), ("service", svc_json(&c), vec!["id", "type", "serviceEndpoint"]), ("document", doc_json(&d), vec!["id", "keyAgreement", "authentication", "verificationMethod", "service"])] {
            let k = *r.pick(&req); let mut m = base.as_object().unwrap().clone();
            let old = m.remove(k).unwrap();
            match r.below(3) { 0 => {} 1 => { m.insert(k.to_uppercase(), old); } _ => { m.insert(k.into(), Value::Null); } }
            bad.push((what, Value::Object(m), false));
            // an unknown member is passed over
            let mut m = base.as_object().unwrap().clone(); m.insert("somethingElse".into(), any_json(&mut r, 1));
            if what != "service" { bad.push((what, Value::Object(m), true)); }
        }
        // material: absent, under the other kind's name, or not a text
        for (what, base, pre, other) in [("method", vm_json(&v), "public", "private"), ("secret", sec_json(&s), "private", "public")] {
            let mut m = base.as_object().unwrap().clone(); for f in ["Jwk", "Multibase", "Base58"] { m.remove(&format!("{}Key{}", pre, f)); }
            let f = *r.pick(&["Jwk", "Multibase", "Base58"]);
            match r.below(4) { 0 => {} 1 => { m.insert(format!("{}Key{}", other, f), json!("x")); } 2 => { m.insert(format!("{}KeyBase58", pre), json!(3)); m.insert(format!("{}KeyMultibase", pre), json!(["x"])); } _ => { m.insert(format!("{}_key_{}", pre, f.to_lowercase()), json!("x")); } }
            bad.push((what, Value::Object(m), false));
        }
        // members under other names are passed over
        let names = ["id", "keyAgreement", "authentication", "verificationMethod", "service", "type", "controller", "publicKeyJwk", "publicKeyMultibase", "publicKeyBase58", "privateKeyJwk", "privateKeyMultibase", "privateKeyBase58", "uri", "accept", "routingKeys", "serviceEndpoint"];
        let snake = |s: &str| s.chars().flat_map(|c| if c.is_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect::<String>();
        let other = |r: &mut Rng| { let k = *r.pick(&names); match r.below(4) { 0 => snake(k), 1 => r.word(), 2 => format!("{}s", k), _ => r.near(k) } };
        let k = other(&mut r);
        if !names.contains(&k.as_str()) {
            let v = match r.below(3) { 0 => json!(r.text()), 1 => json!([r.text()]), _ => any_json(&mut r, 2) };
            let with = |base: Value| { let mut m = base.as_object().unwrap().clone(); m.insert(k.clone(), v.clone()); Value::Object(m) };
            let (dv, vv, sv) = (doc_json(&d), vm_json(&v_), sec_json(&s));
            let full = RDoc { svc: vec![], ..d.clone() };
            ctx.case("other members", json!([k, v, dv, vv, sv]), true, || {
                let y: DIDDoc = serde_json::from_str(&with(doc_json(&full)).to_string()).map_err(|e| e.to_string())?; vcheck!(doc_eq(&y, &full), "document read as {:?}", y);
                let y: VerificationMethod = serde_json::from_str(&with(vv.clone()).to_string()).map_err(|e| e.to_string())?; vcheck!(vm_eq(&y, &v_), "method read as {:?}", y);
                let y: Secret = serde_json::from_str(&with(sv.clone()).to_string()).map_err(|e| e.to_string())?; vcheck!(sec_eq(&y, &s), "secret read as {:?}", y);
                for n in 0..4 { let mut e = Map::new(); e.insert("uri".into(), json!("u")); if n & 1 == 1 { e.insert("accept".into(), json!(["a"])); } if n & 2 == 2 { e.insert("routingKeys".into(), json!(["k"])); } e.insert(k.clone(), v.clone());
                    let y: DIDCommMessagingService = serde_json::from_value(Value::Object(e)).map_err(|e| e.to_string())?;
                    vcheck!(y.uri == "u" && y.accept == (if n & 1 == 1 { Some(vec!["a".to_string()]) } else { None }) && y.routing_keys == (if n & 2 == 2 { vec!["k".to_string()] } else { vec![] }), "endpoint read as {:?}", y); }
                Ok(())
            });
            // and do not stand in for the ones that are required
            for (what, base, req) in [("method", vm_json(&v_), vec!["id", "type", "controller"]), ("secret", sec_json(&s), vec!["id", "type"]), ("document", doc_json(&d), vec!["id", "keyAgreement", "authentication", "verificationMethod", "service"])] {
                let q = *r.pick(&req); let mut m = base.as_object().unwrap().clone(); let old = m.remove(q).unwrap(); let n = match r.below(4) { 0 => snake(q), 1 => r.word(), 2 => format!("@{}", q), _ => r.near(q) };
                if !names.contains(&n.as_str()) { m.insert(n, old); bad.push((what, Value::Object(m), false)) }
            }
        }
        // endpoints
        let e = *r.pick(&["uri", "accept", "routingKeys"]);
        let mut m = Map::new(); m.insert("uri".into(), json!("u")); m.insert("accept".into(), json!(["didcomm/v2"])); m.insert("routingKeys".into(), json!(["k"]));
        match r.below(3) { 0 => { m.insert(e.into(), json!(3)); } 1 => { m.insert(e.into(), json!({})); } _ => { m.remove("uri"); } }
        bad.push(("service", json!({"id": "s", "type": "DIDCommMessaging", "serviceEndpoint": m}), false));
        bad.push(("service", json!({"id": "s", "type": r.text() + "x", "serviceEndpoint": {"uri": "u"}}), false));
        bad.push(("service", json!({"id": "s", "type": "DIDCommMessaging", "serviceEndpoint": {"uri": "u"}}), true));
        bad.push(("service", json!({"id": "s", "type": "DIDCommMessaging", "serviceEndpoint": {"uri": "u", "accept": null, "more": 1}}), true));
        for (what, v, ok) in bad {
            ctx.case(if ok { "accepted" } else { "refused" }, json!([what, v]), true, || {
                let t = v.to_string();
                let got = match what { "method" => serde_json::from_str::<VerificationMethod>(&t).is_ok(), "secret" => serde_json::from_str::<Secret>(&t).is_ok(), "service" => serde_json::from_str::<Service>(&t).is_ok(), _ => serde_json::from_str::<DIDDoc>(&t).is_ok() };
                vcheck!(got == ok, "accepted: {}", got); Ok(())
            });
        }
    }
    ctx.case("minimal endpoint", json!(null), true, || {
        let s: Service = serde_json::from_str(r#"{"id":"s","type":"DIDCommMessaging","serviceEndpoint":{"uri":"u"}}"#).map_err(|e| e.to_string())?;
        match s.service_endpoint { ServiceKind::DIDCommMessaging { value } => vcheck!(value.uri == "u" && value.accept.is_none() && value.routing_keys.is_empty(), "{:?}", value), o => return Err(format!("{:?}", o)) } Ok(())
    });
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "random stores with repeated and near-equal ids, asked for known, unknown and near-equal ids; non-trivial: the store has at least two entries".into();
    ctx.bound = "stores up to 6 entries, id lists up to 8".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(8000) {
        let ids = ["did:a:b", "did:a:b#k", "did:a:bb", "did:a:B", "did:a:b ", "", "did:a", "did:x:é", "did:a:b#k1"];
        let docs: Vec<RDoc> = (0..r.below(6)).map(|_| { let mut d = r_doc(&mut r); d.id = r.pick(&ids).to_string(); d }).collect();
        let q = r.pick(&ids).to_string(); let docs: Vec<RDoc> = docs.into_iter().map(|mut d| { if r.chance(1, 4) { d.id = r.near(&q) } d }).collect();
        ctx.case("documents", json!([docs.iter().map(doc_json).collect::<Vec<_>>(), q]), docs.len() > 1, || {
            let x = ExampleDIDResolver::new(docs.iter().map(mk_doc).collect());
            for _ in 0..2 {
                let g = block_on(x.resolve(&q)).map_err(|e| e.to_string())?;
                let w = docs.iter().filter(|d| d.id == q).next();
                match (&g, w) { (None, None) => {} (Some(a), Some(b)) => vcheck!(doc_eq(a, b), "returned {:?}", a), _ => return Err(format!("returned {:?}", g)) }
            } Ok(())
        });
        let secs: Vec<RSec> = (0..r.below(6)).map(|_| { let mut d = r_sec(&mut r); d.id = r.pick(&ids).to_string(); d }).collect();
        let secs: Vec<RSec> = secs.into_iter().map(|mut d| { if r.chance(1, 4) { d.id = r.near(&q) } d }).collect(); let known: Vec<String> = secs.iter().map(|s| s.id.clone()).collect();
        let qs: Vec<String> = (0..r.below(8)).map(|_| match r.below(6) { 0 | 1 if !known.is_empty() => r.pick(&known).clone(), 2 if !known.is_empty() => { let k = r.pick(&known).clone(); r.near(&k) } _ => r.pick(&ids).to_string() }).collect();
        ctx.case("secrets", json!([secs.iter().map(sec_json).collect::<Vec<_>>(), q, qs]), secs.len() > 1, || {
            let x = ExampleSecretsResolver::new(secs.iter().map(mk_sec).collect());
            let g = block_on(x.get_secret(&q)).map_err(|e| e.to_string())?;
            let w = secs.iter().filter(|d| d.id == q).next();
            match (&g, w) { (None, None) => {} (Some(a), Some(b)) => vcheck!(sec_eq(a, b), "returned {:?}", a), _ => return Err(format!("returned {:?}", g)) }
            let refs: Vec<&str> = qs.iter().map(|s| s.as_str()).collect();
            let g = block_on(x.find_secrets(&refs)).map_err(|e| e.to_string())?;
            let mut w: Vec<&str> = vec![]; for q in refs.iter() { let mut any = false; for s in secs.iter() { if s.id == *q { any = true } } if any { w.push(*q) } }
            vcheck!(g == w, "found {:?}, expected {:?}", g, w); Ok(())
        });
    }
}
