use super::base::*;
use crate::error::ErrorKind;
use crate::message::{Attachment, AttachmentData, Base64AttachmentData, FromPrior, JsonAttachmentData, LinksAttachmentData, Message};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};

const TYP: &str = "application/didcomm-plain+json";
const KNOWN: [&str; 12] = ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments"];

// ---- reference models: the JSON forms written out by hand, kept apart from the code under test ----
#[derive(Clone, Debug)]
enum RData { B(String), J(Value), L(Vec<String>, String) }
#[derive(Clone, Debug)]
struct RAtt { data: RData, jws: Option<String>, text: BTreeMap<&'static str, String>, num: BTreeMap<&'static str, u64> }
fn r_data_json(d: &RData, jws: &Option<String>) -> Value {
    let mut m = Map::new();
    match d { RData::B(s) => { m.insert("base64".into(), json!(s)); } RData::J(v) => { m.insert("json".into(), v.clone()); } RData::L(l, h) => { m.insert("links".into(), json!(l)); m.insert("hash".into(), json!(h)); } }
    if let Some(j) = jws { m.insert("jws".into(), json!(j)); }
    Value::Object(m)
}
fn r_att_json(a: &RAtt) -> Value {
    let mut m = Map::new();
    m.insert("data".into(), r_data_json(&a.data, &a.jws));
    for (k, v) in &a.text { m.insert(k.to_string(), json!(v)); }
    for (k, v) in &a.num { m.insert(k.to_string(), json!(v)); }
    Value::Object(m)
}
fn r_att_eq(a: &Attachment, r: &RAtt) -> bool {
    let t = |k: &str| r.text.get(k).cloned(); let n = |k: &str| r.num.get(k).cloned();
    let d = match (&a.data, &r.data) {
        (AttachmentData::Base64 { value }, RData::B(s)) => value.base64 == *s && value.jws == r.jws,
        (AttachmentData::Json { value }, RData::J(v)) => value.json == *v && value.jws == r.jws,
        (AttachmentData::Links { value }, RData::L(l, h)) => value.links == *l && value.hash == *h && value.jws == r.jws,
        _ => false };
    d && a.id == t("id") && a.description == t("description") && a.filename == t("filename") && a.media_type == t("media_type") && a.format == t("format")
        && a.lastmod_time == n("lastmod_time") && a.byte_count == n("byte_count")
}
fn r_att(r: &mut Rng) -> RAtt {
    let data = match r.below(3) { 0 => RData::B(r.text()), 1 => RData::J(any_json(r, 2)), _ => RData::L((0..r.below(3)).map(|_| r.text()).collect(), r.text()) };
    let jws = if r.flip() { Some(r.text()) } else { None };
    let mut text = BTreeMap::new(); for k in ["id", "description", "filename", "media_type", "format"].iter() { if r.flip() { text.insert(*k, r.text()); } }
    let mut num = BTreeMap::new(); for k in ["lastmod_time", "byte_count"].iter() { if r.flip() { num.insert(*k, numb(r)); } }
    RAtt { data, jws, text, num }
}
fn numb(r: &mut Rng) -> u64 { match r.below(4) { 0 => 0, 1 => u64::MAX, 2 => r.below(1000) as u64, _ => r.next() } }
/// builds it with the builder, setting some fields twice and in a random order
fn build_att(r: &mut Rng, a: &RAtt, twice: bool) -> Attachment {
    let mut b = match &a.data { RData::B(s) => Attachment::base64(s.clone()), RData::J(v) => Attachment::json(v.clone()), RData::L(l, h) => Attachment::links(l.clone(), h.clone()) };
    let mut ops: Vec<(&str, Option<String>, Option<u64>)> = vec![];
    for (k, v) in &a.text { ops.push((k, Some(v.clone()), None)) }
    for (k, v) in &a.num { ops.push((k, None, Some(*v))) }
    if let Some(j) = &a.jws { ops.push(("jws", Some(j.clone()), None)) }
    r.shuffle(&mut ops);
    let mut seq = vec![];
    if twice { for (k, s, n) in ops.iter() { if r.flip() { seq.push((*k, s.as_ref().map(|_| r.text()), n.map(|_| numb(r)))) } } }
    seq.extend(ops);
    for (k, s, n) in seq { b = match k {
        "id" => b.id(s.unwrap()), "description" => b.description(s.unwrap()), "filename" => b.filename(s.unwrap()), "media_type" => b.media_type(s.unwrap()), "format" => b.format(s.unwrap()),
        "lastmod_time" => b.lastmod_time(n.unwrap()), "byte_count" => b.byte_count(n.unwrap()), _ => b.jws(s.unwrap()) } }
    b.finalize()
}
#[derive(Clone, Debug)]
struct RMsg { id: String, type_: String, body: Value, text: BTreeMap<&'static str, String>, num: BTreeMap<&'static str, u64>, to: Option<Vec<String>>, att: Option<Vec<RAtt>>, extra: BTreeMap<String, Value> }
fn r_msg(r: &mut Rng) -> RMsg {
    let mut text = BTreeMap::new(); for k in ["from", "thid", "pthid", "from_prior"].iter() { if r.flip() { text.insert(*k, r.text()); } }
    let mut num = BTreeMap::new(); for k in ["created_time", "expires_time"].iter() { if r.flip() { num.insert(*k, numb(r)); } }
    let mut extra = BTreeMap::new();
    for _ in 0..r.below(4) { let k = match r.below(8) { 5 => r.word(), 6 => { let k = *r.pick(&KNOWN); r.near(k) } 7 => camel(r.pick(&KNOWN)), 0 => "type_".to_string(), 1 => "Id".into(), 2 => "extra_headers".into(), 3 => "next".into(), _ => r.text() }; if !KNOWN.contains(&k.as_str()) { let v = match r.below(6) { 0 => json!(r.text()), 1 => json!([r.text()]), 2 => json!(numb(r)), _ => any_json(r, 2) }; extra.insert(k, v); } }
    let mut to: Option<Vec<String>> = if r.flip() { Some((0..r.below(4)).map(|_| r.text()).collect()) } else { None };
    if let Some(t) = to.as_mut() { if !t.is_empty() && r.chance(1, 3) { let x = t[0].clone(); t.push(x) } }
    let mut att: Option<Vec<RAtt>> = if r.flip() { Some((0..r.below(3)).map(|_| r_att(r)).collect()) } else { None };
    if let Some(t) = att.as_mut() { if !t.is_empty() && r.chance(1, 3) { let x = t[0].clone(); t.push(x) } }
    if r.chance(1, 4) { if let (Some(t), Some(f)) = (to.as_mut(), text.get("from")) { t.push(f.clone()) } }
    RMsg { id: r.text(), type_: r.text(), body: any_json(r, 3), text, num, to, att, extra }
}
fn r_msg_json(m: &RMsg) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), json!(m.id)); o.insert("typ".into(), json!(TYP)); o.insert("type".into(), json!(m.type_)); o.insert("body".into(), m.body.clone());
    for (k, v) in &m.text { o.insert(k.to_string(), json!(v)); }
    for (k, v) in &m.num { o.insert(k.to_string(), json!(v)); }
    if let Some(t) = &m.to { o.insert("to".into(), json!(t)); }
    if let Some(a) = &m.att { o.insert("attachments".into(), Value::Array(a.iter().map(r_att_json).collect())); }
    for (k, v) in &m.extra { o.insert(k.clone(), v.clone()); }
    Value::Object(o)
}
fn r_msg_eq(m: &Message, x: &RMsg) -> std::result::Result<(), String> {
    let t = |k: &str| x.text.get(k).cloned();
    vcheck!(m.id == x.id, "id {:?}", m.id); vcheck!(m.typ == TYP, "typ {:?}", m.typ); vcheck!(m.type_ == x.type_, "type {:?}", m.type_); vcheck!(m.body == x.body, "body {:?}", m.body);
    vcheck!(m.from == t("from"), "from {:?}", m.from); vcheck!(m.thid == t("thid"), "thid {:?}", m.thid); vcheck!(m.pthid == t("pthid"), "pthid {:?}", m.pthid); vcheck!(m.from_prior == t("from_prior"), "from_prior {:?}", m.from_prior);
    vcheck!(m.created_time == x.num.get("created_time").cloned(), "created_time {:?}", m.created_time); vcheck!(m.expires_time == x.num.get("expires_time").cloned(), "expires_time {:?}", m.expires_time);
    vcheck!(m.to == x.to, "to {:?}", m.to);
    let e: BTreeMap<String, Value> = m.extra_headers.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    vcheck!(e == x.extra, "extra headers {:?}", e);
    match (&m.attachments, &x.att) { (None, None) => {} (Some(a), Some(b)) => { vcheck!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| r_att_eq(a, b)), "attachments {:?}", a) } _ => return Err(format!("attachments {:?}", m.attachments)) }
    Ok(())
}
fn cut(r: &mut Rng, v: &[String]) -> Vec<Vec<String>> { let mut o: Vec<Vec<String>> = vec![]; for x in v { if o.is_empty() || r.flip() { o.push(vec![]) } o.last_mut().unwrap().push(x.clone()) } o }
fn build_msg(r: &mut Rng, x: &RMsg, twice: bool) -> Message {
    let mut b = Message::build(x.id.clone(), x.type_.clone(), x.body.clone());
    enum Op { T(&'static str, String), N(&'static str, u64), H(String, Value), To(String), ToMany(Vec<String>), A(Attachment), As(Vec<Attachment>) }
    let mut lists: Vec<Vec<Op>> = vec![];
    for (k, v) in &x.text { let mut l = vec![]; if twice && r.flip() { l.push(Op::T(k, r.text())) } l.push(Op::T(k, v.clone())); lists.push(l) }
    for (k, v) in &x.num { let mut l = vec![]; if twice && r.flip() { l.push(Op::N(k, numb(r))) } l.push(Op::N(k, *v)); lists.push(l) }
    for (k, v) in &x.extra { let mut l = vec![]; if twice && r.flip() { l.push(Op::H(k.clone(), json!("old"))) } l.push(Op::H(k.clone(), v.clone())); lists.push(l) }
    if let Some(t) = &x.to { let mut l = vec![]; if t.is_empty() { l.push(Op::ToMany(vec![])) } for g in cut(r, t) { if g.len() == 1 && r.flip() { l.push(Op::To(g[0].clone())) } else { l.push(Op::ToMany(g)) } if r.chance(1, 5) { l.push(Op::ToMany(vec![])) } } lists.push(l) }
    if let Some(a) = &x.att { let mut l = vec![]; let mut v: Vec<Attachment> = a.iter().map(|a| build_att(r, a, twice)).collect(); if v.is_empty() { l.push(Op::As(vec![])) }
        while !v.is_empty() { let n = 1 + r.below(v.len()); let g: Vec<Attachment> = v.drain(..n).collect(); if n == 1 && r.flip() { l.push(Op::A(g.into_iter().next().unwrap())) } else { l.push(Op::As(g)) } } lists.push(l) }
    for l in lists.iter_mut() { l.reverse() }
    loop {
        lists.retain(|l| !l.is_empty()); if lists.is_empty() { break }
        let i = r.below(lists.len());
        b = match lists[i].pop().unwrap() {
            Op::T("from", s) => b.from(s), Op::T("thid", s) => b.thid(s), Op::T("pthid", s) => b.pthid(s), Op::T(_, s) => b.from_prior(s),
            Op::N("created_time", n) => b.created_time(n), Op::N(_, n) => b.expires_time(n), Op::H(k, v) => b.header(k, v),
            Op::To(s) => b.to(s), Op::ToMany(v) => b.to_many(v), Op::A(a) => b.attachment(a), Op::As(v) => b.attachments(v) };
    }
    b.finalize()
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "random messages with every subset of optional fields, and JSON objects with unknown, missing and wrongly typed members; non-trivial: at least one optional field or extra header".into();
    ctx.bound = "texts of at most 12 characters, JSON of depth 3, at most 3 recipients, attachments and extra headers; sampled".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(8000) {
        let x = r_msg(&mut r); let want = r_msg_json(&x); let mut r2 = r.clone(); r.next();
        ctx.case("written and read back", want.clone(), !x.text.is_empty() || !x.extra.is_empty(), || {
            let m = build_msg(&mut r2, &x, false);
            let w = serde_json::to_value(&m).map_err(|e| e.to_string())?;
            vcheck!(w == want, "written as {}", w);
            let t = serde_json::to_string(&m).map_err(|e| e.to_string())?;
            let m2 = Message::from_str(&t).map_err(|e| format!("not read back: {}", e))?;
            r_msg_eq(&m2, &x)?; vcheck!(m2 == m, "read back differs");
            let m3 = Message::from_str(&want.to_string()).map_err(|e| format!("the hand-written JSON is refused: {}", e))?; vcheck!(m3 == m, "hand-written JSON read differently: {:?}", m3);
            Ok(())
        });
    }
    for _ in 0..ctx.n(10000) {
        // any typ, which reading leaves as it is
        let x = r_msg(&mut r); let mut v = r_msg_json(&x); let t = match r.below(4) { 0 => String::new(), 1 => r.near(TYP), _ => r.text() }; v["typ"] = json!(t);
        ctx.case("other typ", v.clone(), true, || {
            let m = Message::from_str(&v.to_string()).map_err(|e| format!("not read: {}", e))?; vcheck!(m.typ == t, "typ read as {:?}", m.typ);
            let w = serde_json::to_value(&m).map_err(|e| e.to_string())?; vcheck!(w == v, "written as {}", w); Ok(())
        });
        // a required member under another name is missing all the same
        let k = *r.pick(&["id", "type", "body"]); let mut o = r_msg_json(&x).as_object().unwrap().clone(); let was = o.remove(k).unwrap();
        let n = match r.below(4) { 0 => format!("@{}", k), 1 => camel(k), 2 => r.word(), _ => r.near(k) };
        if n != k && !KNOWN.contains(&n.as_str()) { o.insert(n, was); let v = Value::Object(o);
            ctx.case("renamed", v.clone(), true, || match Message::from_str(&v.to_string()) { Ok(m) => Err(format!("accepted: {:?}", m)), Err(e) => { vcheck!(e.kind() == ErrorKind::Malformed, "refused as {:?}", e.kind()); Ok(()) } }); }
    }
    for _ in 0..ctx.n(8000) {
        // a damaged object: a required member missing, or a known member of the wrong type
        let x = r_msg(&mut r); let mut o = r_msg_json(&x).as_object().unwrap().clone();
        let k = *r.pick(&KNOWN);
        let bad = match r.below(3) {
            0 => { o.remove(k); matches!(k, "id" | "type" | "body") }
            1 => { o.insert(k.into(), Value::Null); matches!(k, "id" | "type" | "typ") }
            _ => { let v = match k { "created_time" | "expires_time" => r.pick(&[json!("1"), json!(-1), json!(1.5), json!([1])]).clone(), "to" | "attachments" => r.pick(&[json!("x"), json!([1]), json!({"a": "b"}), json!(["a", null])]).clone(), "body" => json!([r.text()]), _ => r.pick(&[json!(1), json!(["x"]), json!({}), json!(true)]).clone() }; o.insert(k.into(), v); k != "body" }
        };
        let v = Value::Object(o);
        ctx.case("damaged object", json!({"member": k, "object": v.clone()}), true, || {
            match Message::from_str(&v.to_string()) {
                Ok(m) => { vcheck!(!bad, "accepted: {:?}", m);
                    let none = v.get(k).map_or(true, |x| x.is_null());
                    if none { match k { "from" => vcheck!(m.from.is_none(), "from"), "to" => vcheck!(m.to.is_none(), "to"), "thid" => vcheck!(m.thid.is_none(), "thid"), "pthid" => vcheck!(m.pthid.is_none(), "pthid"), "from_prior" => vcheck!(m.from_prior.is_none(), "from_prior"),
                        "created_time" => vcheck!(m.created_time.is_none(), "created"), "expires_time" => vcheck!(m.expires_time.is_none(), "expires"), "attachments" => vcheck!(m.attachments.is_none(), "attachments"), "typ" => vcheck!(m.typ == TYP, "typ"), _ => {} } }
                    vcheck!(m.extra_headers.len() == x.extra.len(), "extra headers {:?}", m.extra_headers); }
                Err(e) => { vcheck!(bad, "refused: {}", e); vcheck!(e.kind() == ErrorKind::Malformed, "refused as {:?}", e.kind()) }
            }
            Ok(())
        });
    }
}
pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "typ texts around the registered one, over random messages; non-trivial: a typ other than the registered one".into();
    ctx.bound = "40 fixed near misses and sampled texts".into();
    let mut r = Rng::new(ctx.seed);
    let near = [TYP, "didcomm-plain+json", "application/didcomm-plain", "application/didcomm-plain+json ", " application/didcomm-plain+json", "APPLICATION/DIDCOMM-PLAIN+JSON", "Application/didcomm-plain+json", "application/didcomm-plain+JSON", "application/didcomm-plain+json;charset=utf-8", "application/didcomm-signed+json", "application/didcomm-encrypted+json", "", "application/json", "application/didcomm-plain+json2", "application/didcomm-plain+cbor", "x/application/didcomm-plain+json", "JWM", "plain"];
    for i in 0..ctx.n(6000) {
        let x = r_msg(&mut r); let mut v = r_msg_json(&x);
        let t = if r.chance(2, 3) { near[i as usize % near.len()].to_string() } else { r.text() };
        v["typ"] = json!(t); let absent = r.chance(1, 6); if absent { v.as_object_mut().unwrap().remove("typ"); }
        let ok = absent || t == TYP;
        ctx.case("typ", v.clone(), !ok, || {
            let m = Message::from_str(&v.to_string()).map_err(|e| format!("not read: {}", e))?;
            if absent { vcheck!(m.typ == TYP, "supplied typ {:?}", m.typ) } else { vcheck!(m.typ == t, "typ changed") }
            let before = m.clone();
            match m.validate() { Ok(m) => { vcheck!(ok, "accepted typ {:?}", t); vcheck!(m == before, "a field changed"); r_msg_eq(&m, &x)? } Err(e) => { vcheck!(!ok, "refused: {}", e); vcheck!(e.kind() == ErrorKind::Malformed, "kind {:?}", e.kind()) } }
            vcheck!(Message::build(x.id.clone(), x.type_.clone(), x.body.clone()).finalize().typ == TYP, "built typ");
            Ok(())
        });
    }
}
pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "random sequences of builder calls, single-valued fields set once or twice, lists added one by one or in groups, in any interleaving; non-trivial: at least one call".into();
    ctx.bound = "at most about 25 calls per build; sampled".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(10000) {
        let x = r_msg(&mut r); let mut r2 = r.clone(); r.next();
        ctx.case("message", r_msg_json(&x), true, || { let m = build_msg(&mut r2, &x, true); r_msg_eq(&m, &x) });
        let a = r_att(&mut r); let mut r2 = r.clone(); r.next();
        ctx.case("attachment", r_att_json(&a), true, || { let b = build_att(&mut r2, &a, true); vcheck!(r_att_eq(&b, &a), "built {:?}", b); Ok(()) });
        let (iss, sub) = (r.text(), r.text()); let mut ops: Vec<(u8, String, u64)> = vec![]; for k in 0..5u8 { for _ in 0..r.below(3) { let s = r.text(); let n = numb(&mut r); ops.push((k, s, n)) } } r.shuffle(&mut ops);
        ctx.case("from_prior", json!({"iss": iss, "sub": sub, "calls": ops.iter().map(|o| json!([o.0, o.1, o.2])).collect::<Vec<_>>()}), !ops.is_empty(), || {
            let mut b = FromPrior::build(iss.clone(), sub.clone());
            for (k, s, n) in ops.iter() { b = match k { 0 => b.aud(s.clone()), 1 => b.exp(*n), 2 => b.nbf(*n), 3 => b.iat(*n), _ => b.jti(s.clone()) } }
            let f = b.finalize();
            let ls = |k: u8| ops.iter().filter(|o| o.0 == k).last().map(|o| o.1.clone()); let ln = |k: u8| ops.iter().filter(|o| o.0 == k).last().map(|o| o.2);
            vcheck!(f.iss == iss && f.sub == sub && f.aud == ls(0) && f.exp == ln(1) && f.nbf == ln(2) && f.iat == ln(3) && f.jti == ls(4), "built {:?}", f);
            Ok(())
        });
    }
}
pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "random attachments of every kind and subset of members, and data objects mixing members of several kinds; non-trivial: several kinds at once, or a jws".into();
    ctx.bound = "texts of at most 12 characters; JSON of depth 2; sampled".into();
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(10000) {
        let a = r_att(&mut r); let want = r_att_json(&a); let mut r2 = r.clone(); r.next();
        ctx.case("round trip", want.clone(), a.jws.is_some(), || {
            let b = build_att(&mut r2, &a, false);
            let w = serde_json::to_value(&b).map_err(|e| e.to_string())?; vcheck!(w == want, "written as {}", w);
            let c: Attachment = serde_json::from_str(&want.to_string()).map_err(|e| format!("refused: {}", e))?;
            vcheck!(r_att_eq(&c, &a), "read as {:?}", c); vcheck!(c == b, "not equal"); Ok(())
        });
        // mixed data object
        let mut o = Map::new();
        let pick = |r: &mut Rng, good: Value| -> Option<Value> { match r.below(4) { 0 => None, 1 => Some(r.pick(&[json!(1), json!(null), json!([1]), json!({"a": 1})]).clone()), _ => Some(good) } };
        let g = json!(r.text()); if let Some(v) = pick(&mut r, g) { o.insert("base64".into(), v); }
        if r.chance(1, 3) { o.insert("json".into(), any_json(&mut r, 2)); }
        if r.flip() { let g = json!([r.text(), r.text()]); if let Some(v) = pick(&mut r, g) { o.insert("links".into(), v); } let g = json!(r.text()); if let Some(v) = pick(&mut r, g) { o.insert("hash".into(), v); } }
        if r.flip() { let g = json!(r.text()); if let Some(v) = pick(&mut r, g) { o.insert("jws".into(), v); } }
        if r.chance(1, 3) { let k = match r.below(3) { 0 => r.word(), 1 => "other".to_string(), _ => { let k = *r.pick(&["base64", "json", "links", "hash", "jws"]); r.near(k) } }; if !["base64", "json", "links", "hash", "jws"].contains(&k.as_str()) { let v = match r.below(3) { 0 => json!(1), 1 => json!(r.text()), _ => json!([r.text()]) }; o.insert(k, v); } }
        let v = Value::Object(o.clone());
        ctx.case("data object", v.clone(), o.len() > 1, || {
            let jws: std::result::Result<Option<String>, ()> = match o.get("jws") { None | Some(Value::Null) => Ok(None), Some(Value::String(s)) => Ok(Some(s.clone())), _ => Err(()) };
            let got = serde_json::from_value::<AttachmentData>(v.clone()).ok();
            let links: Option<Vec<String>> = o.get("links").and_then(|l| l.as_array()).and_then(|l| l.iter().map(|x| x.as_str().map(|s| s.to_string())).collect());
            match jws { Err(()) => vcheck!(got.is_none(), "accepted although jws is not a text: {:?}", got), Ok(jws) => {
                if let Some(b) = o.get("base64").and_then(|b| b.as_str()) { vcheck!(got == Some(AttachmentData::Base64 { value: Base64AttachmentData { base64: b.into(), jws } }), "read as {:?}", got) }
                else if let Some(j) = o.get("json") { vcheck!(got == Some(AttachmentData::Json { value: JsonAttachmentData { json: j.clone(), jws } }), "read as {:?}", got) }
                else if let (Some(l), Some(h)) = (links, o.get("hash").and_then(|h| h.as_str())) { vcheck!(got == Some(AttachmentData::Links { value: LinksAttachmentData { links: l, hash: h.into(), jws } }), "read as {:?}", got) }
                else { vcheck!(got.is_none(), "accepted: {:?}", got) } } }
            Ok(())
        });
        // around it
        let mut w = want.as_object().unwrap().clone(); let k = *r.pick(&["data", "id", "description", "filename", "media_type", "format", "lastmod_time", "byte_count"]);
        let val = r.pick(&[json!(true), json!([]), json!(null), json!({"a": 1})]).clone(); let del = r.flip(); if del { w.remove(k); } else { w.insert(k.into(), val.clone()); }
        let bad = if del { k == "data" } else { k == "data" || !val.is_null() };
        ctx.case("damaged", Value::Object(w.clone()), true, || { let g = serde_json::from_value::<Attachment>(Value::Object(w)); vcheck!(g.is_err() == bad, "{:?}", g); Ok(()) });
    }
}
