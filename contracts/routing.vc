C09, C10, C11: forward messages, the onion, and the choice of the service.

@module crate::uuid
@raw
pub struct Uuid {}
impl Uuid { #[verifier::external_body] pub fn new_v4() -> Uuid { unimplemented!() } #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

@module crate::protocols::routing::forward src/protocols/routing/forward.rs
@raw
use crate::serde_json::*; use crate::message::message::Message;
@type ParsedForward

@module crate::protocols::routing src/protocols/routing/mod.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::attachment::*; use crate::message::message::*; use crate::vx::HashMap; use crate::uuid::Uuid;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
use crate::utils::did::*; use crate::protocols::routing::forward::*; use crate::did::*; use crate::vx::{first, firstk, refs, searched, first_some, first_prefix, first_is, first_in, first_none, first_ref_all}; use crate::algorithms::*; use crate::message::pack_encrypted::anoncrypt::*; use crate::message::pack_encrypted::*;
@const FORWARD_MSG_TYPE
@const DIDCOMM_V2_PROFILE
@raw
pub open spec fn forward_type() -> Seq<char> { "https://didcomm.org/routing/2.0/forward"@ }
/// the next hop and the payload of a message that is a forward message
pub open spec fn forward_of(m: Message) -> Option<(Seq<char>, Value)> {
    if m.type_@ == forward_type() && at(m.body, "next"@) is Some && at(m.body, "next"@)->0 is String && m.attachments is Some && m.attachments->0@.len() > 0 && m.attachments->0@[0].data is Json {
        Some((at(m.body, "next"@)->0->String_0@, m.attachments->0@[0].data->Json_value.json))
    } else { None }
}
@fn try_parse_forward -> r
ensures match r { Some(p) => forward_of(*msg) is Some && (forward_of(*msg)->0).0 == p.next@ && (forward_of(*msg)->0).1 == p.forwarded_msg && *p.msg == *msg, None => forward_of(*msg) is None },
@fn generate_message_id -> r
@raw
/// m is a forward message for `next` that carries `payload` and exactly the given extra headers
pub open spec fn is_forward(m: Message, next: Seq<char>, payload: Value, headers: Map<Seq<char>, Value>) -> bool {
    forward_of(m) == Some((next, payload)) && hm(m.extra_headers) == headers && m.typ@ == plaintext_typ() && m.body == obj(no_members().insert("next"@, jstr(next)))
    && m.from is None && m.to is None && m.thid is None && m.pthid is None && m.created_time is None && m.expires_time is None && m.from_prior is None && m.attachments->0@.len() == 1
}
pub open spec fn headers_of(h: Option<&HashMap<String, Value>>) -> Map<Seq<char>, Value> { match h { Some(h) => hm(*h), None => no_members() } }
@fn build_forward_message -> r
ensures match r {
    Ok(s) => json_de::<Value>(forwarded_msg@) is Ok && exists|m: Message| is_forward(m, next@, json_de::<Value>(forwarded_msg@)->Ok_0, headers_of(headers)) && #[trigger] json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(s@),
    Err(e) => (json_de::<Value>(forwarded_msg@) is Err && e.kind == ErrorKind::Malformed) || e.kind == ErrorKind::InvalidState },
@start
broadcast use {value_axioms, json_axioms};
@loop 0
invariant hm(msg_builder.extra_headers) == map_of(vx_s0.take(vx_s0.len() - vx_it0@.len())), msg_builder == (MessageBuilder { extra_headers: msg_builder.extra_headers, ..vx_b }),
@loopbefore
let ghost vx_b = msg_builder;
proof { assert(vx_s0.take(0) =~= seq![]); assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0); }
@loopproof
proof { map_of_next(vx_s0, vx_k0); }
@raw
/// a built forward message, written and read back, is recognised and gives the same next hop and payload
pub proof fn forward_read_back(m: Message, s: Seq<char>, next: Seq<char>, payload: Value, h: Map<Seq<char>, Value>)
    requires is_forward(m, next, payload, h), h.dom().disjoint(reserved()), json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(s),
    ensures json_de::<Message>(s) == Ok::<Message, serde_json::Error>(m), forward_of(json_de::<Message>(s)->Ok_0) == Some((next, payload))
{ writes(m); reads_owned::<Message>(s); message_round_trip(m); }
@raw
// ---------- the onion ----------
pub open spec fn hop(keys: Seq<String>, to: Seq<char>, i: int) -> Seq<char> { if i + 1 < keys.len() { keys[i + 1]@ } else { to } }
/// out is the onion for the routing keys from i on: encrypted for keys[i], holding a forward message to the next hop with the onion of the rest
pub open spec fn onion(dr: &dyn DIDResolver, msg: Seq<char>, headers: Map<Seq<char>, Value>, to: Seq<char>, keys: Seq<String>, alg: AnonCryptAlg, i: int, out: Seq<char>) -> bool decreases keys.len() - i when 0 <= i <= keys.len() {
    if i == keys.len() { out == msg }
    else { exists|inner: Seq<char>| onion(dr, msg, headers, to, keys, alg, i + 1, inner) && #[trigger] layer(dr, inner, headers, hop(keys, to, i), keys[i]@, alg, out) }
}
/// out is encrypted for `key` and holds a forward message to `next` that carries inner
pub open spec fn layer(dr: &dyn DIDResolver, inner: Seq<char>, headers: Map<Seq<char>, Value>, next: Seq<char>, key: Seq<char>, alg: AnonCryptAlg, out: Seq<char>) -> bool {
    json_de::<Value>(inner) is Ok && exists|m: Message, s: Seq<char>, kids: Seq<String>| is_forward(m, next, json_de::<Value>(inner)->Ok_0, headers) && #[trigger] json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(s) && #[trigger] anon_packed(key, dr, utf8(s), alg, out, kids)
}
@fn wrap_in_forward -> r
ensures r is Ok ==> onion(did_resolver, msg@, headers_of(headers), to@, routing_keys@, *enc_alg_anon, 0, r->Ok_0@),
@loop 0
invariant onion(did_resolver, vx_msg, headers_of(headers), to@, routing_keys@, *enc_alg_anon, vx_it0@.len() as int, msg@), vx_s0.len() == routing_keys@.len(),
    forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0[i]).0@ == routing_keys@[vx_s0.len() - 1 - i]@ && vx_s0[i].1@ == hop(routing_keys@, to@, vx_s0.len() - 1 - i),
@loopbefore
let ghost vx_msg = msg@; broadcast use anon_gives;
@loopproof
let ghost vx_inner = msg@; proof { assert(vx_s0[vx_k0].0@ == routing_keys@[vx_it0@.len() as int]@); }
@loopend
proof { let n = vx_it0@.len() as int; let h = headers_of(headers); assert(onion(did_resolver, vx_msg, h, to@, routing_keys@, *enc_alg_anon, n + 1, vx_inner)); assert(layer(did_resolver, vx_inner, h, hop(routing_keys@, to@, n), routing_keys@[n]@, *enc_alg_anon, msg@));
  assert(onion(did_resolver, vx_msg, h, to@, routing_keys@, *enc_alg_anon, n, msg@)); }

// ---------- the service ----------
@raw
pub open spec fn accepts(s: DIDCommMessagingService) -> bool { s.accept is None || s.accept->0@.len() == 0 || lists(s.accept->0@, "didcomm/v2"@) }
pub open spec fn usable(s: Service) -> bool { s.service_endpoint is DIDCommMessaging && accepts(s.service_endpoint->DIDCommMessaging_value) }
pub open spec fn as_found(s: Service) -> (String, DIDCommMessagingService) { (s.id, s.service_endpoint->DIDCommMessaging_value) }
pub open spec fn with_id(id: Seq<char>) -> spec_fn(Service) -> bool { |s: Service| s.id@ == id }
pub open spec fn is_usable() -> spec_fn(Service) -> bool { |s: Service| usable(s) }
pub broadcast proof fn service_found(s: Seq<Service>, id: Seq<char>, keep: Seq<bool>)
    requires searched(refs(s), keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == ((*refs(s)[i]).id@ == id),
    ensures #![trigger first(s, with_id(id)), firstk(refs(s), keep)] match first(s, with_id(id)) { Some(x) => firstk(refs(s), keep) == Some(&x), None => firstk(refs(s), keep) is None }
{ first_ref_all(s, with_id(id)); assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == with_id(id)(*refs(s)[i]) by {} }
pub broadcast proof fn usable_found(s: Seq<Service>, m: Seq<Option<(String, DIDCommMessagingService)>>)
    requires m.len() <= s.len(), first_some(m) is None ==> m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (if usable(*refs(s)[i]) { Some(as_found(*refs(s)[i])) } else { None }),
    ensures #![trigger first(s, is_usable()), first_some(m)] first_some(m) == (match first(s, is_usable()) { Some(x) => Some(as_found(x)), None => None })
{
    let n = m.len() as int; assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == (if usable(s[i]) { Some(as_found(s[i])) } else { None }) by { assert(*refs(s)[i] == s[i]); }
    usable_found2(s, m);
    if first_some(m) is Some { first_prefix(s.take(n), s, is_usable()); } else { assert(s.take(n) =~= s); }
}
pub proof fn usable_found2(s: Seq<Service>, m: Seq<Option<(String, DIDCommMessagingService)>>)
    requires m.len() <= s.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (if usable(s[i]) { Some(as_found(s[i])) } else { None }),
    ensures first_some(m) == (match first(s.take(m.len() as int), is_usable()) { Some(x) => Some(as_found(x)), None => None }),
    decreases m.len()
{
    if m.len() > 0 {
        let n = m.len() as int; let d = m.drop_last(); let t = s.take(n); let p = is_usable();
        usable_found2(s, d); first_in(s.take(n - 1), p);
        assert(m[n - 1] == (if usable(s[n - 1]) { Some(as_found(s[n - 1])) } else { None }));
        if first_some(d) is Some { first_prefix(s.take(n - 1), t, p); }
        else {
            assert forall|j: int| 0 <= j < n - 1 implies !p(#[trigger] t[j]) by { assert(t[j] == s.take(n - 1)[j]); }
            if usable(s[n - 1]) { first_is(t, p, n - 1); } else { assert forall|j: int| 0 <= j < n implies !p(#[trigger] t[j]) by { } first_none(t, p); }
        }
    }
}
/// the service that the document gives: the requested one, or else the first usable one
pub open spec fn chosen(doc: DIDDoc, id: Option<&str>, r: Result<Option<(String, DIDCommMessagingService)>>) -> bool { match id {
    Some(id) => match first(doc.service@, with_id(id@)) { Some(s) if usable(s) => r == Ok::<_, Error>(Some(as_found(s))), _ => r is Err && r->Err_0.kind == ErrorKind::IllegalArgument },
    None => match first(doc.service@, is_usable()) { Some(s) => r == Ok::<_, Error>(Some(as_found(s))), None => r == Ok::<_, Error>(None) } } }
pub open spec fn found(dr: &dyn DIDResolver, did: Seq<char>, id: Option<&str>, r: Result<Option<(String, DIDCommMessagingService)>>) -> bool {
    exists|d: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did, d) && match d {
        Err(e) => r is Err && r->Err_0.kind == e.kind,
        Ok(None) => r is Err && r->Err_0.kind == ErrorKind::DIDNotResolved,
        Ok(Some(doc)) => chosen(doc, id, r) }
}
@fn find_did_comm_service -> r
ensures found(did_resolver, did@, service_id, r),
@start
broadcast use {service_found, usable_found};
@closure 3 -> (q: Option<(String, DIDCommMessagingService)>)
ensures q == (if usable(*vx_p0) { Some(as_found(*vx_p0)) } else { None })
@raw
/// the chain from the recipient: its service, preceded by the service of the mediator when the endpoint is a DID
pub open spec fn chain(dr: &dyn DIDResolver, to: Seq<char>, id: Option<&str>, r: Result<Vec<(String, DIDCommMessagingService)>>) -> bool {
    exists|f: Result<Option<(String, DIDCommMessagingService)>>| #[trigger] found(dr, did_part(to), id, f) && match f {
        Err(e) => r is Err && r->Err_0.kind == e.kind,
        Ok(None) => r is Ok && r->Ok_0@.len() == 0,
        Ok(Some(s)) => if !is_did_spec(s.1.uri@) { r is Ok && r->Ok_0@ =~= seq![s] } else {
            exists|g: Result<Option<(String, DIDCommMessagingService)>>| #[trigger] found(dr, s.1.uri@, None, g) && match g {
                Err(e) => r is Err && r->Err_0.kind == e.kind,
                Ok(None) => r is Err && r->Err_0.kind == ErrorKind::InvalidState,
                Ok(Some(t)) => if is_did_spec(t.1.uri@) { r is Err && r->Err_0.kind == ErrorKind::InvalidState } else { r is Ok && r->Ok_0@ =~= seq![t, s] } } } }
}
@fn resolve_did_comm_services_chain -> r
ensures chain(did_resolver, to@, service_id, r),
@start
proof { did_part_is(to@); }
@loop 0
invariant services@.len() == 1 || services@.len() == 2, services@[0] == service, service_endpoint@ == service.1.uri@, found(did_resolver, did_part(to@), service_id, Ok(Some(services@.last()))), services@.len() == 2 ==> is_did_spec(services@.last().1.uri@) && found(did_resolver, services@.last().1.uri@, None, Ok(Some(service))),
@raw
pub open spec fn route(c: Seq<(String, DIDCommMessagingService)>) -> Seq<String> { c.skip(1).map_values(|s: (String, DIDCommMessagingService)| s.1.uri) + c.last().1.routing_keys@ }
/// r is what is sent instead of msg, if anything
pub open spec fn routed(msg: Seq<char>, to: Seq<char>, dr: &dyn DIDResolver, o: PackEncryptedOptions, r: Result<Option<(String, MessagingServiceMetadata)>>) -> bool {
    if !o.forward { r == Ok::<_, Error>(None) } else { exists|c: Result<Vec<(String, DIDCommMessagingService)>>| #[trigger] chain(dr, to, opt_str(o.messaging_service), c) && match c {
    Err(e) => r is Err && r->Err_0.kind == e.kind,
    Ok(c) => if c@.len() == 0 || route(c@).len() == 0 { r == Ok::<_, Error>(None) } else { r is Err || (r->Ok_0 is Some && onion(dr, msg, headers_opt(o.forward_headers), to, route(c@), o.enc_alg_anon, 0, (r->Ok_0->0).0@)
        && (r->Ok_0->0).1.id == c@.last().0 && (r->Ok_0->0).1.service_endpoint == c@[0].1.uri) } } }
}
@fn wrap_in_forward_if_needed -> r
ensures routed(msg@, to@, did_resolver, *options, r),
@start
broadcast use value_axioms;
@after routing_keys
proof { assert(routing_keys@ =~= services_chain@.skip(1).map_values(|s: (String, DIDCommMessagingService)| s.1.uri)); }
@raw
pub open spec fn headers_opt(h: Option<HashMap<String, Value>>) -> Map<Seq<char>, Value> { match h { Some(h) => hm(h), None => no_members() } }
pub open spec fn opt_str<'a>(o: Option<String>) -> Option<&'a str> { match o { None => None, Some(s) => Some(slice_of(s@)) } }
