C12-C15: the message, its attachments, their builders and their JSON form.

@module crate::message::attachment src/message/attachment.rs
@raw
use crate::serde_json::*; use vstd::prelude::*;
@type Base64AttachmentData serde
@type JsonAttachmentData serde
@type LinksAttachmentData serde
@type AttachmentData serde
@type Attachment serde
@type AttachmentBuilder

@fn Attachment :: base64 -> r
ensures ab_is(r, AttachmentData::Base64 { value: Base64AttachmentData { base64, jws: None } }),
@fn Attachment :: json -> r
ensures ab_is(r, AttachmentData::Json { value: JsonAttachmentData { json, jws: None } }),
@fn Attachment :: links -> r
ensures ab_is(r, AttachmentData::Links { value: LinksAttachmentData { links, hash, jws: None } }),
@raw
/// a builder that holds data and nothing else
pub open spec fn ab_is(b: AttachmentBuilder, data: AttachmentData) -> bool {
    b == (AttachmentBuilder { data, id: None, description: None, filename: None, media_type: None, format: None, lastmod_time: None, byte_count: None })
}
pub open spec fn with_jws(d: AttachmentData, j: String) -> AttachmentData { match d {
    AttachmentData::Base64 { value } => AttachmentData::Base64 { value: Base64AttachmentData { jws: Some(j), ..value } },
    AttachmentData::Json { value } => AttachmentData::Json { value: JsonAttachmentData { jws: Some(j), ..value } },
    AttachmentData::Links { value } => AttachmentData::Links { value: LinksAttachmentData { jws: Some(j), ..value } } } }
@fn AttachmentBuilder :: new -> r
ensures ab_is(r, data),
@fn AttachmentBuilder :: id -> r
ensures r == (AttachmentBuilder { id: Some(id), ..self }),
@fn AttachmentBuilder :: description -> r
ensures r == (AttachmentBuilder { description: Some(description), ..self }),
@fn AttachmentBuilder :: filename -> r
ensures r == (AttachmentBuilder { filename: Some(filename), ..self }),
@fn AttachmentBuilder :: media_type -> r
ensures r == (AttachmentBuilder { media_type: Some(media_type), ..self }),
@fn AttachmentBuilder :: format -> r
ensures r == (AttachmentBuilder { format: Some(format), ..self }),
@fn AttachmentBuilder :: lastmod_time -> r
ensures r == (AttachmentBuilder { lastmod_time: Some(lastmod_time), ..self }),
@fn AttachmentBuilder :: byte_count -> r
ensures r == (AttachmentBuilder { byte_count: Some(byte_count), ..self }),
@fn AttachmentBuilder :: jws -> r
ensures r == (AttachmentBuilder { data: with_jws(self.data, jws), ..self }),
@fn AttachmentBuilder :: finalize -> r
ensures r == (Attachment { data: self.data, id: self.id, description: self.description, filename: self.filename, media_type: self.media_type, format: self.format, lastmod_time: self.lastmod_time, byte_count: self.byte_count }),
@raw
pub open spec fn data_wire(d: AttachmentData) -> Map<Seq<char>, Value> { match d {
    AttachmentData::Base64 { value } => opt_ins(no_members().insert("base64"@, jstr(value.base64@)), "jws"@, value.jws),
    AttachmentData::Json { value } => opt_ins(no_members().insert("json"@, value.json), "jws"@, value.jws),
    AttachmentData::Links { value } => opt_ins(no_members().insert("links"@, value.links.ser()).insert("hash"@, jstr(value.hash@)), "jws"@, value.jws) } }
pub open spec fn attachment_wire(a: Attachment) -> Map<Seq<char>, Value> {
    let m = no_members().insert("data"@, a.data.ser());
    let m = opt_ins(m, "id"@, a.id); let m = opt_ins(m, "description"@, a.description); let m = opt_ins(m, "filename"@, a.filename);
    let m = opt_ins(m, "media_type"@, a.media_type); let m = opt_ins(m, "format"@, a.format); let m = opt_ins(m, "lastmod_time"@, a.lastmod_time);
    opt_ins(m, "byte_count"@, a.byte_count)
}
pub proof fn data_names() ensures "base64"@ != "json"@, "base64"@ != "links"@, "base64"@ != "hash"@, "base64"@ != "jws"@, "json"@ != "links"@, "json"@ != "hash"@, "json"@ != "jws"@, "links"@ != "hash"@, "links"@ != "jws"@, "hash"@ != "jws"@
{ reveal_strlit("base64"); reveal_strlit("json"); reveal_strlit("links"); reveal_strlit("hash"); reveal_strlit("jws");
  assert("base64"@.len() == 6 && "json"@.len() == 4 && "links"@.len() == 5 && "hash"@.len() == 4 && "jws"@.len() == 3); assert("json"@[0] != "hash"@[0]); }
pub proof fn attachment_names() ensures
    "data"@ != "id"@, "data"@ != "description"@, "data"@ != "filename"@, "data"@ != "media_type"@, "data"@ != "format"@, "data"@ != "lastmod_time"@, "data"@ != "byte_count"@,
    "id"@ != "description"@, "id"@ != "filename"@, "id"@ != "media_type"@, "id"@ != "format"@, "id"@ != "lastmod_time"@, "id"@ != "byte_count"@,
    "description"@ != "filename"@, "description"@ != "media_type"@, "description"@ != "format"@, "description"@ != "lastmod_time"@, "description"@ != "byte_count"@,
    "filename"@ != "media_type"@, "filename"@ != "format"@, "filename"@ != "lastmod_time"@, "filename"@ != "byte_count"@,
    "media_type"@ != "format"@, "media_type"@ != "lastmod_time"@, "media_type"@ != "byte_count"@, "format"@ != "lastmod_time"@, "format"@ != "byte_count"@, "lastmod_time"@ != "byte_count"@
{ reveal_strlit("data"); reveal_strlit("id"); reveal_strlit("description"); reveal_strlit("filename"); reveal_strlit("media_type"); reveal_strlit("format"); reveal_strlit("lastmod_time"); reveal_strlit("byte_count");
  assert("data"@.len() == 4 && "id"@.len() == 2 && "description"@.len() == 11 && "filename"@.len() == 8 && "media_type"@.len() == 10 && "format"@.len() == 6 && "lastmod_time"@.len() == 12 && "byte_count"@.len() == 10);
  assert("media_type"@[0] != "byte_count"@[0]); }
/// what is written for the data: exactly the documented members
pub proof fn data_written(d: AttachmentData) ensures d.ser() == obj(data_wire(d))
{ broadcast use {value_axioms, json_axioms}; data_names();
  assert(members(d.ser()) =~= data_wire(d)); assert(d.ser() is Object); }
/// and read back as the same data of the same kind
pub proof fn data_round_trip(d: AttachmentData) ensures AttachmentData::de(d.ser()) == Some(d)
{ broadcast use {value_axioms, json_axioms}; data_names(); data_written(d);
  match d { AttachmentData::Links { value } => { vec_round_trip(value.links) } _ => {} } }
/// the kind that is read depends on the members alone
pub open spec fn is_b64(m: Map<Seq<char>, Value>) -> bool { has::<String>(m, "base64"@) && opt_ok::<String>(m, "jws"@) }
pub proof fn data_read(j: Value)
    ensures AttachmentData::de(j) == (match j { Value::Object(o) => { let m = o.jm();
        if !opt_ok::<String>(m, "jws"@) { None }
        else if has::<String>(m, "base64"@) { Some(AttachmentData::Base64 { value: Base64AttachmentData { base64: get(m, "base64"@), jws: opt_get(m, "jws"@) } }) }
        else if m.contains_key("json"@) { Some(AttachmentData::Json { value: JsonAttachmentData { json: m["json"@], jws: opt_get(m, "jws"@) } }) }
        else if has::<Vec<String>>(m, "links"@) && has::<String>(m, "hash"@) { Some(AttachmentData::Links { value: LinksAttachmentData { links: get(m, "links"@), hash: get(m, "hash"@), jws: opt_get(m, "jws"@) } }) }
        else { None } }, _ => None })
{ broadcast use {value_axioms, json_axioms}; data_names(); }
pub proof fn attachment_written(a: Attachment) ensures a.ser() == obj(attachment_wire(a))
{ broadcast use {value_axioms, json_axioms}; attachment_names();
  assert(members(a.ser()) =~= attachment_wire(a)); assert(a.ser() is Object); }
pub proof fn attachment_round_trip(a: Attachment) ensures Attachment::de(a.ser()) == Some(a)
{ broadcast use {value_axioms, json_axioms}; attachment_names(); attachment_written(a); data_round_trip(a.data); data_written(a.data); }
/// reading an attachment object: data of one of the three kinds, and every other member as its type says
pub proof fn attachment_read(o: JMap)
    ensures Attachment::de(Value::Object(o)) == ({ let m = o.jm();
        if m.contains_key("data"@) && AttachmentData::de(m["data"@]) is Some && opt_ok::<String>(m, "id"@) && opt_ok::<String>(m, "description"@) && opt_ok::<String>(m, "filename"@)
            && opt_ok::<String>(m, "media_type"@) && opt_ok::<String>(m, "format"@) && opt_ok::<u64>(m, "lastmod_time"@) && opt_ok::<u64>(m, "byte_count"@) {
            Some(Attachment { data: AttachmentData::de(m["data"@])->0, id: opt_get(m, "id"@), description: opt_get(m, "description"@), filename: opt_get(m, "filename"@), media_type: opt_get(m, "media_type"@),
                format: opt_get(m, "format"@), lastmod_time: opt_get(m, "lastmod_time"@), byte_count: opt_get(m, "byte_count"@) })
        } else { None } })
{ broadcast use {value_axioms, json_axioms}; attachment_names(); }

@alias to_string
@module crate::message::message src/message/message.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::error::{err_msg, ErrorKind, Result, ToResult}; use crate::message::attachment::*; use crate::vx::HashMap;
use crate::error::json_kind;
@type Message serde
@const PLAINTEXT_TYP
@type MessageBuilder
@raw
pub open spec fn plaintext_typ() -> Seq<char> { "application/didcomm-plain+json"@ }
pub open spec fn default_typ_spec() -> String { str_of(plaintext_typ()) }
@fn default_typ -> r
ensures r == default_typ_spec(),
@start
broadcast use value_axioms;

@fn Message :: build -> r
ensures mb_new(r, id, type_, body),
@raw
pub open spec fn mb_new(r: MessageBuilder, id: String, type_: String, body: Value) -> bool {
    r.id == id && r.type_ == type_ && r.body == body && r.from is None && r.to is None && r.thid is None && r.pthid is None && hm(r.extra_headers) == no_members()
    && r.created_time is None && r.expires_time is None && r.from_prior is None && r.attachments is None
}
/// a list-valued field after adding to it
pub open spec fn list_of<T>(o: Option<Vec<T>>) -> Seq<T> { match o { None => seq![], Some(v) => v@ } }
/// the two builders agree on everything but the named field
pub open spec fn rest_eq(a: MessageBuilder, b: MessageBuilder) -> bool { a.id == b.id && a.type_ == b.type_ && a.body == b.body }

@fn Message :: from_str -> r
ensures match r { Ok(m) => json_de::<Message>(s@) == Ok::<Message, serde_json::Error>(m), Err(e) => json_de::<Message>(s@) is Err && e.kind == json_kind(json_de::<Message>(s@)->Err_0) },

@fn Message :: validate -> r
ensures match r { Ok(m) => m == self && self.typ@ == plaintext_typ(), Err(e) => self.typ@ != plaintext_typ() && e.kind == ErrorKind::Malformed },

@fn MessageBuilder :: new -> r
ensures mb_new(r, id, type_, body),
@fn MessageBuilder :: to -> r
ensures r == (MessageBuilder { to: r.to, ..self }), r.to is Some, r.to->0@ == list_of(self.to).push(to),
@fn MessageBuilder :: to_many -> r
ensures r == (MessageBuilder { to: r.to, ..self }), r.to is Some, r.to->0@ == list_of(self.to) + to@,
@tail
proof { assert(seq![] + to@ =~= to@); }
@fn MessageBuilder :: from -> r
ensures r == (MessageBuilder { from: Some(from), ..self }),
@fn MessageBuilder :: thid -> r
ensures r == (MessageBuilder { thid: Some(thid), ..self }),
@fn MessageBuilder :: pthid -> r
ensures r == (MessageBuilder { pthid: Some(pthid), ..self }),
@fn MessageBuilder :: header -> r
ensures r == (MessageBuilder { extra_headers: r.extra_headers, ..self }), hm(r.extra_headers) == hm(self.extra_headers).insert(key@, value),
@fn MessageBuilder :: created_time -> r
ensures r == (MessageBuilder { created_time: Some(created_time), ..self }),
@fn MessageBuilder :: expires_time -> r
ensures r == (MessageBuilder { expires_time: Some(expires_time), ..self }),
@fn MessageBuilder :: from_prior -> r
ensures r == (MessageBuilder { from_prior: Some(from_prior), ..self }),
@fn MessageBuilder :: attachment -> r
ensures r == (MessageBuilder { attachments: r.attachments, ..self }), r.attachments is Some, r.attachments->0@ == list_of(self.attachments).push(attachment),
@fn MessageBuilder :: attachments -> r
ensures r == (MessageBuilder { attachments: r.attachments, ..self }), r.attachments is Some, r.attachments->0@ == list_of(self.attachments) + attachments@,
@tail
proof { assert(seq![] + attachments@ =~= attachments@); }
@fn MessageBuilder :: finalize -> r
ensures r == (Message { id: self.id, typ: r.typ, type_: self.type_, body: self.body, from: self.from, to: self.to, thid: self.thid, pthid: self.pthid, extra_headers: self.extra_headers,
    created_time: self.created_time, expires_time: self.expires_time, from_prior: self.from_prior, attachments: self.attachments }), r.typ@ == plaintext_typ(),
@raw
pub proof fn message_names() ensures "id"@ != "typ"@, "id"@ != "type"@, "id"@ != "body"@, "id"@ != "from"@, "id"@ != "to"@, "id"@ != "thid"@, "id"@ != "pthid"@, "id"@ != "created_time"@, "id"@ != "expires_time"@, "id"@ != "from_prior"@, "id"@ != "attachments"@, "typ"@ != "type"@, "typ"@ != "body"@, "typ"@ != "from"@, "typ"@ != "to"@, "typ"@ != "thid"@, "typ"@ != "pthid"@, "typ"@ != "created_time"@, "typ"@ != "expires_time"@, "typ"@ != "from_prior"@, "typ"@ != "attachments"@, "type"@ != "body"@, "type"@ != "from"@, "type"@ != "to"@, "type"@ != "thid"@, "type"@ != "pthid"@, "type"@ != "created_time"@, "type"@ != "expires_time"@, "type"@ != "from_prior"@, "type"@ != "attachments"@, "body"@ != "from"@, "body"@ != "to"@, "body"@ != "thid"@, "body"@ != "pthid"@, "body"@ != "created_time"@, "body"@ != "expires_time"@, "body"@ != "from_prior"@, "body"@ != "attachments"@, "from"@ != "to"@, "from"@ != "thid"@, "from"@ != "pthid"@, "from"@ != "created_time"@, "from"@ != "expires_time"@, "from"@ != "from_prior"@, "from"@ != "attachments"@, "to"@ != "thid"@, "to"@ != "pthid"@, "to"@ != "created_time"@, "to"@ != "expires_time"@, "to"@ != "from_prior"@, "to"@ != "attachments"@, "thid"@ != "pthid"@, "thid"@ != "created_time"@, "thid"@ != "expires_time"@, "thid"@ != "from_prior"@, "thid"@ != "attachments"@, "pthid"@ != "created_time"@, "pthid"@ != "expires_time"@, "pthid"@ != "from_prior"@, "pthid"@ != "attachments"@, "created_time"@ != "expires_time"@, "created_time"@ != "from_prior"@, "created_time"@ != "attachments"@, "expires_time"@ != "from_prior"@, "expires_time"@ != "attachments"@, "from_prior"@ != "attachments"@
{ reveal_strlit("id"); reveal_strlit("typ"); reveal_strlit("type"); reveal_strlit("body"); reveal_strlit("from"); reveal_strlit("to"); reveal_strlit("thid"); reveal_strlit("pthid"); reveal_strlit("created_time"); reveal_strlit("expires_time"); reveal_strlit("from_prior"); reveal_strlit("attachments");
  assert("id"@.len() == 2 && "typ"@.len() == 3 && "type"@.len() == 4 && "body"@.len() == 4 && "from"@.len() == 4 && "to"@.len() == 2 && "thid"@.len() == 4 && "pthid"@.len() == 5 && "created_time"@.len() == 12 && "expires_time"@.len() == 12 && "from_prior"@.len() == 10 && "attachments"@.len() == 11);
  assert("id"@[0] != "to"@[0]); assert("type"@[0] != "body"@[0]); assert("type"@[0] != "from"@[0]); assert("type"@[1] != "thid"@[1]); assert("body"@[0] != "from"@[0]); assert("body"@[0] != "thid"@[0]); assert("from"@[0] != "thid"@[0]); assert("created_time"@[0] != "expires_time"@[0]); }
pub open spec fn reserved() -> Set<Seq<char>> { set!["id"@, "typ"@, "type"@, "body"@, "from"@, "to"@, "thid"@, "pthid"@, "created_time"@, "expires_time"@, "from_prior"@, "attachments"@] }
/// the extra headers that reading this object gives: its members without the reserved names
pub open spec fn extra(m: Map<Seq<char>, Value>) -> Map<Seq<char>, Value> { m.remove_keys(reserved()) }
/// the members named by the specification, then the extra headers
pub open spec fn message_wire(a: Message) -> Map<Seq<char>, Value> {
    let m = no_members().insert("id"@, jstr(a.id@)).insert("typ"@, jstr(a.typ@)).insert("type"@, jstr(a.type_@)).insert("body"@, a.body);
    let m = opt_ins(m, "from"@, a.from); let m = opt_ins(m, "to"@, a.to); let m = opt_ins(m, "thid"@, a.thid); let m = opt_ins(m, "pthid"@, a.pthid);
    let m = opt_ins(m, "created_time"@, a.created_time); let m = opt_ins(m, "expires_time"@, a.expires_time); let m = opt_ins(m, "from_prior"@, a.from_prior);
    let m = opt_ins(m, "attachments"@, a.attachments);
    m.union_prefer_right(hm(a.extra_headers))
}
pub open spec fn no_reuse(a: Message) -> bool { hm(a.extra_headers).dom().disjoint(reserved()) }
pub proof fn message_written(a: Message) requires no_reuse(a) ensures a.ser() == obj(message_wire(a))
{ broadcast use {value_axioms, json_axioms, hm_axioms}; message_names();
  if hm(a.extra_headers).len() == 0 { assert(hm(a.extra_headers) =~= no_members()); }
  assert forall|k: Seq<char>| reserved().contains(k) implies !hm(a.extra_headers).contains_key(k) by { assert(!hm(a.extra_headers).dom().contains(k)); }
  assert(members(a.ser()) =~= message_wire(a)); assert(a.ser() is Object); }
/// reading an object: every member of the specification with its type, everything else an extra header
pub open spec fn read_ok(m: Map<Seq<char>, Value>) -> bool {
    has::<String>(m, "id"@) && has::<String>(m, "type"@) && m.contains_key("body"@) && (m.contains_key("typ"@) ==> has::<String>(m, "typ"@))
    && opt_ok::<String>(m, "from"@) && opt_ok::<Vec<String>>(m, "to"@) && opt_ok::<String>(m, "thid"@) && opt_ok::<String>(m, "pthid"@)
    && opt_ok::<u64>(m, "created_time"@) && opt_ok::<u64>(m, "expires_time"@) && opt_ok::<String>(m, "from_prior"@) && opt_ok::<Vec<Attachment>>(m, "attachments"@)
}
pub open spec fn read_as(m: Map<Seq<char>, Value>) -> Message {
    Message { id: get(m, "id"@), typ: if m.contains_key("typ"@) { get(m, "typ"@) } else { default_typ_spec() }, type_: get(m, "type"@), body: m["body"@],
        from: opt_get(m, "from"@), to: opt_get(m, "to"@), thid: opt_get(m, "thid"@), pthid: opt_get(m, "pthid"@), created_time: opt_get(m, "created_time"@), expires_time: opt_get(m, "expires_time"@),
        from_prior: opt_get(m, "from_prior"@), attachments: opt_get(m, "attachments"@), extra_headers: hm_of(extra(m)) }
}
pub proof fn message_read(o: JMap) ensures Message::de(Value::Object(o)) == (if read_ok(o.jm()) { Some(read_as(o.jm())) } else { None })
{ broadcast use {value_axioms, json_axioms, hm_axioms}; message_names();
  let m = o.jm();
  assert(m.remove("attachments"@).remove("body"@).remove("created_time"@).remove("expires_time"@).remove("from"@).remove("from_prior"@).remove("id"@).remove("pthid"@).remove("thid"@).remove("to"@).remove("typ"@).remove("type"@) =~= extra(m)); }
pub proof fn message_round_trip(a: Message) requires no_reuse(a) ensures Message::de(a.ser()) == Some(a)
{ broadcast use {value_axioms, json_axioms, hm_axioms}; message_names(); message_written(a);
  let m = message_wire(a); message_read(obj_of(m));
  assert forall|k: Seq<char>| reserved().contains(k) implies !hm(a.extra_headers).contains_key(k) by { assert(!hm(a.extra_headers).dom().contains(k)); }
  if a.to is Some { vec_round_trip(a.to->0) }
  if a.attachments is Some { assert forall|i: int| 0 <= i < a.attachments->0@.len() implies Attachment::de(#[trigger] a.attachments->0@[i].ser()) == Some(a.attachments->0@[i]) by { attachment_round_trip(a.attachments->0@[i]); } vec_round_trip(a.attachments->0); }
  assert(extra(m) =~= hm(a.extra_headers)) by { assert forall|k: Seq<char>| extra(m).contains_key(k) <==> hm(a.extra_headers).contains_key(k) by {} }
}
/// from_str over the text: a data error for an object that is not a message, the message it denotes otherwise
pub proof fn message_text(s: Seq<char>) ensures match json_de::<Message>(s) {
    Ok(m) => tree(s) is Some ==> Message::de(tree(s)->0) == Some(m),
    Err(e) => tree(s) is Some ==> Message::de(tree(s)->0) is None && json_kind(e) == ErrorKind::Malformed }
{ reads_owned::<Message>(s); }
/// typ as read: the text that is there, or the plaintext media type
pub proof fn typ_read(o: JMap) ensures match Message::de(Value::Object(o)) {
    Some(m) => if o.jm().contains_key("typ"@) { o.jm()["typ"@] == Value::String(m.typ) } else { m.typ@ == plaintext_typ() }, None => true }
{ broadcast use {value_axioms, json_axioms}; message_names(); }
