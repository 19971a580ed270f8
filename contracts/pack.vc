C05-C07: packing.

@module crate::message::pack_plaintext src/message/pack_plaintext.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::message::*; use crate::message::from_prior::*; use crate::did::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@fn Message :: pack_plaintext -> r

@module crate::message::pack_signed src/message/pack_signed.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::message::*; use crate::did::*; use crate::secrets::*; use crate::utils::did::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type PackSignedMetadata
@fn Message :: pack_signed -> r
ensures !is_did_spec(sign_by@) ==> r is Err && r->Err_0.kind == ErrorKind::IllegalArgument,
@fn Message :: _validate_pack_signed -> r
ensures match r { Ok(_) => is_did_spec(sign_by@), Err(e) => !is_did_spec(sign_by@) && e.kind == ErrorKind::IllegalArgument },

@module crate::message::pack_encrypted src/message/pack_encrypted/mod.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::message::message::*; use crate::did::*; use crate::secrets::*; use crate::utils::did::*; use crate::algorithms::*; use crate::vx::HashMap;
use crate::message::pack_signed::*; use crate::message::pack_plaintext::*; use crate::message::pack_encrypted::anoncrypt::*; use crate::message::pack_encrypted::authcrypt::*; use crate::protocols::routing::wrap_in_forward_if_needed;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type PackEncryptedOptions
@type PackEncryptedMetadata
@type MessagingServiceMetadata
@raw
/// the addresses do not contradict the message
pub open spec fn may_pack(m: Message, to: Seq<char>, from: Option<&str>, sign_by: Option<&str>) -> bool {
    is_did_spec(to) && (from is Some ==> is_did_spec(from->0@)) && (sign_by is Some ==> is_did_spec(sign_by->0@))
    && (m.to is Some ==> lists(m.to->0@, did_part(to))) && (from is Some && m.from is Some ==> m.from->0@ == did_part(from->0@))
}
@fn Message :: _validate_pack_encrypted -> r
ensures match r { Ok(_) => may_pack(*self, to@, from, sign_by), Err(e) => !may_pack(*self, to@, from, sign_by) && e.kind == ErrorKind::IllegalArgument },
@start
proof { did_part_is(to@); if from is Some { did_part_is(from->0@); } }
@fn Message :: pack_encrypted -> r
ensures !may_pack(*self, to@, from, sign_by) ==> r is Err && r->Err_0.kind == ErrorKind::IllegalArgument,
