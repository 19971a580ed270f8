C26: the JSON form and the defaults of options, and the JSON form of metadata.

@module crate::utils::serde src/utils/serde.rs
@raw
pub open spec fn _true_spec() -> bool { true }
@fn _true -> r
ensures r == _true_spec(),

@module crate::algorithms src/algorithms.rs
@raw
use crate::serde_json::*;
@type AnonCryptAlg serde
@type AuthCryptAlg serde
@type SignAlg serde
@raw
impl JsonDefault for AnonCryptAlg { open spec fn dflt() -> Self { AnonCryptAlg::Xc20pEcdhEsA256kw } }
impl JsonDefault for AuthCryptAlg { open spec fn dflt() -> Self { AuthCryptAlg::A256cbcHs512Ecdh1puA256kw } }
/// the names of the algorithms in options and metadata
pub open spec fn anon_text(a: AnonCryptAlg) -> Seq<char> { match a { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw"@, AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw"@, AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw"@ } }
pub open spec fn anon_of(s: Seq<char>) -> Option<AnonCryptAlg> { if s == "A256cbcHs512EcdhEsA256kw"@ { Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw) } else if s == "Xc20pEcdhEsA256kw"@ { Some(AnonCryptAlg::Xc20pEcdhEsA256kw) } else if s == "A256gcmEcdhEsA256kw"@ { Some(AnonCryptAlg::A256gcmEcdhEsA256kw) } else { None } }
pub open spec fn auth_text(a: AuthCryptAlg) -> Seq<char> { "A256cbcHs512Ecdh1puA256kw"@ }
pub open spec fn sign_text(a: SignAlg) -> Seq<char> { match a { SignAlg::EdDSA => "EdDSA"@, SignAlg::ES256 => "ES256"@, SignAlg::ES256K => "ES256K"@ } }
pub proof fn anon_alg_texts() ensures "A256cbcHs512EcdhEsA256kw"@ != "Xc20pEcdhEsA256kw"@, "A256cbcHs512EcdhEsA256kw"@ != "A256gcmEcdhEsA256kw"@, "Xc20pEcdhEsA256kw"@ != "A256gcmEcdhEsA256kw"@
{ reveal_strlit("A256cbcHs512EcdhEsA256kw"); reveal_strlit("Xc20pEcdhEsA256kw"); reveal_strlit("A256gcmEcdhEsA256kw");
  assert("A256cbcHs512EcdhEsA256kw"@.len() == 24 && "Xc20pEcdhEsA256kw"@.len() == 17 && "A256gcmEcdhEsA256kw"@.len() == 19);
   }
pub proof fn sign_alg_texts() ensures "EdDSA"@ != "ES256"@, "EdDSA"@ != "ES256K"@, "ES256"@ != "ES256K"@
{ reveal_strlit("EdDSA"); reveal_strlit("ES256"); reveal_strlit("ES256K");
  assert("EdDSA"@.len() == 5 && "ES256"@.len() == 5 && "ES256K"@.len() == 6);
  assert("EdDSA"@[1] != "ES256"@[1]); }

/// written under its name, and only that name is read as it
pub proof fn anon_names(a: AnonCryptAlg, s: String) ensures a.ser() == jstr(anon_text(a)), AnonCryptAlg::de(Value::String(s)) == anon_of(s@), AnonCryptAlg::de(a.ser()) == Some(a)
{ broadcast use value_axioms; anon_alg_texts(); }
pub proof fn auth_names(a: AuthCryptAlg, s: String) ensures a.ser() == jstr(auth_text(a)), AuthCryptAlg::de(Value::String(s)) == (if s@ == auth_text(a) { Some(a) } else { None }), AuthCryptAlg::de(a.ser()) == Some(a)
{ broadcast use value_axioms; }
pub proof fn sign_names(a: SignAlg, s: String) ensures a.ser() == jstr(sign_text(a)), SignAlg::de(Value::String(s)) == (if s@ == "EdDSA"@ { Some(SignAlg::EdDSA) } else if s@ == "ES256"@ { Some(SignAlg::ES256) } else if s@ == "ES256K"@ { Some(SignAlg::ES256K) } else { None }), SignAlg::de(a.ser()) == Some(a)
{ broadcast use value_axioms; sign_alg_texts(); }
pub proof fn algs_are_texts(j: Value) requires !(j is String), !(j is Object), ensures AnonCryptAlg::de(j) is None, AuthCryptAlg::de(j) is None, SignAlg::de(j) is None
{ }
@fn Default for AnonCryptAlg :: default -> r
ensures r == AnonCryptAlg::dflt(),
@fn Default for AuthCryptAlg :: default -> r
ensures r == AuthCryptAlg::dflt(),

@module crate::message::pack_signed src/message/pack_signed.rs
@raw
use crate::serde_json::*;
@type PackSignedMetadata serde
@raw
pub proof fn signed_metadata_written(x: PackSignedMetadata) ensures x.ser() == obj(no_members().insert("sign_by_kid"@, jstr(x.sign_by_kid@)))
{ broadcast use {value_axioms, json_axioms}; assert(members(x.ser()) =~= no_members().insert("sign_by_kid"@, jstr(x.sign_by_kid@))); assert(x.ser() is Object); }

@module crate::message::pack_encrypted src/message/pack_encrypted/mod.rs
@raw
use vstd::prelude::*; use crate::serde_json::*; use crate::algorithms::*; use crate::vx::{value_axioms, HashMap};
@type PackEncryptedOptions serde
@type PackEncryptedMetadata serde
@type MessagingServiceMetadata serde
@fn Default for PackEncryptedOptions :: default -> r
ensures r == default_packing(),
@raw
pub open spec fn default_packing() -> PackEncryptedOptions { PackEncryptedOptions { protect_sender: false, forward: true, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw } }
pub proof fn options_names() ensures "protect_sender"@ != "forward"@, "protect_sender"@ != "forward_headers"@, "protect_sender"@ != "messaging_service"@, "protect_sender"@ != "enc_alg_auth"@, "protect_sender"@ != "enc_alg_anon"@, "forward"@ != "forward_headers"@, "forward"@ != "messaging_service"@, "forward"@ != "enc_alg_auth"@, "forward"@ != "enc_alg_anon"@, "forward_headers"@ != "messaging_service"@, "forward_headers"@ != "enc_alg_auth"@, "forward_headers"@ != "enc_alg_anon"@, "messaging_service"@ != "enc_alg_auth"@, "messaging_service"@ != "enc_alg_anon"@, "enc_alg_auth"@ != "enc_alg_anon"@
{ reveal_strlit("protect_sender"); reveal_strlit("forward"); reveal_strlit("forward_headers"); reveal_strlit("messaging_service"); reveal_strlit("enc_alg_auth"); reveal_strlit("enc_alg_anon");
  assert("protect_sender"@.len() == 14 && "forward"@.len() == 7 && "forward_headers"@.len() == 15 && "messaging_service"@.len() == 17 && "enc_alg_auth"@.len() == 12 && "enc_alg_anon"@.len() == 12);
  assert("enc_alg_auth"@[9] != "enc_alg_anon"@[9]); }
pub proof fn packed_names() ensures "messaging_service"@ != "from_kid"@, "messaging_service"@ != "sign_by_kid"@, "messaging_service"@ != "to_kids"@, "messaging_service"@ != "id"@, "messaging_service"@ != "service_endpoint"@, "from_kid"@ != "sign_by_kid"@, "from_kid"@ != "to_kids"@, "from_kid"@ != "id"@, "from_kid"@ != "service_endpoint"@, "sign_by_kid"@ != "to_kids"@, "sign_by_kid"@ != "id"@, "sign_by_kid"@ != "service_endpoint"@, "to_kids"@ != "id"@, "to_kids"@ != "service_endpoint"@, "id"@ != "service_endpoint"@
{ reveal_strlit("messaging_service"); reveal_strlit("from_kid"); reveal_strlit("sign_by_kid"); reveal_strlit("to_kids"); reveal_strlit("id"); reveal_strlit("service_endpoint");
  assert("messaging_service"@.len() == 17 && "from_kid"@.len() == 8 && "sign_by_kid"@.len() == 11 && "to_kids"@.len() == 7 && "id"@.len() == 2 && "service_endpoint"@.len() == 16);
   }
/// a member that may be missing, and then means d
pub open spec fn may_has<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { m.contains_key(k) ==> has::<T>(m, k) }
pub open spec fn or<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>, d: T) -> T { if m.contains_key(k) { get(m, k) } else { d } }
/// the options that an object denotes: every member may be missing and then means the built-in default; unknown members are ignored
pub proof fn options_read(o: JMap) ensures PackEncryptedOptions::de(Value::Object(o)) == ({ let m = o.jm(); let d = default_packing();
    if may_has::<bool>(m, "protect_sender"@) && may_has::<bool>(m, "forward"@) && opt_ok::<HashMap<String, Value>>(m, "forward_headers"@) && opt_ok::<String>(m, "messaging_service"@) && may_has::<AuthCryptAlg>(m, "enc_alg_auth"@) && may_has::<AnonCryptAlg>(m, "enc_alg_anon"@)
    { Some(PackEncryptedOptions { protect_sender: or(m, "protect_sender"@, d.protect_sender), forward: or(m, "forward"@, d.forward), forward_headers: opt_get(m, "forward_headers"@), messaging_service: opt_get(m, "messaging_service"@), enc_alg_auth: or(m, "enc_alg_auth"@, d.enc_alg_auth), enc_alg_anon: or(m, "enc_alg_anon"@, d.enc_alg_anon) }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; options_names(); }
/// so the empty object is the built-in default
pub proof fn no_options_read(o: JMap) requires o.jm() == no_members(), ensures PackEncryptedOptions::de(Value::Object(o)) == Some(default_packing())
{ options_read(o); }
/// null for what is not there
pub open spec fn or_null<T: JsonT>(x: Option<T>) -> Value { match x { Some(v) => v.ser(), None => Value::Null } }
pub open spec fn service_members(x: MessagingServiceMetadata) -> Map<Seq<char>, Value> { no_members().insert("id"@, jstr(x.id@)).insert("service_endpoint"@, jstr(x.service_endpoint@)) }
pub proof fn service_metadata_written(x: MessagingServiceMetadata) ensures x.ser() == obj(service_members(x))
{ broadcast use {value_axioms, json_axioms}; packed_names(); assert(members(x.ser()) =~= service_members(x)); assert(x.ser() is Object); }
pub open spec fn packed_members(x: PackEncryptedMetadata) -> Map<Seq<char>, Value> {
    no_members().insert("messaging_service"@, match x.messaging_service { Some(s) => obj(service_members(s)), None => Value::Null }).insert("from_kid"@, or_null(x.from_kid)).insert("sign_by_kid"@, or_null(x.sign_by_kid)).insert("to_kids"@, x.to_kids.ser()) }
pub proof fn packed_metadata_written(x: PackEncryptedMetadata) ensures x.ser() == obj(packed_members(x))
{ broadcast use {value_axioms, json_axioms}; packed_names(); if x.messaging_service is Some { service_metadata_written(x.messaging_service->0); } assert(members(x.ser()) =~= packed_members(x)); assert(x.ser() is Object); }

@module crate::message::unpack src/message/unpack/mod.rs
@raw
use crate::serde_json::*; use crate::algorithms::*; use crate::message::from_prior::*;
@type UnpackOptions serde
@type UnpackMetadata serde
@fn Default for UnpackOptions :: default -> r
ensures r == (UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: true }),
@raw
use crate::message::pack_encrypted::{may_has, or, or_null};
pub proof fn unpack_options_names() ensures "expect_decrypt_by_all_keys"@ != "unwrap_re_wrapping_forward"@
{ reveal_strlit("expect_decrypt_by_all_keys"); reveal_strlit("unwrap_re_wrapping_forward");
  assert("expect_decrypt_by_all_keys"@.len() == 26 && "unwrap_re_wrapping_forward"@.len() == 26);
  assert("expect_decrypt_by_all_keys"@[0] != "unwrap_re_wrapping_forward"@[0]); }
pub proof fn unpacked_names() ensures "encrypted"@ != "authenticated"@, "encrypted"@ != "non_repudiation"@, "encrypted"@ != "anonymous_sender"@, "encrypted"@ != "re_wrapped_in_forward"@, "encrypted"@ != "encrypted_from_kid"@, "encrypted"@ != "encrypted_to_kids"@, "encrypted"@ != "sign_from"@, "encrypted"@ != "from_prior_issuer_kid"@, "encrypted"@ != "enc_alg_auth"@, "encrypted"@ != "enc_alg_anon"@, "encrypted"@ != "sign_alg"@, "encrypted"@ != "signed_message"@, "encrypted"@ != "from_prior"@, "authenticated"@ != "non_repudiation"@, "authenticated"@ != "anonymous_sender"@, "authenticated"@ != "re_wrapped_in_forward"@, "authenticated"@ != "encrypted_from_kid"@, "authenticated"@ != "encrypted_to_kids"@, "authenticated"@ != "sign_from"@, "authenticated"@ != "from_prior_issuer_kid"@, "authenticated"@ != "enc_alg_auth"@, "authenticated"@ != "enc_alg_anon"@, "authenticated"@ != "sign_alg"@, "authenticated"@ != "signed_message"@, "authenticated"@ != "from_prior"@, "non_repudiation"@ != "anonymous_sender"@, "non_repudiation"@ != "re_wrapped_in_forward"@, "non_repudiation"@ != "encrypted_from_kid"@, "non_repudiation"@ != "encrypted_to_kids"@, "non_repudiation"@ != "sign_from"@, "non_repudiation"@ != "from_prior_issuer_kid"@, "non_repudiation"@ != "enc_alg_auth"@, "non_repudiation"@ != "enc_alg_anon"@, "non_repudiation"@ != "sign_alg"@, "non_repudiation"@ != "signed_message"@, "non_repudiation"@ != "from_prior"@, "anonymous_sender"@ != "re_wrapped_in_forward"@, "anonymous_sender"@ != "encrypted_from_kid"@, "anonymous_sender"@ != "encrypted_to_kids"@, "anonymous_sender"@ != "sign_from"@, "anonymous_sender"@ != "from_prior_issuer_kid"@, "anonymous_sender"@ != "enc_alg_auth"@, "anonymous_sender"@ != "enc_alg_anon"@, "anonymous_sender"@ != "sign_alg"@, "anonymous_sender"@ != "signed_message"@, "anonymous_sender"@ != "from_prior"@, "re_wrapped_in_forward"@ != "encrypted_from_kid"@, "re_wrapped_in_forward"@ != "encrypted_to_kids"@, "re_wrapped_in_forward"@ != "sign_from"@, "re_wrapped_in_forward"@ != "from_prior_issuer_kid"@, "re_wrapped_in_forward"@ != "enc_alg_auth"@, "re_wrapped_in_forward"@ != "enc_alg_anon"@, "re_wrapped_in_forward"@ != "sign_alg"@, "re_wrapped_in_forward"@ != "signed_message"@, "re_wrapped_in_forward"@ != "from_prior"@, "encrypted_from_kid"@ != "encrypted_to_kids"@, "encrypted_from_kid"@ != "sign_from"@, "encrypted_from_kid"@ != "from_prior_issuer_kid"@, "encrypted_from_kid"@ != "enc_alg_auth"@, "encrypted_from_kid"@ != "enc_alg_anon"@, "encrypted_from_kid"@ != "sign_alg"@, "encrypted_from_kid"@ != "signed_message"@, "encrypted_from_kid"@ != "from_prior"@, "encrypted_to_kids"@ != "sign_from"@, "encrypted_to_kids"@ != "from_prior_issuer_kid"@, "encrypted_to_kids"@ != "enc_alg_auth"@, "encrypted_to_kids"@ != "enc_alg_anon"@, "encrypted_to_kids"@ != "sign_alg"@, "encrypted_to_kids"@ != "signed_message"@, "encrypted_to_kids"@ != "from_prior"@, "sign_from"@ != "from_prior_issuer_kid"@, "sign_from"@ != "enc_alg_auth"@, "sign_from"@ != "enc_alg_anon"@, "sign_from"@ != "sign_alg"@, "sign_from"@ != "signed_message"@, "sign_from"@ != "from_prior"@, "from_prior_issuer_kid"@ != "enc_alg_auth"@, "from_prior_issuer_kid"@ != "enc_alg_anon"@, "from_prior_issuer_kid"@ != "sign_alg"@, "from_prior_issuer_kid"@ != "signed_message"@, "from_prior_issuer_kid"@ != "from_prior"@, "enc_alg_auth"@ != "enc_alg_anon"@, "enc_alg_auth"@ != "sign_alg"@, "enc_alg_auth"@ != "signed_message"@, "enc_alg_auth"@ != "from_prior"@, "enc_alg_anon"@ != "sign_alg"@, "enc_alg_anon"@ != "signed_message"@, "enc_alg_anon"@ != "from_prior"@, "sign_alg"@ != "signed_message"@, "sign_alg"@ != "from_prior"@, "signed_message"@ != "from_prior"@
{ reveal_strlit("encrypted"); reveal_strlit("authenticated"); reveal_strlit("non_repudiation"); reveal_strlit("anonymous_sender"); reveal_strlit("re_wrapped_in_forward"); reveal_strlit("encrypted_from_kid"); reveal_strlit("encrypted_to_kids"); reveal_strlit("sign_from"); reveal_strlit("from_prior_issuer_kid"); reveal_strlit("enc_alg_auth"); reveal_strlit("enc_alg_anon"); reveal_strlit("sign_alg"); reveal_strlit("signed_message"); reveal_strlit("from_prior");
  assert("encrypted"@.len() == 9 && "authenticated"@.len() == 13 && "non_repudiation"@.len() == 15 && "anonymous_sender"@.len() == 16 && "re_wrapped_in_forward"@.len() == 21 && "encrypted_from_kid"@.len() == 18 && "encrypted_to_kids"@.len() == 17 && "sign_from"@.len() == 9 && "from_prior_issuer_kid"@.len() == 21 && "enc_alg_auth"@.len() == 12 && "enc_alg_anon"@.len() == 12 && "sign_alg"@.len() == 8 && "signed_message"@.len() == 14 && "from_prior"@.len() == 10);
  assert("encrypted"@[0] != "sign_from"@[0]); assert("re_wrapped_in_forward"@[0] != "from_prior_issuer_kid"@[0]); assert("enc_alg_auth"@[9] != "enc_alg_anon"@[9]); }
pub proof fn unpack_options_read(o: JMap) ensures UnpackOptions::de(Value::Object(o)) == ({ let m = o.jm();
    if may_has::<bool>(m, "expect_decrypt_by_all_keys"@) && may_has::<bool>(m, "unwrap_re_wrapping_forward"@) { Some(UnpackOptions { expect_decrypt_by_all_keys: or(m, "expect_decrypt_by_all_keys"@, false), unwrap_re_wrapping_forward: or(m, "unwrap_re_wrapping_forward"@, false) }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; unpack_options_names(); }
pub open spec fn unpacked_members(x: UnpackMetadata) -> Map<Seq<char>, Value> {
    let m = no_members().insert("encrypted"@, Value::Bool(x.encrypted)).insert("authenticated"@, Value::Bool(x.authenticated)).insert("non_repudiation"@, Value::Bool(x.non_repudiation)).insert("anonymous_sender"@, Value::Bool(x.anonymous_sender)).insert("re_wrapped_in_forward"@, Value::Bool(x.re_wrapped_in_forward));
    let m = m.insert("encrypted_from_kid"@, or_null(x.encrypted_from_kid)).insert("encrypted_to_kids"@, or_null(x.encrypted_to_kids)).insert("sign_from"@, or_null(x.sign_from)).insert("from_prior_issuer_kid"@, or_null(x.from_prior_issuer_kid)).insert("signed_message"@, or_null(x.signed_message));
    let m = m.insert("enc_alg_auth"@, match x.enc_alg_auth { Some(a) => jstr(auth_text(a)), None => Value::Null }).insert("enc_alg_anon"@, match x.enc_alg_anon { Some(a) => jstr(anon_text(a)), None => Value::Null }).insert("sign_alg"@, match x.sign_alg { Some(a) => jstr(sign_text(a)), None => Value::Null });
    m.insert("from_prior"@, match x.from_prior { Some(f) => obj(claims_wire(f)), None => Value::Null }) }
pub proof fn unpacked_metadata_written(x: UnpackMetadata, s: String) ensures x.ser() == obj(unpacked_members(x))
{ broadcast use {value_axioms, json_axioms}; unpacked_names();
  if x.enc_alg_auth is Some { auth_names(x.enc_alg_auth->0, s); } if x.enc_alg_anon is Some { anon_names(x.enc_alg_anon->0, s); } if x.sign_alg is Some { sign_names(x.sign_alg->0, s); } if x.from_prior is Some { claims_written(x.from_prior->0); }
  assert(members(x.ser()) =~= unpacked_members(x)); assert(x.ser() is Object); }
