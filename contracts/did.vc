C18: DID documents and secrets, and their JSON form.

@module crate::did::did_doc src/did/did_doc.rs
@raw
use crate::serde_json::*; use vstd::prelude::*;
@type VerificationMethodType serde
@type VerificationMaterial serde
@type VerificationMethod serde
@type DIDCommMessagingService serde
@type ServiceKind serde
@type Service serde
@type DIDDoc serde
@raw
pub proof fn type_names() ensures "JsonWebKey2020"@ != "X25519KeyAgreementKey2019"@, "JsonWebKey2020"@ != "Ed25519VerificationKey2018"@, "JsonWebKey2020"@ != "EcdsaSecp256k1VerificationKey2019"@, "JsonWebKey2020"@ != "X25519KeyAgreementKey2020"@, "JsonWebKey2020"@ != "Ed25519VerificationKey2020"@, "JsonWebKey2020"@ != "Other"@, "X25519KeyAgreementKey2019"@ != "Ed25519VerificationKey2018"@, "X25519KeyAgreementKey2019"@ != "EcdsaSecp256k1VerificationKey2019"@, "X25519KeyAgreementKey2019"@ != "X25519KeyAgreementKey2020"@, "X25519KeyAgreementKey2019"@ != "Ed25519VerificationKey2020"@, "X25519KeyAgreementKey2019"@ != "Other"@, "Ed25519VerificationKey2018"@ != "EcdsaSecp256k1VerificationKey2019"@, "Ed25519VerificationKey2018"@ != "X25519KeyAgreementKey2020"@, "Ed25519VerificationKey2018"@ != "Ed25519VerificationKey2020"@, "Ed25519VerificationKey2018"@ != "Other"@, "EcdsaSecp256k1VerificationKey2019"@ != "X25519KeyAgreementKey2020"@, "EcdsaSecp256k1VerificationKey2019"@ != "Ed25519VerificationKey2020"@, "EcdsaSecp256k1VerificationKey2019"@ != "Other"@, "X25519KeyAgreementKey2020"@ != "Ed25519VerificationKey2020"@, "X25519KeyAgreementKey2020"@ != "Other"@, "Ed25519VerificationKey2020"@ != "Other"@
{ reveal_strlit("JsonWebKey2020"); reveal_strlit("X25519KeyAgreementKey2019"); reveal_strlit("Ed25519VerificationKey2018"); reveal_strlit("EcdsaSecp256k1VerificationKey2019"); reveal_strlit("X25519KeyAgreementKey2020"); reveal_strlit("Ed25519VerificationKey2020"); reveal_strlit("Other");
  assert("JsonWebKey2020"@.len() == 14 && "X25519KeyAgreementKey2019"@.len() == 25 && "Ed25519VerificationKey2018"@.len() == 26 && "EcdsaSecp256k1VerificationKey2019"@.len() == 33 && "X25519KeyAgreementKey2020"@.len() == 25 && "Ed25519VerificationKey2020"@.len() == 26 && "Other"@.len() == 5);
  assert("X25519KeyAgreementKey2019"@[23] != "X25519KeyAgreementKey2020"@[23]); assert("Ed25519VerificationKey2018"@[24] != "Ed25519VerificationKey2020"@[24]); }
pub open spec fn vm_type(t: VerificationMethodType) -> Seq<char> { match t { VerificationMethodType::JsonWebKey2020 => "JsonWebKey2020"@, VerificationMethodType::X25519KeyAgreementKey2019 => "X25519KeyAgreementKey2019"@, VerificationMethodType::Ed25519VerificationKey2018 => "Ed25519VerificationKey2018"@, VerificationMethodType::EcdsaSecp256k1VerificationKey2019 => "EcdsaSecp256k1VerificationKey2019"@, VerificationMethodType::X25519KeyAgreementKey2020 => "X25519KeyAgreementKey2020"@, VerificationMethodType::Ed25519VerificationKey2020 => "Ed25519VerificationKey2020"@, VerificationMethodType::Other => "Other"@ } }
pub proof fn vm_type_names(t: VerificationMethodType, s: String) ensures t.ser() == jstr(vm_type(t)), VerificationMethodType::de(t.ser()) == Some(t), VerificationMethodType::de(Value::String(s)) is Some ==> vm_type(VerificationMethodType::de(Value::String(s))->0) == s@,
    (s@ == "JsonWebKey2020"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::JsonWebKey2020)), (s@ == "X25519KeyAgreementKey2019"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::X25519KeyAgreementKey2019)), (s@ == "Ed25519VerificationKey2018"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::Ed25519VerificationKey2018)), (s@ == "EcdsaSecp256k1VerificationKey2019"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::EcdsaSecp256k1VerificationKey2019)), (s@ == "X25519KeyAgreementKey2020"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::X25519KeyAgreementKey2020)), (s@ == "Ed25519VerificationKey2020"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::Ed25519VerificationKey2020)), (s@ == "Other"@ ==> VerificationMethodType::de(Value::String(s)) == Some(VerificationMethodType::Other))
{ broadcast use value_axioms; type_names(); }

pub open spec fn material_wire(x: VerificationMaterial) -> Map<Seq<char>, Value> { match x {
    VerificationMaterial::JWK { public_key_jwk } => no_members().insert("publicKeyJwk"@, public_key_jwk),
    VerificationMaterial::Multibase { public_key_multibase } => no_members().insert("publicKeyMultibase"@, jstr(public_key_multibase@)),
    VerificationMaterial::Base58 { public_key_base58 } => no_members().insert("publicKeyBase58"@, jstr(public_key_base58@)) } }
/// the form that is read: the first of the three whose member is there with a fitting value
pub open spec fn material_of(m: Map<Seq<char>, Value>) -> Option<VerificationMaterial> {
    if m.contains_key("publicKeyJwk"@) { Some(VerificationMaterial::JWK { public_key_jwk: m["publicKeyJwk"@] }) }
    else if has::<String>(m, "publicKeyMultibase"@) { Some(VerificationMaterial::Multibase { public_key_multibase: get(m, "publicKeyMultibase"@) }) }
    else if has::<String>(m, "publicKeyBase58"@) { Some(VerificationMaterial::Base58 { public_key_base58: get(m, "publicKeyBase58"@) }) }
    else { None } }
pub proof fn material_mnames() ensures "publicKeyJwk"@ != "publicKeyMultibase"@, "publicKeyJwk"@ != "publicKeyBase58"@, "publicKeyJwk"@ != "id"@, "publicKeyJwk"@ != "type"@, "publicKeyJwk"@ != "controller"@, "publicKeyMultibase"@ != "publicKeyBase58"@, "publicKeyMultibase"@ != "id"@, "publicKeyMultibase"@ != "type"@, "publicKeyMultibase"@ != "controller"@, "publicKeyBase58"@ != "id"@, "publicKeyBase58"@ != "type"@, "publicKeyBase58"@ != "controller"@, "id"@ != "type"@, "id"@ != "controller"@, "type"@ != "controller"@
{ reveal_strlit("publicKeyJwk"); reveal_strlit("publicKeyMultibase"); reveal_strlit("publicKeyBase58"); reveal_strlit("id"); reveal_strlit("type"); reveal_strlit("controller");
  assert("publicKeyJwk"@.len() == 12 && "publicKeyMultibase"@.len() == 18 && "publicKeyBase58"@.len() == 15 && "id"@.len() == 2 && "type"@.len() == 4 && "controller"@.len() == 10);
   }

pub proof fn material_written(x: VerificationMaterial) ensures x.ser() == obj(material_wire(x))
{ broadcast use {value_axioms, json_axioms}; material_mnames(); assert(members(x.ser()) =~= material_wire(x)); assert(x.ser() is Object); }
pub proof fn material_read(o: JMap) ensures VerificationMaterial::de(Value::Object(o)) == material_of(o.jm())
{ broadcast use {value_axioms, json_axioms}; material_mnames(); }
pub proof fn material_round_trip(x: VerificationMaterial) ensures VerificationMaterial::de(x.ser()) == Some(x), material_of(material_wire(x)) == Some(x)
{ broadcast use {value_axioms, json_axioms}; material_mnames(); material_written(x); material_read(obj_of(material_wire(x))); }

// ---- verification methods ----
pub open spec fn vm_wire(v: VerificationMethod) -> Map<Seq<char>, Value> {
    no_members().insert("id"@, jstr(v.id@)).insert("type"@, jstr(vm_type(v.type_))).insert("controller"@, jstr(v.controller@)).union_prefer_right(material_wire(v.verification_material)) }
pub proof fn vm_written(v: VerificationMethod) ensures v.ser() == obj(vm_wire(v))
{ broadcast use {value_axioms, json_axioms}; material_mnames(); vm_type_names(v.type_, v.id); material_written(v.verification_material);
  assert(members(v.ser()) =~= vm_wire(v)); assert(v.ser() is Object); }
pub proof fn vm_read(o: JMap) ensures VerificationMethod::de(Value::Object(o)) == ({ let m = o.jm();
    if has::<String>(m, "id"@) && has::<VerificationMethodType>(m, "type"@) && has::<String>(m, "controller"@) && material_of(m) is Some
    { Some(VerificationMethod { id: get(m, "id"@), type_: get(m, "type"@), controller: get(m, "controller"@), verification_material: material_of(m)->0 }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; material_mnames(); let m = o.jm().remove("id"@).remove("type"@).remove("controller"@); material_read(obj_of(m));
  assert(material_of(m) == material_of(o.jm())); }
pub proof fn vm_round_trip(v: VerificationMethod) ensures VerificationMethod::de(v.ser()) == Some(v)
{ broadcast use {value_axioms, json_axioms}; material_mnames(); vm_type_names(v.type_, v.id); vm_written(v); vm_read(obj_of(vm_wire(v))); material_round_trip(v.verification_material);
  assert(material_of(vm_wire(v)) == material_of(material_wire(v.verification_material))); }

// ---- services ----
pub proof fn service_names() ensures "uri"@ != "accept"@, "uri"@ != "routingKeys"@, "uri"@ != "type"@, "uri"@ != "serviceEndpoint"@, "uri"@ != "id"@, "accept"@ != "routingKeys"@, "accept"@ != "type"@, "accept"@ != "serviceEndpoint"@, "accept"@ != "id"@, "routingKeys"@ != "type"@, "routingKeys"@ != "serviceEndpoint"@, "routingKeys"@ != "id"@, "type"@ != "serviceEndpoint"@, "type"@ != "id"@, "serviceEndpoint"@ != "id"@
{ reveal_strlit("uri"); reveal_strlit("accept"); reveal_strlit("routingKeys"); reveal_strlit("type"); reveal_strlit("serviceEndpoint"); reveal_strlit("id");
  assert("uri"@.len() == 3 && "accept"@.len() == 6 && "routingKeys"@.len() == 11 && "type"@.len() == 4 && "serviceEndpoint"@.len() == 15 && "id"@.len() == 2);
   }

pub open spec fn endpoint_wire(d: DIDCommMessagingService) -> Map<Seq<char>, Value> { opt_ins(no_members().insert("uri"@, jstr(d.uri@)), "accept"@, d.accept).insert("routingKeys"@, d.routing_keys.ser()) }
pub proof fn endpoint_written(d: DIDCommMessagingService) ensures d.ser() == obj(endpoint_wire(d))
{ broadcast use {value_axioms, json_axioms}; service_names(); assert(members(d.ser()) =~= endpoint_wire(d)); assert(d.ser() is Object); }
/// uri is required, accept optional, and no routing keys are meant when there are none
pub open spec fn endpoint_of(m: Map<Seq<char>, Value>) -> Option<DIDCommMessagingService> {
    if has::<String>(m, "uri"@) && opt_ok::<Vec<String>>(m, "accept"@) && (m.contains_key("routingKeys"@) ==> has::<Vec<String>>(m, "routingKeys"@))
    { Some(DIDCommMessagingService { uri: get(m, "uri"@), accept: opt_get(m, "accept"@), routing_keys: if m.contains_key("routingKeys"@) { get(m, "routingKeys"@) } else { crate::vx::vec_of(seq![]) } }) } else { None } }
pub proof fn endpoint_read(o: JMap) ensures DIDCommMessagingService::de(Value::Object(o)) == endpoint_of(o.jm())
{ broadcast use {value_axioms, json_axioms}; service_names(); }
pub proof fn endpoint_round_trip(d: DIDCommMessagingService) ensures endpoint_of(endpoint_wire(d)) == Some(d)
{ broadcast use {value_axioms, json_axioms}; service_names(); if d.accept is Some { vec_round_trip(d.accept->0) } vec_round_trip(d.routing_keys); }
/// what is written for the kind: its registered name and the endpoint object
pub open spec fn kind_wire(k: ServiceKind) -> Map<Seq<char>, Value> { match k {
    ServiceKind::DIDCommMessaging { value } => no_members().insert("type"@, jstr("DIDCommMessaging"@)).insert("serviceEndpoint"@, obj(endpoint_wire(value))),
    ServiceKind::Other { value } => no_members().insert("type"@, jstr("Other"@)).insert("serviceEndpoint"@, obj(members(value))) } }
pub open spec fn kind_of(m: Map<Seq<char>, Value>) -> Option<ServiceKind> {
    if !(m.contains_key("type"@) && m["type"@] is String && m.contains_key("serviceEndpoint"@)) { None }
    else if m["type"@] == jstr("DIDCommMessaging"@) { match m["serviceEndpoint"@] { Value::Object(o) => match endpoint_of(o.jm()) { Some(d) => Some(ServiceKind::DIDCommMessaging { value: d }), None => None }, _ => None } }
    else if m["type"@] == jstr("Other"@) { match m["serviceEndpoint"@] { Value::Object(o) => Some(ServiceKind::Other { value: Value::Object(o) }), _ => None } }
    else { None } }
pub proof fn kind_names() ensures "DIDCommMessaging"@ != "Other"@
{ reveal_strlit("DIDCommMessaging"); reveal_strlit("Other"); assert("DIDCommMessaging"@.len() == 16 && "Other"@.len() == 5); }
pub proof fn kind_written(k: ServiceKind) ensures k.ser() == obj(kind_wire(k))
{ broadcast use {value_axioms, json_axioms}; service_names(); kind_names();
  match k { ServiceKind::DIDCommMessaging { value } => { endpoint_written(value); assert(Map::<Seq<char>, Value>::empty().union_prefer_right(endpoint_wire(value)) =~= endpoint_wire(value)); }
            ServiceKind::Other { value } => { assert(Map::<Seq<char>, Value>::empty().union_prefer_right(members(value)) =~= members(value)); } } }
pub proof fn kind_read(o: JMap) requires o.jm().contains_key("type"@) ==> o.jm()["type"@] is String, ensures ServiceKind::de(Value::Object(o)) == kind_of(o.jm())
{ broadcast use {value_axioms, json_axioms}; service_names(); kind_names();
  if o.jm().contains_key("serviceEndpoint"@) { if let Value::Object(o2) = o.jm()["serviceEndpoint"@] { endpoint_read(o2); assert(obj_of(o2.jm()) == o2); } } }
pub proof fn kind_round_trip(k: ServiceKind) requires k is Other ==> k->Other_value is Object, ensures kind_of(kind_wire(k)) == Some(k)
{ broadcast use {value_axioms, json_axioms}; service_names(); kind_names();
  match k { ServiceKind::DIDCommMessaging { value } => { endpoint_round_trip(value); } ServiceKind::Other { value } => {} } }
pub open spec fn service_wire(s: Service) -> Map<Seq<char>, Value> { no_members().insert("id"@, jstr(s.id@)).union_prefer_right(kind_wire(s.service_endpoint)) }
pub proof fn service_written(s: Service) ensures s.ser() == obj(service_wire(s))
{ broadcast use {value_axioms, json_axioms}; service_names(); kind_written(s.service_endpoint); assert(members(s.ser()) =~= service_wire(s)); assert(s.ser() is Object); }
pub proof fn service_read(o: JMap) requires o.jm().contains_key("type"@) ==> o.jm()["type"@] is String,
    ensures Service::de(Value::Object(o)) == (if has::<String>(o.jm(), "id"@) && kind_of(o.jm()) is Some { Some(Service { id: get(o.jm(), "id"@), service_endpoint: kind_of(o.jm())->0 }) } else { None })
{ broadcast use {value_axioms, json_axioms}; service_names(); let m = o.jm().remove("id"@); kind_read(obj_of(m)); assert(kind_of(m) == kind_of(o.jm())); }
pub open spec fn plain_service(s: Service) -> bool { s.service_endpoint is Other ==> s.service_endpoint->Other_value is Object }
pub proof fn service_round_trip(s: Service) requires plain_service(s), ensures Service::de(s.ser()) == Some(s)
{ broadcast use {value_axioms, json_axioms}; service_names(); service_written(s); kind_round_trip(s.service_endpoint); service_read(obj_of(service_wire(s)));
  assert(kind_of(service_wire(s)) == kind_of(kind_wire(s.service_endpoint))); }

// ---- documents ----
pub proof fn doc_names() ensures "id"@ != "keyAgreement"@, "id"@ != "authentication"@, "id"@ != "verificationMethod"@, "id"@ != "service"@, "keyAgreement"@ != "authentication"@, "keyAgreement"@ != "verificationMethod"@, "keyAgreement"@ != "service"@, "authentication"@ != "verificationMethod"@, "authentication"@ != "service"@, "verificationMethod"@ != "service"@
{ reveal_strlit("id"); reveal_strlit("keyAgreement"); reveal_strlit("authentication"); reveal_strlit("verificationMethod"); reveal_strlit("service");
  assert("id"@.len() == 2 && "keyAgreement"@.len() == 12 && "authentication"@.len() == 14 && "verificationMethod"@.len() == 18 && "service"@.len() == 7);
   }

pub open spec fn doc_wire(d: DIDDoc) -> Map<Seq<char>, Value> {
    no_members().insert("id"@, jstr(d.id@)).insert("keyAgreement"@, d.key_agreement.ser()).insert("authentication"@, d.authentication.ser()).insert("verificationMethod"@, d.verification_method.ser()).insert("service"@, d.service.ser()) }
pub proof fn doc_written(d: DIDDoc) ensures d.ser() == obj(doc_wire(d))
{ broadcast use {value_axioms, json_axioms}; doc_names(); assert(members(d.ser()) =~= doc_wire(d)); assert(d.ser() is Object); }
pub proof fn doc_read(o: JMap) ensures DIDDoc::de(Value::Object(o)) == ({ let m = o.jm();
    if has::<String>(m, "id"@) && has::<Vec<String>>(m, "keyAgreement"@) && has::<Vec<String>>(m, "authentication"@) && has::<Vec<VerificationMethod>>(m, "verificationMethod"@) && has::<Vec<Service>>(m, "service"@)
    { Some(DIDDoc { id: get(m, "id"@), key_agreement: get(m, "keyAgreement"@), authentication: get(m, "authentication"@), verification_method: get(m, "verificationMethod"@), service: get(m, "service"@) }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; doc_names(); }
pub proof fn doc_round_trip(d: DIDDoc) requires forall|i: int| 0 <= i < d.service@.len() ==> plain_service(#[trigger] d.service@[i]), ensures DIDDoc::de(d.ser()) == Some(d)
{ broadcast use {value_axioms, json_axioms}; doc_names(); doc_written(d); doc_read(obj_of(doc_wire(d)));
  vec_round_trip(d.key_agreement); vec_round_trip(d.authentication);
  assert forall|i: int| 0 <= i < d.verification_method@.len() implies VerificationMethod::de(#[trigger] d.verification_method@[i].ser()) == Some(d.verification_method@[i]) by { vm_round_trip(d.verification_method@[i]); }
  vec_round_trip(d.verification_method);
  assert forall|i: int| 0 <= i < d.service@.len() implies Service::de(#[trigger] d.service@[i].ser()) == Some(d.service@[i]) by { service_round_trip(d.service@[i]); }
  vec_round_trip(d.service); }

@module crate::secrets src/secrets/mod.rs
@raw
use crate::serde_json::*; use vstd::prelude::*; use crate::did::did_doc::type_names;
@type SecretType serde
@type SecretMaterial serde
@type Secret serde
@raw
pub open spec fn secret_type(t: SecretType) -> Seq<char> { match t { SecretType::JsonWebKey2020 => "JsonWebKey2020"@, SecretType::X25519KeyAgreementKey2019 => "X25519KeyAgreementKey2019"@, SecretType::Ed25519VerificationKey2018 => "Ed25519VerificationKey2018"@, SecretType::EcdsaSecp256k1VerificationKey2019 => "EcdsaSecp256k1VerificationKey2019"@, SecretType::X25519KeyAgreementKey2020 => "X25519KeyAgreementKey2020"@, SecretType::Ed25519VerificationKey2020 => "Ed25519VerificationKey2020"@, SecretType::Other => "Other"@ } }
pub proof fn secret_type_names(t: SecretType, s: String) ensures t.ser() == jstr(secret_type(t)), SecretType::de(t.ser()) == Some(t), SecretType::de(Value::String(s)) is Some ==> secret_type(SecretType::de(Value::String(s))->0) == s@,
    (s@ == "JsonWebKey2020"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::JsonWebKey2020)), (s@ == "X25519KeyAgreementKey2019"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::X25519KeyAgreementKey2019)), (s@ == "Ed25519VerificationKey2018"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::Ed25519VerificationKey2018)), (s@ == "EcdsaSecp256k1VerificationKey2019"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::EcdsaSecp256k1VerificationKey2019)), (s@ == "X25519KeyAgreementKey2020"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::X25519KeyAgreementKey2020)), (s@ == "Ed25519VerificationKey2020"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::Ed25519VerificationKey2020)), (s@ == "Other"@ ==> SecretType::de(Value::String(s)) == Some(SecretType::Other))
{ broadcast use value_axioms; type_names(); }

pub open spec fn smaterial_wire(x: SecretMaterial) -> Map<Seq<char>, Value> { match x {
    SecretMaterial::JWK { private_key_jwk } => no_members().insert("privateKeyJwk"@, private_key_jwk),
    SecretMaterial::Multibase { private_key_multibase } => no_members().insert("privateKeyMultibase"@, jstr(private_key_multibase@)),
    SecretMaterial::Base58 { private_key_base58 } => no_members().insert("privateKeyBase58"@, jstr(private_key_base58@)) } }
/// the form that is read: the first of the three whose member is there with a fitting value
pub open spec fn smaterial_of(m: Map<Seq<char>, Value>) -> Option<SecretMaterial> {
    if m.contains_key("privateKeyJwk"@) { Some(SecretMaterial::JWK { private_key_jwk: m["privateKeyJwk"@] }) }
    else if has::<String>(m, "privateKeyMultibase"@) { Some(SecretMaterial::Multibase { private_key_multibase: get(m, "privateKeyMultibase"@) }) }
    else if has::<String>(m, "privateKeyBase58"@) { Some(SecretMaterial::Base58 { private_key_base58: get(m, "privateKeyBase58"@) }) }
    else { None } }
pub proof fn smaterial_mnames() ensures "privateKeyJwk"@ != "privateKeyMultibase"@, "privateKeyJwk"@ != "privateKeyBase58"@, "privateKeyJwk"@ != "id"@, "privateKeyJwk"@ != "type"@, "privateKeyJwk"@ != "controller"@, "privateKeyMultibase"@ != "privateKeyBase58"@, "privateKeyMultibase"@ != "id"@, "privateKeyMultibase"@ != "type"@, "privateKeyMultibase"@ != "controller"@, "privateKeyBase58"@ != "id"@, "privateKeyBase58"@ != "type"@, "privateKeyBase58"@ != "controller"@, "id"@ != "type"@, "id"@ != "controller"@, "type"@ != "controller"@
{ reveal_strlit("privateKeyJwk"); reveal_strlit("privateKeyMultibase"); reveal_strlit("privateKeyBase58"); reveal_strlit("id"); reveal_strlit("type"); reveal_strlit("controller");
  assert("privateKeyJwk"@.len() == 13 && "privateKeyMultibase"@.len() == 19 && "privateKeyBase58"@.len() == 16 && "id"@.len() == 2 && "type"@.len() == 4 && "controller"@.len() == 10);
   }

pub proof fn smaterial_written(x: SecretMaterial) ensures x.ser() == obj(smaterial_wire(x))
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); assert(members(x.ser()) =~= smaterial_wire(x)); assert(x.ser() is Object); }
pub proof fn smaterial_read(o: JMap) ensures SecretMaterial::de(Value::Object(o)) == smaterial_of(o.jm())
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); }
pub proof fn smaterial_round_trip(x: SecretMaterial) ensures SecretMaterial::de(x.ser()) == Some(x), smaterial_of(smaterial_wire(x)) == Some(x)
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); smaterial_written(x); smaterial_read(obj_of(smaterial_wire(x))); }

pub open spec fn secret_wire(v: Secret) -> Map<Seq<char>, Value> {
    no_members().insert("id"@, jstr(v.id@)).insert("type"@, jstr(secret_type(v.type_))).union_prefer_right(smaterial_wire(v.secret_material)) }
pub proof fn secret_written(v: Secret) ensures v.ser() == obj(secret_wire(v))
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); secret_type_names(v.type_, v.id); smaterial_written(v.secret_material);
  assert(members(v.ser()) =~= secret_wire(v)); assert(v.ser() is Object); }
pub proof fn secret_read(o: JMap) ensures Secret::de(Value::Object(o)) == ({ let m = o.jm();
    if has::<String>(m, "id"@) && has::<SecretType>(m, "type"@) && smaterial_of(m) is Some
    { Some(Secret { id: get(m, "id"@), type_: get(m, "type"@), secret_material: smaterial_of(m)->0 }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); let m = o.jm().remove("id"@).remove("type"@); smaterial_read(obj_of(m)); assert(smaterial_of(m) == smaterial_of(o.jm())); }
pub proof fn secret_round_trip(v: Secret) ensures Secret::de(v.ser()) == Some(v)
{ broadcast use {value_axioms, json_axioms}; smaterial_mnames(); secret_type_names(v.type_, v.id); secret_written(v); secret_read(obj_of(secret_wire(v))); smaterial_round_trip(v.secret_material);
  assert(smaterial_of(secret_wire(v)) == smaterial_of(smaterial_wire(v.secret_material))); }

@module crate::did::did_doc src/did/did_doc.rs
@raw
/// the verification method that an id names: the first of that id
pub open spec fn method(s: Seq<VerificationMethod>, id: Seq<char>) -> Option<VerificationMethod> { crate::vx::first(s, with_id(id)) }
pub open spec fn with_id(id: Seq<char>) -> spec_fn(VerificationMethod) -> bool { |v: VerificationMethod| v.id@ == id }
pub broadcast proof fn method_found(s: Seq<VerificationMethod>, id: Seq<char>, keep: Seq<bool>)
    requires crate::vx::searched(crate::vx::refs(s), keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == ((*crate::vx::refs(s)[i]).id@ == id),
    ensures #![trigger method(s, id), crate::vx::firstk(crate::vx::refs(s), keep)] match method(s, id) { Some(x) => crate::vx::firstk(crate::vx::refs(s), keep) == Some(&x), None => crate::vx::firstk(crate::vx::refs(s), keep) is None }
{ crate::vx::first_ref_all(s, with_id(id)); assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == with_id(id)(*crate::vx::refs(s)[i]) by {} }
