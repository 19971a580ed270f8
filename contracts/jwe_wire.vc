What serde writes and reads for a JWE (generated from the types as they stand), stated member by member.

@module crate::jwe::envelope src/jwe/envelope.rs
@type JWE serdeonly
@type ProtectedHeader serdeonly
@type Recipient serdeonly
@type PerRecipientHeader serdeonly
@raw
/// the JSON form of an envelope
pub open spec fn recipient_wire(s: Recipient) -> Value { obj(no_members().insert("header"@, obj(no_members().insert("kid"@, jstr(s.header.kid@)))).insert("encrypted_key"@, jstr(s.encrypted_key@))) }
pub open spec fn jwe_wire(j: JWE) -> Value { obj(no_members().insert("protected"@, jstr(j.protected@)).insert("recipients"@, Value::Array(vec_of(j.recipients@.map_values(|s: Recipient| recipient_wire(s))))).insert("iv"@, jstr(j.iv@)).insert("ciphertext"@, jstr(j.ciphertext@)).insert("tag"@, jstr(j.tag@))) }
pub open spec fn opt_text(m: Map<Seq<char>, Value>, k: Seq<char>, o: Option<&str>) -> Map<Seq<char>, Value> { match o { Some(s) => m.insert(k, jstr(s@)), None => m } }
pub open spec fn header_wire(h: ProtectedHeader) -> Value {
    obj(opt_text(opt_text(no_members().insert("typ"@, match h.typ { Some(t) => jstr(t.cv()), None => Value::Null }).insert("alg"@, jstr(alg_name(h.alg))).insert("enc"@, jstr(enc_name(h.enc))), "skid"@, h.skid), "apu"@, h.apu).insert("apv"@, jstr(h.apv@)).insert("epk"@, h.epk)) }
pub proof fn jwe_member_names() ensures "protected"@ != "recipients"@, "protected"@ != "iv"@, "protected"@ != "ciphertext"@, "protected"@ != "tag"@, "protected"@ != "header"@, "protected"@ != "encrypted_key"@, "protected"@ != "kid"@, "protected"@ != "typ"@, "protected"@ != "alg"@, "protected"@ != "enc"@, "protected"@ != "skid"@, "protected"@ != "apu"@, "protected"@ != "apv"@, "protected"@ != "epk"@, "recipients"@ != "iv"@, "recipients"@ != "ciphertext"@, "recipients"@ != "tag"@, "recipients"@ != "header"@, "recipients"@ != "encrypted_key"@, "recipients"@ != "kid"@, "recipients"@ != "typ"@, "recipients"@ != "alg"@, "recipients"@ != "enc"@, "recipients"@ != "skid"@, "recipients"@ != "apu"@, "recipients"@ != "apv"@, "recipients"@ != "epk"@, "iv"@ != "ciphertext"@, "iv"@ != "tag"@, "iv"@ != "header"@, "iv"@ != "encrypted_key"@, "iv"@ != "kid"@, "iv"@ != "typ"@, "iv"@ != "alg"@, "iv"@ != "enc"@, "iv"@ != "skid"@, "iv"@ != "apu"@, "iv"@ != "apv"@, "iv"@ != "epk"@, "ciphertext"@ != "tag"@, "ciphertext"@ != "header"@, "ciphertext"@ != "encrypted_key"@, "ciphertext"@ != "kid"@, "ciphertext"@ != "typ"@, "ciphertext"@ != "alg"@, "ciphertext"@ != "enc"@, "ciphertext"@ != "skid"@, "ciphertext"@ != "apu"@, "ciphertext"@ != "apv"@, "ciphertext"@ != "epk"@, "tag"@ != "header"@, "tag"@ != "encrypted_key"@, "tag"@ != "kid"@, "tag"@ != "typ"@, "tag"@ != "alg"@, "tag"@ != "enc"@, "tag"@ != "skid"@, "tag"@ != "apu"@, "tag"@ != "apv"@, "tag"@ != "epk"@, "header"@ != "encrypted_key"@, "header"@ != "kid"@, "header"@ != "typ"@, "header"@ != "alg"@, "header"@ != "enc"@, "header"@ != "skid"@, "header"@ != "apu"@, "header"@ != "apv"@, "header"@ != "epk"@, "encrypted_key"@ != "kid"@, "encrypted_key"@ != "typ"@, "encrypted_key"@ != "alg"@, "encrypted_key"@ != "enc"@, "encrypted_key"@ != "skid"@, "encrypted_key"@ != "apu"@, "encrypted_key"@ != "apv"@, "encrypted_key"@ != "epk"@, "kid"@ != "typ"@, "kid"@ != "alg"@, "kid"@ != "enc"@, "kid"@ != "skid"@, "kid"@ != "apu"@, "kid"@ != "apv"@, "kid"@ != "epk"@, "typ"@ != "alg"@, "typ"@ != "enc"@, "typ"@ != "skid"@, "typ"@ != "apu"@, "typ"@ != "apv"@, "typ"@ != "epk"@, "alg"@ != "enc"@, "alg"@ != "skid"@, "alg"@ != "apu"@, "alg"@ != "apv"@, "alg"@ != "epk"@, "enc"@ != "skid"@, "enc"@ != "apu"@, "enc"@ != "apv"@, "enc"@ != "epk"@, "skid"@ != "apu"@, "skid"@ != "apv"@, "skid"@ != "epk"@, "apu"@ != "apv"@, "apu"@ != "epk"@, "apv"@ != "epk"@
{ reveal_strlit("protected"); reveal_strlit("recipients"); reveal_strlit("iv"); reveal_strlit("ciphertext"); reveal_strlit("tag"); reveal_strlit("header"); reveal_strlit("encrypted_key"); reveal_strlit("kid"); reveal_strlit("typ"); reveal_strlit("alg"); reveal_strlit("enc"); reveal_strlit("skid"); reveal_strlit("apu"); reveal_strlit("apv"); reveal_strlit("epk");
  assert("protected"@.len() == 9 && "recipients"@.len() == 10 && "iv"@.len() == 2 && "ciphertext"@.len() == 10 && "tag"@.len() == 3 && "header"@.len() == 6 && "encrypted_key"@.len() == 13 && "kid"@.len() == 3 && "typ"@.len() == 3 && "alg"@.len() == 3 && "enc"@.len() == 3 && "skid"@.len() == 4 && "apu"@.len() == 3 && "apv"@.len() == 3 && "epk"@.len() == 3);
  assert("recipients"@[0] != "ciphertext"@[0]); assert("tag"@[0] != "kid"@[0]); assert("tag"@[1] != "typ"@[1]); assert("tag"@[0] != "alg"@[0]); assert("tag"@[0] != "enc"@[0]); assert("tag"@[0] != "apu"@[0]); assert("tag"@[0] != "apv"@[0]); assert("tag"@[0] != "epk"@[0]); assert("kid"@[0] != "typ"@[0]); assert("kid"@[0] != "alg"@[0]); assert("kid"@[0] != "enc"@[0]); assert("kid"@[0] != "apu"@[0]); assert("kid"@[0] != "apv"@[0]); assert("kid"@[0] != "epk"@[0]); assert("typ"@[0] != "alg"@[0]); assert("typ"@[0] != "enc"@[0]); assert("typ"@[0] != "apu"@[0]); assert("typ"@[0] != "apv"@[0]); assert("typ"@[0] != "epk"@[0]); assert("alg"@[0] != "enc"@[0]); assert("alg"@[1] != "apu"@[1]); assert("alg"@[1] != "apv"@[1]); assert("alg"@[0] != "epk"@[0]); assert("enc"@[0] != "apu"@[0]); assert("enc"@[0] != "apv"@[0]); assert("enc"@[1] != "epk"@[1]); assert("apu"@[2] != "apv"@[2]); assert("apu"@[0] != "epk"@[0]); assert("apv"@[0] != "epk"@[0]); }
pub proof fn jwe_written(j: JWE) ensures j.ser() == jwe_wire(j)
{
    broadcast use {value_axioms, json_axioms}; jwe_member_names();
    assert forall|s: Recipient| #[trigger] s.ser() == recipient_wire(s) by { assert(members(s.ser()) =~= members(recipient_wire(s))); assert(members(s.header.ser()) =~= no_members().insert("kid"@, jstr(s.header.kid@))); }
    assert(j.recipients@.map_values(|s: Recipient| s.ser()) =~= j.recipients@.map_values(|s: Recipient| recipient_wire(s)));
    assert(members(j.ser()) =~= members(jwe_wire(j)));
}
pub proof fn jwe_header_written(h: ProtectedHeader) ensures h.ser() == header_wire(h)
{ broadcast use {value_axioms, json_axioms}; jwe_member_names(); jwe_alg_names(h.alg, str_of(seq![])); jwe_enc_names(h.enc, str_of(seq![])); assert(members(h.ser()) =~= members(header_wire(h))); }
/// what is read from a written envelope: the same texts
pub open spec fn same_envelope(a: JWE, b: JWE) -> bool {
    a.protected@ == b.protected@ && a.iv@ == b.iv@ && a.ciphertext@ == b.ciphertext@ && a.tag@ == b.tag@ && a.recipients@.len() == b.recipients@.len()
    && forall|i: int| 0 <= i < a.recipients@.len() ==> (#[trigger] a.recipients@[i]).header.kid@ == b.recipients@[i].header.kid@ && a.recipients@[i].encrypted_key@ == b.recipients@[i].encrypted_key@
}
pub proof fn jwe_read_back(a: JWE, b: JWE) requires JWE::de(a.ser()) == Some(b), ensures same_envelope(a, b)
{
    broadcast use {value_axioms, json_axioms}; jwe_member_names(); jwe_written(a);
    assert forall|i: int| 0 <= i < a.recipients@.len() implies (#[trigger] a.recipients@[i]).header.kid@ == b.recipients@[i].header.kid@ && a.recipients@[i].encrypted_key@ == b.recipients@[i].encrypted_key@ by {
        assert(recipient_wire(a.recipients@[i]) is Object); }
}
pub open spec fn same_text(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false } }
pub open spec fn same_header(a: ProtectedHeader, b: ProtectedHeader) -> bool {
    &&& match (a.typ, b.typ) { (None, None) => true, (Some(x), Some(y)) => x.cv() == y.cv(), _ => false }
    &&& alg_name(a.alg) == alg_name(b.alg) && enc_name(a.enc) == enc_name(b.enc) && (!(a.alg is Other) ==> a.alg == b.alg) && (!(a.enc is Other) ==> a.enc == b.enc)
    &&& same_text(a.skid, b.skid) && same_text(a.apu, b.apu) && a.apv@ == b.apv@ && a.epk == b.epk
}
pub proof fn jwe_header_read_back(a: ProtectedHeader, b: ProtectedHeader) requires ProtectedHeader::de(a.ser()) == Some(b), ensures same_header(a, b)
{
    broadcast use {value_axioms, json_axioms}; jwe_member_names(); jwe_header_written(a);
    jwe_alg_names(a.alg, str_of(alg_name(a.alg))); jwe_enc_names(a.enc, str_of(enc_name(a.enc)));
}
