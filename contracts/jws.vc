C23: JWS, general and compact.

@module crate::jws src/jws/mod.rs
@raw
pub use crate::jws::envelope::*; pub use crate::jws::parse::*; pub use crate::jws::sign::*; pub use crate::jws::verify::*;

@module crate::jws::envelope src/jws/envelope.rs
@type JWS serde
@type Signature serde
@type ProtectedHeader serde
@type Header serde
@type CompactHeader serde
@raw
/// base64url without padding
pub open spec fn b64e(b: Seq<u8>) -> Seq<char> { crate::base64::enc(crate::base64::URL_SAFE_NO_PAD, b) }
pub open spec fn b64d(s: Seq<char>) -> Option<Seq<u8>> { crate::base64::dec(crate::base64::URL_SAFE_NO_PAD, utf8(s)) }
/// what is signed: the protected header and the payload as they stand in the envelope
pub open spec fn signing_input(protected: Seq<char>, payload: Seq<char>) -> Seq<u8> { utf8(protected + "."@ + payload) }
/// the JSON form of an envelope
pub open spec fn sig_wire(s: Signature) -> Value { obj(no_members().insert("header"@, obj(no_members().insert("kid"@, jstr(s.header.kid@)))).insert("protected"@, jstr(s.protected@)).insert("signature"@, jstr(s.signature@))) }
pub proof fn jws_names() ensures "header"@ != "protected"@, "header"@ != "signature"@, "protected"@ != "signature"@, "signatures"@ != "payload"@, "typ"@ != "alg"@, "typ"@ != "kid"@, "alg"@ != "kid"@
{ reveal_strlit("header"); reveal_strlit("protected"); reveal_strlit("signature"); reveal_strlit("signatures"); reveal_strlit("payload"); reveal_strlit("typ"); reveal_strlit("alg"); reveal_strlit("kid");
  assert("header"@.len() == 6 && "protected"@.len() == 9 && "signature"@.len() == 9 && "signatures"@.len() == 10 && "payload"@.len() == 7); assert("protected"@[0] == 'p' && "signature"@[0] == 's'); assert("typ"@[0] == 't' && "alg"@[0] == 'a' && "kid"@[0] == 'k'); }
pub proof fn jws_written(j: JWS) ensures j.ser() == obj(no_members().insert("signatures"@, Value::Array(vec_of(j.signatures@.map_values(|s: Signature| sig_wire(s))))).insert("payload"@, jstr(j.payload@)))
{
    broadcast use {value_axioms, json_axioms}; jws_names();
    assert forall|s: Signature| #[trigger] s.ser() == sig_wire(s) by { assert(members(s.ser()) =~= members(sig_wire(s))); assert(members(s.header.ser()) =~= no_members().insert("kid"@, jstr(s.header.kid@))); }
    assert(j.signatures@.map_values(|s: Signature| s.ser()) =~= j.signatures@.map_values(|s: Signature| sig_wire(s)));
    assert(members(j.ser()) =~= no_members().insert("signatures"@, Value::Array(vec_of(j.signatures@.map_values(|s: Signature| sig_wire(s))))).insert("payload"@, jstr(j.payload@)));
}
pub proof fn header_written(h: ProtectedHeader) ensures h.ser() == obj(no_members().insert("typ"@, jstr(h.typ.cv())).insert("alg"@, jstr(alg_name(h.alg))))
{ broadcast use {value_axioms, json_axioms}; jws_names(); assert(members(h.ser()) =~= no_members().insert("typ"@, jstr(h.typ.cv())).insert("alg"@, jstr(alg_name(h.alg)))); }
pub proof fn compact_written(h: CompactHeader) ensures h.ser() == obj(no_members().insert("typ"@, jstr(h.typ@)).insert("alg"@, jstr(alg_name(h.alg))).insert("kid"@, jstr(h.kid@)))
{ broadcast use {value_axioms, json_axioms}; jws_names(); assert(members(h.ser()) =~= no_members().insert("typ"@, jstr(h.typ@)).insert("alg"@, jstr(alg_name(h.alg))).insert("kid"@, jstr(h.kid@))); }

@module crate::jws::sign src/jws/sign.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jws::envelope::*; use crate::askar_crypto::sign::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
/// out is the general JWS of payload by the key `key` named kid
pub open spec fn signed<K>(payload: Seq<u8>, kid: Seq<char>, key: K, alg: Algorithm, out: Seq<char>) -> bool {
    exists|j: JWS, h: ProtectedHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>| #![trigger json_ser(&j), json_ser(&h), signs(key, m, ty, sig)] is_signed(payload, kid, key, alg, j, h, m, ty, sig, out)
}
pub open spec fn is_signed<K>(payload: Seq<u8>, kid: Seq<char>, key: K, alg: Algorithm, j: JWS, h: ProtectedHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>, out: Seq<char>) -> bool {
    &&& json_ser(&j) == Ok::<Seq<char>, serde_json::Error>(out)
    &&& h.typ.cv() == "application/didcomm-signed+json"@ && h.alg == alg && json_ser(&h) is Ok
    &&& j.payload@ == b64e(payload) && j.signatures@.len() == 1
    &&& j.signatures@[0].header.kid@ == kid && j.signatures@[0].protected@ == b64e(utf8(json_ser(&h)->Ok_0)) && j.signatures@[0].signature@ == b64e(sig)
    &&& m == signing_input(j.signatures@[0].protected@, j.payload@) && ty is Some && ty == sig_of(alg) && signs(key, m, ty, sig)
}
/// out is the compact JWS of payload
pub open spec fn signed_compact<K>(payload: Seq<u8>, kid: Seq<char>, key: K, typ: Seq<char>, alg: Algorithm, out: Seq<char>) -> bool {
    exists|h: CompactHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>| #![trigger json_ser(&h), signs(key, m, ty, sig)] is_signed_compact(payload, kid, key, typ, alg, h, m, ty, sig, out)
}
pub open spec fn is_signed_compact<K>(payload: Seq<u8>, kid: Seq<char>, key: K, typ: Seq<char>, alg: Algorithm, h: CompactHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>, out: Seq<char>) -> bool {
    let t = b64e(utf8(json_ser(&h)->Ok_0));
    &&& h.typ@ == typ && h.alg == alg && h.kid@ == kid && json_ser(&h) is Ok
    &&& out == t + "."@ + b64e(payload) + "."@ + b64e(sig)
    &&& m == signing_input(t, b64e(payload)) && ty is Some && ty == sig_of(alg) && signs(key, m, ty, sig)
}
@fn sign -> r
ensures match r { Ok(s) => signed(payload@, signer.0@, *signer.1, alg, s@), Err(e) => sig_of(alg) is None ==> e.kind == ErrorKind::Unsupported },
@fn sign_compact -> r
ensures match r { Ok(s) => signed_compact(payload@, signer.0@, *signer.1, typ@, alg, s@), Err(e) => sig_of(alg) is None ==> e.kind == ErrorKind::Unsupported },

@module crate::jws::parse src/jws/parse.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jws::envelope::*; use crate::askar_crypto::sign::*;
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
@type ParsedJWS
@type ParsedCompactJWS
@raw
/// what a buffer holds beforehand (callers give empty ones; their contents come before what is decoded)
pub open spec fn before(buf: Seq<Vec<u8>>, i: int) -> Seq<u8> { if i < buf.len() { buf[i]@ } else { Seq::empty() } }
pub open spec fn header_of<'b>(s: Signature, pre: Seq<u8>) -> Option<serde_json::Result<ProtectedHeader<'b>>> { match b64d(s.protected@) { None => None, Some(b) => Some(json_de_bytes::<ProtectedHeader>(pre + b)) } }
/// the signature's protected header cannot be read, and this is the reason
pub open spec fn header_bad(s: Signature, pre: Seq<u8>, k: ErrorKind) -> bool { match header_of(s, pre) { None => k == ErrorKind::Malformed, Some(Err(e)) => k == crate::error::json_kind(e), Some(Ok(_)) => false } }
pub open spec fn jws_read<'a, 'b>(j: JWS<'a>, h: Seq<ProtectedHeader<'b>>, buf: Seq<Vec<u8>>) -> bool {
    h.len() == j.signatures@.len() && forall|i: int| 0 <= i < h.len() ==> header_of(j.signatures@[i], before(buf, i)) == Some(Ok::<ProtectedHeader, serde_json::Error>(#[trigger] h[i]))
}
pub open spec fn jws_bad<'a>(j: JWS<'a>, buf: Seq<Vec<u8>>, k: ErrorKind) -> bool { exists|i: int| 0 <= i < j.signatures@.len() && header_bad(#[trigger] j.signatures@[i], before(buf, i), k) }
@fn parse -> r
ensures match r { Ok(p) => json_de::<JWS>(jws@) == Ok::<JWS, serde_json::Error>(p.jws) && jws_read(p.jws, p.protected@, old(buf)@),
    Err(e) => match json_de::<JWS>(jws@) { Err(x) => e.kind == crate::error::json_kind(x), Ok(j) => jws_bad(j, old(buf)@, e.kind) } },
@fn JWS :: from_str -> r
ensures match r { Ok(j) => json_de::<JWS>(s@) == Ok::<JWS, serde_json::Error>(j), Err(e) => json_de::<JWS>(s@) is Err && e.kind == crate::error::json_kind(json_de::<JWS>(s@)->Err_0) },
@fn JWS :: parse -> r
ensures match r { Ok(p) => p.jws == self && jws_read(self, p.protected@, old(buf)@), Err(e) => jws_bad(self, old(buf)@, e.kind) },
@loop 0
invariant protected@.len() == vx_s0.len() - vx_it0@.len(), vx_s0.len() == self.signatures@.len(), len == vx_s0.len(),
    forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0[i]).0 == i && vx_s0[i].1@ == before(old(buf)@, i),
    forall|i: int| 0 <= i < protected@.len() ==> header_of(self.signatures@[i], before(old(buf)@, i)) == Some(Ok::<ProtectedHeader, serde_json::Error>(#[trigger] protected@[i])),
@raw
pub open spec fn compact_header<'a>(s: Seq<char>, pre: Seq<u8>) -> Option<CompactHeader<'a>> { match b64d(s) { None => None, Some(b) => match json_de_bytes::<CompactHeader>(pre + b) { Ok(h) => Some(h), Err(_) => None } } }
/// p is what the compact JWS says
pub open spec fn parsed_as(jws: Seq<char>, p: ParsedCompactJWS, pre: Seq<u8>) -> bool { parts(jws, '.') =~= seq![p.header@, p.payload@, p.signature@] && compact_header(p.header@, pre) == Some(p.parsed_header) }
pub open spec fn unparsed(jws: Seq<char>, pre: Seq<u8>) -> bool { parts(jws, '.').len() != 3 || compact_header(parts(jws, '.')[0], pre) is None }
@fn parse_compact -> r
ensures match r { Ok(p) => parsed_as(compact_jws@, p, old(buf)@), Err(e) => e.kind == ErrorKind::Malformed && unparsed(compact_jws@, old(buf)@) },

@module crate::jws::verify src/jws/verify.rs
@raw
use crate::serde_json; use crate::serde_json::*; use crate::base64; use crate::jws::envelope::*; use crate::jws::parse::*; use crate::askar_crypto::sign::*; use crate::vx::{refs, firstk, searched};
use crate::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult}; use crate::error::Result;
pub open spec fn judged<K>(key: K, alg: Algorithm, protected: Seq<char>, payload: Seq<char>, sig: Seq<char>) -> Option<bool> {
    match (sig_of(alg), b64d(sig)) { (Some(t), Some(b)) => verdict(key, signing_input(protected, payload), b, Some(t)), _ => None } }
@raw
/// the i-th signature is the first that names kid
pub open spec fn names_first(j: ParsedJWS, kid: Seq<char>, i: int) -> bool { 0 <= i < j.protected@.len() && j.jws.signatures@[i].header.kid@ == kid && forall|k: int| 0 <= k < i ==> (#[trigger] j.jws.signatures@[k]).header.kid@ != kid }
/// what that signature says
pub open spec fn says<K>(j: ParsedJWS, kid: Seq<char>, key: K, i: int, v: Option<bool>) -> bool {
    &&& names_first(j, kid, i)
    &&& judged(key, j.protected@[i].alg, j.jws.signatures@[i].protected@, j.jws.payload@, j.jws.signatures@[i].signature@) == v
}
pub broadcast proof fn signature_found(s: Seq<Signature<'_>>, w: Seq<(usize, &Signature<'_>)>, keep: Seq<bool>)
    requires w.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] w[i]).0 == i && *w[i].1 == s[i], searched(w, keep),
    ensures #![trigger refs(s), firstk(w, keep)] match firstk(w, keep) { Some(x) => x.0 < keep.len() && *x.1 == s[x.0 as int] && keep[x.0 as int] && forall|j: int| #![trigger s[j]] 0 <= j < x.0 ==> !keep[j], None => forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> !keep[j] }
{ signature_found2(s, w, keep); }
pub proof fn signature_found2(s: Seq<Signature<'_>>, w: Seq<(usize, &Signature<'_>)>, keep: Seq<bool>)
    requires w.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] w[i]).0 == i && *w[i].1 == s[i], keep.len() <= s.len(),
    ensures match firstk(w, keep) { Some(x) => x.0 < keep.len() && *x.1 == s[x.0 as int] && keep[x.0 as int] && forall|j: int| 0 <= j < x.0 ==> !(#[trigger] keep[j]), None => forall|j: int| 0 <= j < keep.len() ==> !(#[trigger] keep[j]) }
    decreases keep.len()
{ if keep.len() > 0 { let d = keep.drop_last(); signature_found2(s, w, d); assert forall|j: int| 0 <= j < keep.len() - 1 implies #[trigger] keep[j] == d[j] by {} assert(w[keep.len() - 1].0 == keep.len() - 1); } }
@fn ParsedJWS :: verify -> r
ensures match r {
    Ok(v) => exists|i: int| #![trigger self.jws.signatures@[i]] 0 <= i < self.jws.signatures@.len() && says(*self, signer.0@, *signer.1, i, Some(v)),
    Err(e) => forall|i: int| #![trigger self.jws.signatures@[i]] 0 <= i < self.jws.signatures@.len() && names_first(*self, signer.0@, i) ==> says(*self, signer.0@, *signer.1, i, None) },
@start
broadcast use signature_found;
@fn ParsedCompactJWS :: verify -> r
ensures match r {
    Ok(v) => judged(*key, self.parsed_header.alg, self.header@, self.payload@, self.signature@) == Some(v),
    Err(e) => judged(*key, self.parsed_header.alg, self.header@, self.payload@, self.signature@) is None && (sig_of(self.parsed_header.alg) is None ==> e.kind == ErrorKind::Unsupported) && (sig_of(self.parsed_header.alg) is Some ==> e.kind == ErrorKind::Malformed) },

@raw
/// what sign makes, parse reads unchanged, and the public half of its key accepts
pub proof fn sign_then_verify<K, P>(payload: Seq<u8>, kid: Seq<char>, key: K, public: P, alg: Algorithm, out: Seq<char>, p: ParsedJWS)
    requires crate::jws::sign::signed(payload, kid, key, alg, out), verifies(key, public), json_de::<JWS>(out) == Ok::<JWS, serde_json::Error>(p.jws), jws_read(p.jws, p.protected@, seq![]),
    ensures b64d(p.jws.payload@) == Some(payload), p.jws.signatures@.len() == 1, p.jws.signatures@[0].header.kid@ == kid, p.protected@.len() == 1, p.protected@[0].alg == alg, p.protected@[0].typ.cv() == "application/didcomm-signed+json"@, says(p, kid, public, 0, Some(true)),
{
    broadcast use {value_axioms, json_axioms};
    let (j, h, m, ty, sig) = choose|j: JWS, h: ProtectedHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>| crate::jws::sign::is_signed(payload, kid, key, alg, j, h, m, ty, sig, out);
    let t = json_ser(&h)->Ok_0;
    writes(j); reads_ok::<JWS>(out); jws_written(j); jws_names();
    let w = p.jws.signatures@[0];
    assert(j.ser() == JWS::ser(j));
    assert(p.jws.payload@ == j.payload@);
    assert(p.jws.signatures@.len() == 1);
    assert(sig_wire(j.signatures@[0]) is Object);
    assert(w.header.kid@ == kid && w.protected@ == b64e(utf8(t)) && w.signature@ == b64e(sig));
    crate::base64::dec_enc(crate::base64::URL_SAFE_NO_PAD, payload); crate::base64::dec_enc(crate::base64::URL_SAFE_NO_PAD, sig); crate::base64::dec_enc(crate::base64::URL_SAFE_NO_PAD, utf8(t));
    assert(Seq::<u8>::empty() + utf8(t) =~= utf8(t));
    assert(header_of(w, before(seq![], 0)) == Some(Ok::<ProtectedHeader, serde_json::Error>(p.protected@[0])));
    reads_bytes::<ProtectedHeader>(t); writes(h); reads_ok::<ProtectedHeader>(t); header_written(h);
    jws_alg_names(alg, str_of(seq![]));
    assert(p.protected@[0].alg == alg);
    assert(verdict(public, m, sig, ty) == Some(true));
}
/// the same for the compact form
pub proof fn sign_compact_then_verify<K, P>(payload: Seq<u8>, kid: Seq<char>, key: K, public: P, typ: Seq<char>, alg: Algorithm, out: Seq<char>, p: ParsedCompactJWS)
    requires crate::jws::sign::signed_compact(payload, kid, key, typ, alg, out), verifies(key, public), parsed_as(out, p, seq![]),
    ensures b64d(p.payload@) == Some(payload), p.parsed_header.alg == alg, p.parsed_header.kid@ == kid, p.parsed_header.typ@ == typ, judged(public, alg, p.header@, p.payload@, p.signature@) == Some(true),
{
    broadcast use {value_axioms, json_axioms};
    let (h, m, ty, sig) = choose|h: CompactHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>| crate::jws::sign::is_signed_compact(payload, kid, key, typ, alg, h, m, ty, sig, out);
    let t = json_ser(&h)->Ok_0;
    let (a, b, c) = (b64e(utf8(t)), b64e(payload), b64e(sig));
    let u = crate::base64::URL_SAFE_NO_PAD;
    crate::base64::enc_no_dot(u, utf8(t)); crate::base64::enc_no_dot(u, payload); crate::base64::enc_no_dot(u, sig);
    reveal_strlit("."); assert("."@ =~= seq!['.']);
    parts_none(a, '.'); parts_concat(a, '.', b); parts_concat(a + seq!['.'] + b, '.', c);
    assert(parts(out, '.') =~= seq![a, b, c]);
    assert(parts(out, '.')[0] == p.header@ && parts(out, '.')[1] == p.payload@ && parts(out, '.')[2] == p.signature@);
    crate::base64::dec_enc(u, payload); crate::base64::dec_enc(u, sig); crate::base64::dec_enc(u, utf8(t));
    assert(Seq::<u8>::empty() + utf8(t) =~= utf8(t));
    reads_bytes::<CompactHeader>(t); writes(h); reads_ok::<CompactHeader>(t); compact_written(h); jws_names(); jws_alg_names(alg, str_of(seq![]));
    assert(p.parsed_header.kid@ == kid);
    assert(verdict(public, m, sig, ty) == Some(true));
}
