C01, C02: parsing a JWE and the DIDComm binding check.

@module crate::jwe::parse src/jwe/parse.rs
@raw
use crate::error::{err_msg, ErrorKind, Error, Result, ResultExt, ToResult};
use crate::jwe::envelope::*;
use crate::sha2::Sha256;
use crate::sha2; use crate::base64; use crate::serde_json;
use crate::serde_json::{json_de, json_de_bytes};

pub open spec fn b64(s: Seq<char>) -> Option<Seq<u8>> { base64::dec(base64::URL_SAFE_NO_PAD, utf8(s)) }
/// the recipients' key ids, in the order they are listed
pub open spec fn kids<'a>(r: Seq<Recipient<'a>>) -> Seq<Seq<char>> { Seq::new(r.len(), |i: int| r[i].header.kid@) }
/// the DIDComm recipients hash: SHA-256 over the sorted key ids joined with '.'
pub open spec fn apv_of(k: Seq<Seq<char>>) -> Seq<u8> { sha2::sha256(utf8(str_join(str_sorted(k.to_multiset()), "."@))) }
/// the sender binding of an accepted envelope
pub open spec fn sender_bound<'b>(p: ProtectedHeader<'b>, apu: Option<Seq<u8>>) -> bool {
    &&& apu is Some ==> valid_utf8(apu->0)
    &&& p.skid is Some ==> apu is Some && apu->0 == utf8(p.skid->0@)
}
use vstd::utf8::*;

@type ParsedJWE

@fn parse -> r
ensures
    match r {
        Ok(p) => json_de::<JWE>(jwe@) == Ok::<JWE, serde_json::Error>(p.jwe) && parsed_ok(p, old(buf)@),
        Err(e) => parse_rejects(jwe@, old(buf)@, e.kind),
    },

@raw
pub open spec fn parsed_ok<'a, 'b>(p: ParsedJWE<'a, 'b>, pre: Seq<u8>) -> bool {
    &&& b64(p.jwe.protected@) is Some
    &&& json_de_bytes::<ProtectedHeader>(pre + b64(p.jwe.protected@)->0) == Ok::<ProtectedHeader, serde_json::Error>(p.protected)
    &&& b64(p.protected.apv@) == Some(p.apv@)
    &&& p.protected.apu is None <==> p.apu is None
    &&& p.protected.apu is Some ==> b64(p.protected.apu->0@) == Some(p.apu->0@)
}
pub open spec fn header_rejects(protected: Seq<char>, pre: Seq<u8>, k: ErrorKind) -> bool {
    if b64(protected) is None { k == ErrorKind::Malformed }
    else { match json_de_bytes::<ProtectedHeader>(pre + b64(protected)->0) {
        Err(e) => k == crate::error::json_kind(e),
        Ok(h) => (b64(h.apv@) is None || (h.apu is Some && b64(h.apu->0@) is None)) && k == ErrorKind::Malformed,
    } }
}
pub open spec fn parse_rejects(s: Seq<char>, pre: Seq<u8>, k: ErrorKind) -> bool {
    match json_de::<JWE>(s) { Err(e) => k == crate::error::json_kind(e), Ok(j) => header_rejects(j.protected@, pre, k) }
}

@fn JWE :: from_str -> r
ensures
    match r { Ok(j) => json_de::<JWE>(s@) == Ok::<JWE, serde_json::Error>(j), Err(e) => json_de::<JWE>(s@) is Err && e.kind == crate::error::json_kind(json_de::<JWE>(s@)->Err_0) },

@fn JWE :: parse -> r
ensures
    match r { Ok(p) => p.jwe == self && parsed_ok(p, old(buf)@), Err(e) => header_rejects(self.protected@, old(buf)@, e.kind) },

@fn ParsedJWE :: verify_didcomm -> r
ensures
    match r {
        Ok(p) => p == self && self.apv@ == apv_of(kids(self.jwe.recipients@)) && sender_bound(self.protected, opt_view(self.apu)),
        Err(e) => e.kind == ErrorKind::Malformed && !(self.apv@ == apv_of(kids(self.jwe.recipients@)) && sender_bound(self.protected, opt_view(self.apu))),
    },
@raw
pub open spec fn opt_view(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { None => None, Some(v) => Some(v@) } }
