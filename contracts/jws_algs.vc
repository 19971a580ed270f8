C17: the names of signature algorithms (see jwe_algs.vc).

@module crate::jws::envelope src/jws/envelope.rs
@raw
use crate::serde_json::*; use crate::error::{Error, ErrorKind, Result, err_msg};
use crate::askar_crypto::sign::SignatureType;
@type Algorithm serde
@raw
pub open spec fn alg_name(a: Algorithm) -> Seq<char> { match a { Algorithm::EdDSA => "EdDSA"@, Algorithm::Es256 => "ES256"@, Algorithm::Es256K => "ES256K"@, Algorithm::Other(s) => s@ } }
pub open spec fn alg_of(s: Seq<char>) -> Algorithm { if s == "EdDSA"@ { Algorithm::EdDSA } else if s == "ES256"@ { Algorithm::Es256 } else if s == "ES256K"@ { Algorithm::Es256K } else { Algorithm::Other(str_of(s)) } }
pub proof fn jws_alg_names(a: Algorithm, s: String)
    ensures a.ser() == jstr(alg_name(a)), Algorithm::de(Value::String(s)) == Some(alg_of(s@)),
        alg_name(alg_of(s@)) == s@,
        !(a is Other) ==> Algorithm::de(a.ser()) == Some(a),
{ broadcast use value_axioms; reveal_strlit("EdDSA"); reveal_strlit("ES256"); reveal_strlit("ES256K");
  assert("EdDSA"@[1] != "ES256"@[1]); assert("ES256K"@.len() == 6); assert("EdDSA"@.len() == 5 && "ES256"@.len() == 5); }
pub proof fn jws_alg_not_a_string(j: Value) requires !(j is String), ensures Algorithm::de(j) is None
{ }
/// the signature type of a registered name; None for any other
pub open spec fn sig_of(a: Algorithm) -> Option<SignatureType> { match a { Algorithm::EdDSA => Some(SignatureType::EdDSA), Algorithm::Es256 => Some(SignatureType::ES256), Algorithm::Es256K => Some(SignatureType::ES256K), Algorithm::Other(_) => None } }
@fn Algorithm :: sig_type -> r
ensures match r { Ok(t) => sig_of(*self) == Some(t), Err(e) => sig_of(*self) is None && e.kind == ErrorKind::Unsupported },
