C17. `serde` makes vx generate JsonT::ser / JsonT::de from the enum and its attributes as they
stand in the source (serde_gen.rs); the lemmas state the registered names against that.

@module crate::jwe::envelope src/jwe/envelope.rs
@raw
use crate::serde_json::*; use crate::error::{Error, Result};
@type Algorithm serdeonly
@type EncAlgorithm serdeonly
@raw
pub open spec fn alg_name(a: Algorithm) -> Seq<char> { match a { Algorithm::Ecdh1puA256kw => "ECDH-1PU+A256KW"@, Algorithm::EcdhEsA256kw => "ECDH-ES+A256KW"@, Algorithm::Other(s) => s@ } }
pub open spec fn enc_name(a: EncAlgorithm) -> Seq<char> { match a { EncAlgorithm::A256cbcHs512 => "A256CBC-HS512"@, EncAlgorithm::Xc20P => "XC20P"@, EncAlgorithm::A256Gcm => "A256GCM"@, EncAlgorithm::Other(s) => s@ } }
pub open spec fn alg_of(s: Seq<char>) -> Algorithm { if s == "ECDH-1PU+A256KW"@ { Algorithm::Ecdh1puA256kw } else if s == "ECDH-ES+A256KW"@ { Algorithm::EcdhEsA256kw } else { Algorithm::Other(str_of(s)) } }
pub open spec fn enc_of(s: Seq<char>) -> EncAlgorithm { if s == "A256CBC-HS512"@ { EncAlgorithm::A256cbcHs512 } else if s == "XC20P"@ { EncAlgorithm::Xc20P } else if s == "A256GCM"@ { EncAlgorithm::A256Gcm } else { EncAlgorithm::Other(str_of(s)) } }
/// in envelopes, in both directions
pub proof fn jwe_alg_names(a: Algorithm, s: String)
    ensures a.ser() == jstr(alg_name(a)), Algorithm::de(Value::String(s)) == Some(alg_of(s@)),
        alg_name(alg_of(s@)) == s@,
        !(a is Other) ==> Algorithm::de(a.ser()) == Some(a),
{ broadcast use value_axioms; reveal_strlit("ECDH-1PU+A256KW"); reveal_strlit("ECDH-ES+A256KW");
  assert("ECDH-1PU+A256KW"@.len() != "ECDH-ES+A256KW"@.len()); }
pub proof fn jwe_enc_names(a: EncAlgorithm, s: String)
    ensures a.ser() == jstr(enc_name(a)), EncAlgorithm::de(Value::String(s)) == Some(enc_of(s@)),
        enc_name(enc_of(s@)) == s@,
        !(a is Other) ==> EncAlgorithm::de(a.ser()) == Some(a),
{ broadcast use value_axioms; reveal_strlit("A256CBC-HS512"); reveal_strlit("XC20P"); reveal_strlit("A256GCM");
  assert("A256CBC-HS512"@.len() != "XC20P"@.len() && "XC20P"@.len() != "A256GCM"@.len() && "A256CBC-HS512"@.len() != "A256GCM"@.len()); }
pub proof fn jwe_alg_not_a_string(j: Value) requires !(j is String), ensures Algorithm::de(j) is None, EncAlgorithm::de(j) is None
{ }

@fn Algorithm :: as_str -> r
ensures r@ == alg_name(*self),

