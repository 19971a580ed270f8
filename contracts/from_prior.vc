The from_prior claim set, its builder and its JSON form (C08, C14).

@module crate::message::from_prior src/message/from_prior/mod.rs
@raw
use crate::serde_json::*; use vstd::prelude::*;
@type FromPrior serde
@const JWT_TYP
@type FromPriorBuilder
@raw
pub open spec fn fb_new(r: FromPriorBuilder, iss: String, sub: String) -> bool { r == (FromPriorBuilder { iss, sub, aud: None, exp: None, nbf: None, iat: None, jti: None }) }
@fn FromPrior :: build -> r
ensures fb_new(r, iss, sub),
@fn FromPriorBuilder :: new -> r
ensures fb_new(r, iss, sub),
@fn FromPriorBuilder :: aud -> r
ensures r == (FromPriorBuilder { aud: Some(aud), ..self }),
@fn FromPriorBuilder :: exp -> r
ensures r == (FromPriorBuilder { exp: Some(exp), ..self }),
@fn FromPriorBuilder :: nbf -> r
ensures r == (FromPriorBuilder { nbf: Some(nbf), ..self }),
@fn FromPriorBuilder :: iat -> r
ensures r == (FromPriorBuilder { iat: Some(iat), ..self }),
@fn FromPriorBuilder :: jti -> r
ensures r == (FromPriorBuilder { jti: Some(jti), ..self }),
@fn FromPriorBuilder :: finalize -> r
ensures r == (FromPrior { iss: self.iss, sub: self.sub, aud: self.aud, exp: self.exp, nbf: self.nbf, iat: self.iat, jti: self.jti }),
@raw
pub proof fn claim_names() ensures "iss"@ != "sub"@, "iss"@ != "aud"@, "iss"@ != "exp"@, "iss"@ != "nbf"@, "iss"@ != "iat"@, "iss"@ != "jti"@, "sub"@ != "aud"@, "sub"@ != "exp"@, "sub"@ != "nbf"@, "sub"@ != "iat"@, "sub"@ != "jti"@,
    "aud"@ != "exp"@, "aud"@ != "nbf"@, "aud"@ != "iat"@, "aud"@ != "jti"@, "exp"@ != "nbf"@, "exp"@ != "iat"@, "exp"@ != "jti"@, "nbf"@ != "iat"@, "nbf"@ != "jti"@, "iat"@ != "jti"@
{ reveal_strlit("iss"); reveal_strlit("sub"); reveal_strlit("aud"); reveal_strlit("exp"); reveal_strlit("nbf"); reveal_strlit("iat"); reveal_strlit("jti");
  assert("iss"@[1] == 's' && "iat"@[1] == 'a'); assert("iss"@[0] == 'i' && "sub"@[0] == 's' && "aud"@[0] == 'a' && "exp"@[0] == 'e' && "nbf"@[0] == 'n' && "iat"@[0] == 'i' && "jti"@[0] == 'j'); }
pub open spec fn claims_wire(a: FromPrior) -> Map<Seq<char>, Value> {
    let m = no_members().insert("iss"@, jstr(a.iss@)).insert("sub"@, jstr(a.sub@));
    opt_ins(opt_ins(opt_ins(opt_ins(opt_ins(m, "aud"@, a.aud), "exp"@, a.exp), "nbf"@, a.nbf), "iat"@, a.iat), "jti"@, a.jti)
}
pub proof fn claims_written(a: FromPrior) ensures a.ser() == obj(claims_wire(a))
{ broadcast use {value_axioms, json_axioms}; claim_names(); assert(members(a.ser()) =~= claims_wire(a)); assert(a.ser() is Object); }
pub proof fn claims_round_trip(a: FromPrior) ensures FromPrior::de(a.ser()) == Some(a)
{ broadcast use {value_axioms, json_axioms}; claim_names(); claims_written(a); }
/// the claim set that a JSON object denotes: both DIDs are required, every other claim is optional
pub proof fn claims_read(o: JMap) ensures FromPrior::de(Value::Object(o)) == ({ let m = o.jm();
    if has::<String>(m, "iss"@) && has::<String>(m, "sub"@) && opt_ok::<String>(m, "aud"@) && opt_ok::<u64>(m, "exp"@) && opt_ok::<u64>(m, "nbf"@) && opt_ok::<u64>(m, "iat"@) && opt_ok::<String>(m, "jti"@)
    { Some(FromPrior { iss: get(m, "iss"@), sub: get(m, "sub"@), aud: opt_get(m, "aud"@), exp: opt_get(m, "exp"@), nbf: opt_get(m, "nbf"@), iat: opt_get(m, "iat"@), jti: opt_get(m, "jti"@) }) } else { None } })
{ broadcast use {value_axioms, json_axioms}; claim_names(); }
