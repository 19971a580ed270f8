C19: the resolver interfaces and the example resolvers.

@module crate::did src/did/mod.rs
@raw
pub use crate::did::did_doc::*; pub use crate::did::did_resolver::*;

@module crate::did::did_resolver src/did/did_resolver.rs
@raw
use crate::did::did_doc::*; use crate::error::{err_msg, Error, ErrorKind, Result, ResultContext, ResultExt, ResultExtNoContext, ToResult};
@trait DIDResolver
/// what the resolver answers for a DID; the same question has the same answer within one call of the library
spec fn resolves(&self, did: Seq<char>, r: Result<Option<DIDDoc>>) -> bool;
@fn trait DIDResolver :: resolve -> r
ensures self.resolves(did@, r),

@module crate::did::resolvers::example src/did/resolvers/example.rs
@raw
use crate::did::*; use crate::error::{err_msg, Error, ErrorKind, Result, ResultContext, ResultExt, ResultExtNoContext, ToResult};
@type ExampleDIDResolver
@fn ExampleDIDResolver :: new -> r
ensures r.known_dids == known_dids,
@impl DIDResolver for ExampleDIDResolver
open spec fn resolves(&self, did: Seq<char>, r: Result<Option<DIDDoc>>) -> bool { r is Ok && r->Ok_0 == first(self.known_dids@, |d: DIDDoc| d.id@ == did) }
@fn DIDResolver for ExampleDIDResolver :: resolve -> r
@start
proof { first_ref_all(self.known_dids@, |d: DIDDoc| d.id@ == did@); }

@module crate::secrets src/secrets/mod.rs
@raw
use crate::error::Result;
/// every id is one of those asked for
pub open spec fn asked(ids: Seq<&str>, x: Seq<char>) -> bool { exists|j: int| 0 <= j < ids.len() && (#[trigger] ids[j])@ == x }
pub open spec fn all_asked(ids: Seq<&str>, v: Seq<&str>) -> bool { forall|i: int| 0 <= i < v.len() ==> asked(ids, (#[trigger] v[i])@) }
pub proof fn filtered_asked(ids: Seq<&str>, p: spec_fn(&str) -> bool) ensures all_asked(ids, ids.filter(p))
{
    let v = ids.filter(p);
    assert forall|i: int| 0 <= i < v.len() implies asked(ids, (#[trigger] v[i])@) by { assert(v.contains(v[i])); ids.lemma_filter_contains_rev(p, v[i]); let j = ids.index_of(v[i]); assert(ids[j] == v[i]); }
}
@trait SecretsResolver
spec fn secret(&self, id: Seq<char>, r: Result<Option<Secret>>) -> bool;
spec fn found(&self, ids: Seq<&str>, r: Result<Vec<&str>>) -> bool;
@fn trait SecretsResolver :: get_secret -> r
ensures self.secret(secret_id@, r),
@fn trait SecretsResolver :: find_secrets -> r
ensures self.found(secret_ids@, r), r is Ok ==> all_asked(secret_ids@, r->Ok_0@),

@module crate::secrets::resolvers::example src/secrets/resolvers/example.rs
@raw
use crate::secrets::*; use crate::error::{err_msg, Error, ErrorKind, Result, ResultContext, ResultExt, ResultExtNoContext, ToResult};
@type ExampleSecretsResolver
@fn ExampleSecretsResolver :: new -> r
ensures r.known_secrets == known_secrets,
@impl SecretsResolver for ExampleSecretsResolver
open spec fn secret(&self, id: Seq<char>, r: Result<Option<Secret>>) -> bool { r is Ok && r->Ok_0 == first(self.known_secrets@, |d: Secret| d.id@ == id) }
open spec fn found(&self, ids: Seq<&str>, r: Result<Vec<&str>>) -> bool { r is Ok && r->Ok_0@ =~= ids.filter(|i: &str| first(self.known_secrets@, |d: Secret| d.id@ == i@) is Some) }
@fn SecretsResolver for ExampleSecretsResolver :: get_secret -> r
@start
proof { first_ref_all(self.known_secrets@, |d: Secret| d.id@ == secret_id@); }
@fn SecretsResolver for ExampleSecretsResolver :: find_secrets -> r
@start
proof { let p = |i: &str| first(self.known_secrets@, |d: Secret| d.id@ == i@) is Some; filter_ref_all(secret_ids@, p); filtered_asked(secret_ids@, p); }
@closure 0 -> (q: bool)
ensures q == (first(self.known_secrets@, |d: Secret| d.id@ == (**vx_p0)@) is Some)
@closureproof
proof { first_ref_all(self.known_secrets@, |d: Secret| d.id@ == (**vx_p0)@); }
