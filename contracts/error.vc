@module crate::serde_json
@raw
pub mod error { use vstd::prelude::*; 
#[derive(Clone, Copy)]
pub enum Category { Io, Syntax, Data, Eof } }
pub struct Error { pub cat: error::Category }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    #[verifier::external_body] pub fn classify(&self) -> (r: error::Category) ensures r == self.cat { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
// ---------- JSON values ----------
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(JMap) }
#[verifier::external_body] pub struct JMap { m: u8 }
#[verifier::external_body] pub struct Number { n: u8 }
pub uninterp spec fn jmap_view(o: JMap) -> Map<Seq<char>, Value>;
pub uninterp spec fn obj_of(m: Map<Seq<char>, Value>) -> JMap;
impl JMap { pub open spec fn jm(self) -> Map<Seq<char>, Value> { jmap_view(self) } }
/// the value of a number that is a u64; None for any other number
pub uninterp spec fn num_u64(n: Number) -> Option<u64>;
pub uninterp spec fn num_of(n: u64) -> Number;
pub broadcast axiom fn ax_obj(m: Map<Seq<char>, Value>) ensures jmap_view(#[trigger] obj_of(m)) == m;
pub broadcast axiom fn ax_obj_ext(o: JMap) ensures obj_of(#[trigger] jmap_view(o)) == o;
pub broadcast axiom fn ax_num(n: u64) ensures num_u64(#[trigger] num_of(n)) == Some(n);
pub broadcast group json_axioms { ax_obj, ax_obj_ext, ax_num }
pub open spec fn members(j: Value) -> Map<Seq<char>, Value> { match j { Value::Object(o) => o.jm(), _ => Map::empty() } }
pub open spec fn obj(m: Map<Seq<char>, Value>) -> Value { Value::Object(obj_of(m)) }
pub open spec fn jstr(s: Seq<char>) -> Value { Value::String(crate::vx::str_of(s)) }
/// the member k of j, when j is an object that has it
pub open spec fn at(j: Value, k: Seq<char>) -> Option<Value> { match j { Value::Object(o) => if o.jm().contains_key(k) { Some(o.jm()[k]) } else { None }, _ => None } }
impl crate::vx::VxEq<Value> for Value { open spec fn veq(&self, o: &Value) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &Value) -> (r: bool) { unimplemented!() } }
impl crate::vx::VxEq<str> for Value { open spec fn veq(&self, o: &str) -> bool { self is String && self->String_0@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Value {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => at(*self, k@) == Some(*v), None => at(*self, k@) is None } { unimplemented!() }
    pub fn as_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => *self is String && s@ == self->String_0@, None => !(*self is String) } { match self { Value::String(s) => Some(s.as_str()), _ => None } }
    pub fn as_object(&self) -> (r: Option<&JMap>) ensures match r { Some(s) => *self == Value::Object(*s), None => !(*self is Object) } { match self { Value::Object(s) => Some(s), _ => None } }
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match r { Some(s) => *self == Value::Array(*s), None => !(*self is Array) } { match self { Value::Array(s) => Some(s), _ => None } }
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { match self { Value::Bool(s) => Some(*s), _ => None } }
    pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { match self { Value::Null => true, _ => false } }
    pub fn is_string(&self) -> (r: bool) ensures r == (*self is String) { match self { Value::String(_) => true, _ => false } }
    pub fn is_object(&self) -> (r: bool) ensures r == (*self is Object) { match self { Value::Object(_) => true, _ => false } }
    pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { match self { Value::Array(_) => true, _ => false } }
}
impl JMap {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self.jm().contains_key(k@) && self.jm()[k@] == *v, None => !self.jm().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.jm().contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.jm().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.jm().len() == 0) { unimplemented!() }
}
/// `v[k]`: the member, or null
pub open spec fn index(j: Value, k: Seq<char>) -> Value { match at(j, k) { Some(v) => v, None => Value::Null } }

// ---------- what serde's derive does for a type: generated for the repository's types ----------
pub trait JsonT: Sized { spec fn ser(self) -> Value; spec fn de(j: Value) -> Option<Self>; spec fn missing() -> Option<Self>; }
pub trait JsonDefault: Sized { spec fn dflt() -> Self; }
/// forms that serde's derive reads besides the documented one (a struct given as an array, ...): not specified
pub uninterp spec fn de_other<T>(j: Value) -> Option<T>;
impl JsonT for String { open spec fn ser(self) -> Value { Value::String(self) } open spec fn de(j: Value) -> Option<Self> { match j { Value::String(s) => Some(s), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl<'a> JsonT for &'a str { open spec fn ser(self) -> Value { jstr(self@) } open spec fn de(j: Value) -> Option<Self> { match j { Value::String(s) => Some(crate::vx::slice_of(s@)), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl<'a> JsonT for crate::vx::Cow<'a, str> { open spec fn ser(self) -> Value { jstr(self.cv()) } open spec fn de(j: Value) -> Option<Self> { match j { Value::String(s) => Some(crate::vx::Cow::Owned(s)), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl JsonT for bool { open spec fn ser(self) -> Value { Value::Bool(self) } open spec fn de(j: Value) -> Option<Self> { match j { Value::Bool(s) => Some(s), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl JsonT for u64 { open spec fn ser(self) -> Value { Value::Number(num_of(self)) } open spec fn de(j: Value) -> Option<Self> { match j { Value::Number(s) => num_u64(s), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl JsonT for Value { open spec fn ser(self) -> Value { self } open spec fn de(j: Value) -> Option<Self> { Some(j) } open spec fn missing() -> Option<Self> { None } }
impl<T: JsonT> JsonT for Option<T> {
    open spec fn ser(self) -> Value { match self { None => Value::Null, Some(x) => x.ser() } }
    open spec fn de(j: Value) -> Option<Self> { match j { Value::Null => Some(None), _ => match T::de(j) { None => None, Some(x) => Some(Some(x)) } } }
    open spec fn missing() -> Option<Self> { Some(None) } }
impl<T: JsonT> JsonT for Vec<T> {
    open spec fn ser(self) -> Value { Value::Array(crate::vx::vec_of(self@.map_values(|x: T| x.ser()))) }
    open spec fn de(j: Value) -> Option<Self> { match j { Value::Array(v) => if forall|i: int| 0 <= i < v@.len() ==> (#[trigger] T::de(v@[i])) is Some { Some(crate::vx::vec_of(v@.map_values(|x: Value| T::de(x)->0))) } else { None }, _ => None } }
    open spec fn missing() -> Option<Self> { None } }
impl<T> JsonDefault for Vec<T> { open spec fn dflt() -> Self { crate::vx::vec_of(seq![]) } }
impl<T> JsonDefault for Option<T> { open spec fn dflt() -> Self { None } }
impl JsonDefault for bool { open spec fn dflt() -> Self { false } }
impl JsonDefault for String { open spec fn dflt() -> Self { crate::vx::str_of(seq![]) } }
// the extra members: a HashMap with text keys is its contents
impl JsonT for crate::vx::HashMap<String, Value> { open spec fn ser(self) -> Value { Value::Object(obj_of(hm(self))) } open spec fn de(j: Value) -> Option<Self> { match j { Value::Object(o) => Some(hm_of(o.jm())), _ => None } } open spec fn missing() -> Option<Self> { None } }
impl<V> JsonDefault for crate::vx::HashMap<String, V> { open spec fn dflt() -> Self { hm_of(Map::empty()) } }

/// m with the member k, when o has a value
pub open spec fn opt_ins<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>, o: Option<T>) -> Map<Seq<char>, Value> { match o { None => m, Some(x) => m.insert(k, x.ser()) } }
pub open spec fn no_members() -> Map<Seq<char>, Value> { Map::empty() }
/// absent, null or of type T
pub open spec fn opt_ok<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { m.contains_key(k) ==> <Option<T> as JsonT>::de(m[k]) is Some }
/// the optional member k of m as a T (None when absent or null)
pub open spec fn opt_get<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>) -> Option<T> { if m.contains_key(k) { <Option<T> as JsonT>::de(m[k])->0 } else { None } }
pub open spec fn has<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { m.contains_key(k) && T::de(m[k]) is Some }
pub open spec fn get<T: JsonT>(m: Map<Seq<char>, Value>, k: Seq<char>) -> T { T::de(m[k])->0 }
/// the names are pairwise different; an injective coding of strings the solver can compute with
pub broadcast proof fn vec_round_trip<T: JsonT>(v: Vec<T>) requires forall|i: int| 0 <= i < v@.len() ==> T::de(#[trigger] v@[i].ser()) == Some(v@[i]), ensures <Vec<T> as JsonT>::de(#[trigger] v.ser()) == Some(v)
{
    broadcast use crate::vx::value_axioms;
    let a = v@.map_values(|x: T| x.ser());
    let w = crate::vx::vec_of(a);
    assert(w@ == a);
    assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] T::de(w@[i])) is Some by { assert(w@[i] == v@[i].ser()); }
    assert(w@.map_values(|x: Value| T::de(x)->0) =~= v@);
}

/// the JSON value a text denotes, when it is JSON in which no object repeats a member name
/// (for other texts nothing is assumed)
pub uninterp spec fn tree(s: Seq<char>) -> Option<Value>;
/// reading a text as an owned T is reading the value it denotes; what is refused then is a data error
pub axiom fn reads_owned<T: JsonT>(s: Seq<char>) ensures match tree(s) { None => true, Some(j) => match json_de::<T>(s) { Ok(v) => T::de(j) == Some(v), Err(e) => T::de(j) is None && e.cat == error::Category::Data } };
/// what is read, of an owned or a borrowing type, is what the value denotes (a borrowing type may refuse a text that needs unescaping)
pub axiom fn reads_ok<T: JsonT>(s: Seq<char>) ensures tree(s) is Some && json_de::<T>(s) is Ok ==> T::de(tree(s)->0) == Some(json_de::<T>(s)->Ok_0);
/// reading the bytes of a text is reading the text
pub axiom fn reads_bytes<T>(s: Seq<char>) ensures json_de_bytes::<T>(crate::vx::utf8(s)) == json_de::<T>(s);
/// a written text denotes the value that the type's derive output describes
pub axiom fn writes<T: JsonT>(v: T) ensures json_ser(&v) is Ok ==> tree(json_ser(&v)->Ok_0) == Some(v.ser());
/// reading a text that is JSON fails only for what it says (neither for the source nor for an early end)
pub axiom fn reads_data<T: JsonT>(s: Seq<char>) ensures tree(s) is Some && json_de::<T>(s) is Err ==> json_de::<T>(s)->Err_0.cat != error::Category::Io && json_de::<T>(s)->Err_0.cat != error::Category::Eof;
/// none of the texts in the value needs an escape in JSON
pub uninterp spec fn clean(v: Value) -> bool;
pub broadcast axiom fn clean_str(s: String) ensures #[trigger] clean(Value::String(s)) == crate::vx::plain(s@);
pub broadcast axiom fn clean_null() ensures #[trigger] clean(Value::Null);
pub broadcast axiom fn clean_obj(o: JMap) ensures #[trigger] clean(Value::Object(o)) == (forall|k: Seq<char>| o.jm().contains_key(k) ==> clean(#[trigger] o.jm()[k]));
pub broadcast axiom fn clean_arr(v: Vec<Value>) ensures #[trigger] clean(Value::Array(v)) == (forall|i: int| 0 <= i < v@.len() ==> clean(#[trigger] v@[i]));
pub broadcast group clean_axioms { clean_str, clean_null, clean_obj, clean_arr }
/// a written text without escapes can be read by a type that borrows from it
pub axiom fn reads_clean<T: JsonT, U: JsonT>(v: T) ensures json_ser(&v) is Ok && clean(v.ser()) && U::de(v.ser()) is Some ==> json_de::<U>(json_ser(&v)->Ok_0) is Ok;
/// x is out, or out read as JSON and written again
pub open spec fn same_json(x: Seq<char>, out: Seq<char>) -> bool { x == out || exists|v: Value| #[trigger] json_ser(&v) == Ok::<Seq<char>, Error>(x) && tree(out) == Some(v) }
pub proof fn same_tree(x: Seq<char>, out: Seq<char>) requires same_json(x, out) ensures tree(x) == tree(out)
{ if x != out { let v = choose|v: Value| #[trigger] json_ser(&v) == Ok::<Seq<char>, Error>(x) && tree(out) == Some(v); writes(v); } }
pub proof fn reads_same<T: JsonT, U: JsonT>(t: T, x: Seq<char>) requires json_ser(&t) is Ok, same_json(x, json_ser(&t)->Ok_0), clean(t.ser()), U::de(t.ser()) is Some ensures json_de::<U>(x) is Ok, U::de(t.ser()) == Some(json_de::<U>(x)->Ok_0)
{ let out = json_ser(&t)->Ok_0; writes(t); reads_clean::<T, U>(t); same_tree(x, out); if x != out { let v = choose|v: Value| #[trigger] json_ser(&v) == Ok::<Seq<char>, Error>(x) && tree(out) == Some(v); reads_clean::<Value, U>(v); } reads_ok::<U>(x); }
pub open spec fn json_obj_spec() -> Value { obj(Map::empty()) }
/// what serde_json reads from a text, as the derive output for T defines it (deterministic)
pub uninterp spec fn json_de<T>(s: Seq<char>) -> Result<T>;
pub uninterp spec fn json_de_bytes<T>(s: Seq<u8>) -> Result<T>;
pub uninterp spec fn json_ser<T: ?Sized>(t: &T) -> Result<Seq<char>>;
pub axiom fn no_io<T>(s: Seq<char>) ensures json_de::<T>(s) is Err ==> json_de::<T>(s)->Err_0.cat != error::Category::Io;
#[verifier::external_body] pub fn from_str<'a, T>(s: &'a str) -> (r: Result<T>) ensures r == json_de::<T>(s@) { unimplemented!() }
#[verifier::external_body] pub fn from_slice<'a, T>(s: &'a [u8]) -> (r: Result<T>) ensures r == json_de_bytes::<T>(s@) { unimplemented!() }
#[verifier::external_body] pub fn to_string<T: ?Sized>(t: &T) -> (r: Result<String>) ensures match r { Ok(s) => json_ser(t) == Ok::<Seq<char>, Error>(s@), Err(e) => json_ser(t) == Err::<Seq<char>, Error>(e) } { unimplemented!() }

@module crate::vx
@raw
// ---------- json!{..} ----------
use crate::serde_json::Value;
#[verifier::external_body] pub fn json_obj() -> (r: Value) ensures r == crate::serde_json::obj(Map::empty()) { unimplemented!() }
#[verifier::external_body] pub fn json_arr() -> (r: Value) ensures r == Value::Array(vec_of(seq![])) { unimplemented!() }
#[verifier::external_body] pub fn json_null() -> (r: Value) ensures r == Value::Null { unimplemented!() }
impl Value {
    #[verifier::external_body] pub fn vx_with(self, k: &str, v: Value) -> (r: Value) ensures r == (match self { Value::Object(o) => crate::serde_json::obj(o.jm().insert(k@, v)), x => x }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_push(self, v: Value) -> (r: Value) ensures r == (match self { Value::Array(o) => Value::Array(vec_of(o@.push(v))), x => x }) { unimplemented!() }
}
pub trait VxJson { spec fn tj(&self) -> Value; }
impl VxJson for str { open spec fn tj(&self) -> Value { crate::serde_json::jstr(self@) } }
impl VxJson for String { open spec fn tj(&self) -> Value { crate::serde_json::jstr(self@) } }
impl VxJson for Value { open spec fn tj(&self) -> Value { *self } }
impl VxJson for bool { open spec fn tj(&self) -> Value { Value::Bool(*self) } }
impl<'a, T: VxJson + ?Sized> VxJson for &'a T { open spec fn tj(&self) -> Value { (**self).tj() } }
impl<T: VxJson> VxJson for Option<T> { open spec fn tj(&self) -> Value { match self { Some(x) => x.tj(), None => Value::Null } } }
#[verifier::external_body] pub fn to_json<T: VxJson + ?Sized>(x: &T) -> (r: Value) ensures r == x.tj() { unimplemented!() }
impl VxToOwned for Value { type O = Value; open spec fn owned(&self, r: Value) -> bool { r == *self } fn vx_to_owned(&self) -> (r: Value) { self.clone() } }
/// `v[k]` read
#[verifier::external_body] pub fn json_get<'a>(v: &'a Value, k: &str) -> (r: &'a Value) ensures *r == crate::serde_json::index(*v, k@) { unimplemented!() }
/// `v[k] = x` (panics unless v is an object or null)
#[verifier::external_body] pub fn json_set(v: &mut Value, k: &str, x: Value) requires *old(v) is Object || *old(v) is Null, ensures *final(v) == (match *old(v) { Value::Object(o) => crate::serde_json::obj(o.jm().insert(k@, x)), _ => crate::serde_json::obj(Map::empty().insert(k@, x)) }) { unimplemented!() }
#[verifier::external_body] pub fn string_from(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }

@module crate::bs58
@raw
/// what a base58 text decodes to
pub uninterp spec fn b58(s: Seq<char>) -> Option<Seq<u8>>;
pub struct DecodeBuilder { t: u8 }
pub uninterp spec fn builder_text(b: DecodeBuilder) -> Seq<char>;
pub trait Text { spec fn tx(&self) -> Seq<char>; }
impl Text for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<'a, T: Text + ?Sized> Text for &'a T { open spec fn tx(&self) -> Seq<char> { (**self).tx() } }
#[verifier::external_body] pub fn decode<T: Text>(x: T) -> (r: DecodeBuilder) ensures builder_text(r) == x.tx() { unimplemented!() }
impl DecodeBuilder { #[verifier::external_body] pub fn into_vec(self) -> (r: decode::Result<Vec<u8>>) ensures match r { Ok(v) => b58(builder_text(self)) == Some(v@), Err(_) => b58(builder_text(self)) is None } { unimplemented!() } }
pub mod decode { use vstd::prelude::*;
pub enum Error { BufferTooSmall, Other(u8) }
pub type Result<T> = core::result::Result<T, Error>;
impl Error { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } } }
pub mod encode { use vstd::prelude::*;
pub enum Error { BufferTooSmall }
pub type Result<T> = core::result::Result<T, Error>;
impl Error { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } } }

@module crate::anyhow
@raw
pub struct Error { pub e: u8 }
impl Error {
    #[verifier::external_body] pub fn new<E>(e: E) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn msg<E>(e: E) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn context<E>(self, e: E) -> Error { unimplemented!() }
}

@alias to_string
@module crate::error src/error.rs
@raw
use crate::serde_json; use crate::bs58; use crate::anyhow; use crate::serde_json::error::Category;
@type ErrorKind plain
@type Error
@raw
/// the error kind of a JSON reading error
pub open spec fn json_kind(e: serde_json::Error) -> ErrorKind {
    if e.cat == Category::Io || e.cat == Category::Eof { ErrorKind::InvalidState } else { ErrorKind::Malformed }
}
pub open spec fn bs58_kind(e: bs58::decode::Error) -> ErrorKind { if e is BufferTooSmall { ErrorKind::InvalidState } else { ErrorKind::Malformed } }

@fn Error :: kind -> r
ensures r == self.kind,
@fn Error :: new -> r
ensures r.kind == kind,
@fn Error :: msg -> r
ensures r.kind == kind,
@type Result

@trait ResultExt
spec fn kind_spec(self, k: ErrorKind, r: Result<T>) -> bool;
@fn trait ResultExt :: kind -> r
ensures self.kind_spec(kind, r),
@impl ResultExt for std::result::Result
open spec fn kind_spec(self, k: ErrorKind, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(_) => r is Err && r->Err_0.kind == k } }
@fn ResultExt for std::result::Result :: kind -> r
@closure 0 (e: E) -> (q: Error)
ensures q.kind == kind

@trait ResultExtNoContext
spec fn to_kind_spec(self, k: ErrorKind, r: core::result::Result<T, ErrorKind>) -> bool;
spec fn kind_nc_spec(self, k: ErrorKind, r: Result<T>) -> bool;
@fn trait ResultExtNoContext :: to_error_kind -> r
ensures self.to_kind_spec(kind, r),
@fn trait ResultExtNoContext :: kind_no_context -> r
ensures self.kind_nc_spec(kind, r),
@impl ResultExtNoContext for std::result::Result
open spec fn to_kind_spec(self, k: ErrorKind, r: core::result::Result<T, ErrorKind>) -> bool { match self { Ok(v) => r == Ok::<T, ErrorKind>(v), Err(_) => r == Err::<T, ErrorKind>(k) } }
open spec fn kind_nc_spec(self, k: ErrorKind, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(_) => r is Err && r->Err_0.kind == k } }
@fn ResultExtNoContext for std::result::Result :: to_error_kind -> r
@closure 0 (vx_e: E) -> (q: ErrorKind)
ensures q == kind
@fn ResultExtNoContext for std::result::Result :: kind_no_context -> r
@closure 0 (vx_e: E) -> (q: Error)
ensures q.kind == kind

@trait ResultContext
spec fn ctx_spec(self, r: Result<T>) -> bool;
@fn trait ResultContext :: context -> r
ensures self.ctx_spec(r),
@impl ResultContext for Result
open spec fn ctx_spec(self, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(e) => r is Err && r->Err_0.kind == e.kind } }
@fn ResultContext for Result :: context -> r
@closure 0 (e: Error) -> (q: Error)
ensures q.kind == e.kind

@trait ToResult
spec fn tod_spec(self, r: Result<T>) -> bool;
@fn trait ToResult :: to_didcomm -> r
ensures self.tod_spec(r),
@impl ToResult for serde_json::Result
open spec fn tod_spec(self, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(e) => r is Err && r->Err_0.kind == json_kind(e) } }
@fn ToResult for serde_json::Result :: to_didcomm -> r
@closure 0 (e: serde_json::Error) -> (q: Error)
ensures q.kind == json_kind(e)
@impl ToResult for bs58::decode::Result
open spec fn tod_spec(self, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(e) => r is Err && r->Err_0.kind == bs58_kind(e) } }
@fn ToResult for bs58::decode::Result :: to_didcomm -> r
@closure 0 (e: bs58::decode::Error) -> (q: Error)
ensures q.kind == bs58_kind(e)
@impl ToResult for bs58::encode::Result
open spec fn tod_spec(self, r: Result<T>) -> bool { match self { Ok(v) => r == Ok::<T, Error>(v), Err(e) => r is Err && r->Err_0.kind == ErrorKind::InvalidState } }
@fn ToResult for bs58::encode::Result :: to_didcomm -> r
@closure 0 (e: bs58::encode::Error) -> (q: Error)
ensures q.kind == ErrorKind::InvalidState

@fn From<serde_json::Error> for Error :: from -> r
ensures r.kind == json_kind(err),
@fn From<bs58::decode::Error> for Error :: from -> r
ensures r.kind == bs58_kind(err),
@fn From<bs58::encode::Error> for Error :: from -> r
ensures r.kind == ErrorKind::InvalidState,
@raw
impl crate::vx::VxInto<Error> for serde_json::Error { open spec fn into_spec(self, r: Error) -> bool { r.kind == json_kind(self) } fn vx_into(self) -> (r: Error) { Error::from(self) } }
impl crate::vx::VxInto<Error> for bs58::decode::Error { open spec fn into_spec(self, r: Error) -> bool { r.kind == bs58_kind(self) } fn vx_into(self) -> (r: Error) { Error::from(self) } }
impl crate::vx::VxInto<Error> for bs58::encode::Error { open spec fn into_spec(self, r: Error) -> bool { r.kind == ErrorKind::InvalidState } fn vx_into(self) -> (r: Error) { Error::from(self) } }

@raw
impl vstd::std_specs::convert::FromSpecImpl<serde_json::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: serde_json::Error) -> Self { arbitrary() } }
@raw
impl vstd::std_specs::convert::FromSpecImpl<bs58::decode::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: bs58::decode::Error) -> Self { arbitrary() } }
@raw
impl vstd::std_specs::convert::FromSpecImpl<bs58::encode::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: bs58::encode::Error) -> Self { arbitrary() } }
@fn err_msg -> r
ensures r.kind == kind,
