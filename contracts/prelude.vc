Prelude: wrappers around std functions that this Verus has no specification for, and stubs of
external crates. Everything marked external_body here is part of the trusted base.

@alias iter into_iter sort join as_deref transpose split_once split starts_with ends_with trim to_lowercase to_ascii_lowercase eq_ignore_ascii_case contains reverse clone last first to_owned into into_owned as_slice strip_prefix split_at
@module crate::vx
@raw
use vstd::utf8::*; use vstd::multiset::Multiset;

pub open spec fn vx_is<T>(a: T, b: T) -> bool { a == b }

// ---------- values: a String is its characters, a Vec its elements ----------
pub uninterp spec fn str_of(s: Seq<char>) -> String;
pub uninterp spec fn slice_of<'a>(s: Seq<char>) -> &'a str;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_str_of(s: Seq<char>) ensures (#[trigger] str_of(s))@ == s;
pub broadcast axiom fn ax_str_ext(s: String) ensures str_of(#[trigger] s@) == s;
pub broadcast axiom fn ax_slice_of<'a>(s: Seq<char>) ensures (#[trigger] slice_of::<'a>(s))@ == s;
pub broadcast axiom fn ax_slice_ext<'a>(s: &'a str) ensures slice_of::<'a>(#[trigger] s@) == s;
pub broadcast axiom fn ax_vec_of<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] vec_of(s))@ == s;
pub broadcast proof fn vec_len<T>(v: Vec<T>) ensures (#[trigger] v@).len() <= usize::MAX
{ broadcast use vstd::std_specs::vec::axiom_spec_len; assert(vstd::std_specs::vec::spec_vec_len(&v) == v@.len()); }
pub broadcast axiom fn ax_vec_ext<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub broadcast group value_axioms { ax_str_of, ax_str_ext, ax_slice_of, ax_slice_ext, ax_vec_of, ax_vec_ext, vec_len }

// ---------- std::collections::HashMap with text keys: its contents ----------
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
pub uninterp spec fn hm<V>(h: HashMap<String, V>) -> Map<Seq<char>, V>;
pub uninterp spec fn hm_of<V>(m: Map<Seq<char>, V>) -> HashMap<String, V>;
pub broadcast axiom fn ax_hm_of<V>(m: Map<Seq<char>, V>) ensures hm(#[trigger] hm_of(m)) == m;
pub broadcast axiom fn ax_hm_ext<V>(h: HashMap<String, V>) ensures hm_of(#[trigger] hm(h)) == h;
pub broadcast group hm_axioms { ax_hm_of, ax_hm_ext }
impl<V> HashMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures hm(r) == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures hm(*final(self)) == hm(*old(self)).insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (hm(*self).len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == hm(*self).contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => hm(*self).contains_key(k@) && hm(*self)[k@] == *v, None => !hm(*self).contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures hm(*final(self)) == hm(*old(self)).remove(k@) { unimplemented!() }
}

// ---------- equality: `a == b` in the source becomes vx_eq(&(a), &(b)) ----------
pub trait VxEq<B: ?Sized> {
    spec fn veq(&self, o: &B) -> bool;
    fn vx_eq_(&self, o: &B) -> (r: bool) ensures r == self.veq(o);
}
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.veq(b) { a.vx_eq_(b) }

impl VxEq<str> for str { open spec fn veq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> (r: bool) { self == o } }
impl VxEq<String> for String { open spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> (r: bool) { self == o } }
impl VxEq<str> for String { open spec fn veq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> (r: bool) { self == o } }
impl<'a> VxEq<&'a str> for String { open spec fn veq(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&'a str) -> (r: bool) { self == o } }
impl VxEq<String> for str { open spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> (r: bool) { self == o } }
impl<'a> VxEq<String> for &'a str { open spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> (r: bool) { self == o } }
impl<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'b B> for &'a A { open spec fn veq(&self, o: &&'b B) -> bool { (**self).veq(*o) } fn vx_eq_(&self, o: &&'b B) -> (r: bool) { (**self).vx_eq_(*o) } }
impl VxEq<Vec<u8>> for Vec<u8> { open spec fn veq(&self, o: &Vec<u8>) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &Vec<u8>) -> (r: bool) { self == o } }
impl VxEq<[u8]> for Vec<u8> { open spec fn veq(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &[u8]) -> (r: bool) { self == o } }
impl VxEq<[u8]> for [u8] { open spec fn veq(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &[u8]) -> (r: bool) { self == o } }
impl VxEq<u8> for u8 { open spec fn veq(&self, o: &u8) -> bool { *self == *o } fn vx_eq_(&self, o: &u8) -> (r: bool) { *self == *o } }
impl VxEq<bool> for bool { open spec fn veq(&self, o: &bool) -> bool { *self == *o } fn vx_eq_(&self, o: &bool) -> (r: bool) { *self == *o } }
impl VxEq<usize> for usize { open spec fn veq(&self, o: &usize) -> bool { *self == *o } fn vx_eq_(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq<u64> for u64 { open spec fn veq(&self, o: &u64) -> bool { *self == *o } fn vx_eq_(&self, o: &u64) -> (r: bool) { *self == *o } }
impl<A: VxEq<B>, B> VxEq<Option<B>> for Option<A> {
    open spec fn veq(&self, o: &Option<B>) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.veq(b), _ => false } }
    fn vx_eq_(&self, o: &Option<B>) -> (r: bool) { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.vx_eq_(b), _ => false } }
}

// ---------- strings ----------
/// no character needs an escape in JSON
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '"' && s[i] != '\\' && s[i] as u32 >= 0x20 }
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// two `&str` (or `String`) with the same characters are the same value
pub axiom fn vx_str_ext(a: &str, b: &str) requires a@ == b@ ensures a == b;
pub axiom fn vx_string_ext(a: String, b: String) requires a@ == b@ ensures a == b;

pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == utf8(s@);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

pub uninterp spec fn utf8_err(b: Seq<u8>) -> std::str::Utf8Error;
#[verifier::external_body]
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: core::result::Result<&'a str, std::str::Utf8Error>)
    ensures match r { Ok(s) => valid_utf8(b@) && s@ == decode_utf8(b@) && utf8(s@) == b@ && (forall|t: Seq<char>| #[trigger] encode_utf8(t) == b@ ==> t == s@), Err(_) => !valid_utf8(b@) }
{ std::str::from_utf8(b) }

/// the text that UTF-8 bytes stand for
pub open spec fn text_of(b: Seq<u8>) -> Option<Seq<char>> { if valid_utf8(b) { Some(decode_utf8(b)) } else { None } }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_body]
pub fn string_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => text_of(b@) == Some(s@) && utf8(s@) == b@, Err(_) => text_of(b@) is None }
{ String::from_utf8(b) }
pub proof fn text_of_utf8(s: Seq<char>) ensures text_of(utf8(s)) == Some(s)
{ encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); }

/// the byte-lexicographic order on strings, and sorting by it, are left uninterpreted: what is
/// assumed of `sort` is that the result depends only on the multiset of the elements.
pub uninterp spec fn str_sorted(s: Multiset<Seq<char>>) -> Seq<Seq<char>>;
pub axiom fn vx_sorted_perm(s: Multiset<Seq<char>>) ensures str_sorted(s).to_multiset() == s;
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub open spec fn string_views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn str_join(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { str_join(s.drop_last(), sep) + sep + s.last() } }

pub trait VxSort { spec fn sorted_to(&self, f: &Self) -> bool; fn vx_sort(&mut self) ensures old(self).sorted_to(final(self)); }
impl<'a> VxSort for Vec<&'a str> {
    open spec fn sorted_to(&self, f: &Self) -> bool { forall|t: Seq<Seq<char>>| t =~= views(self@) ==> views(f@) == #[trigger] str_sorted(t.to_multiset()) }
    #[verifier::external_body] fn vx_sort(&mut self) { self.sort() }
}
pub trait VxJoin { spec fn joined(&self, sep: Seq<char>) -> Seq<char>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == self.joined(sep@); }
impl<'a> VxJoin for Vec<&'a str> {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { str_join(views(self@), sep) }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
impl VxJoin for Vec<String> {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { str_join(string_views(self@), sep) }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
/// a pattern to search for: a character or a text
pub trait VxPat { spec fn pt(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pt(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a str { open spec fn pt(&self) -> Seq<char> { (**self)@ } }
impl<'a> VxPat for &'a String { open spec fn pt(&self) -> Seq<char> { (**self)@ } }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| occurs_at(s, p, i) }
/// the parts between the occurrences of a one-character separator
pub open spec fn parts(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else { let r = parts(s.drop_last(), c); if s.last() == c { r.push(seq![]) } else { r.drop_last().push(r.last().push(s.last())) } }
}
pub uninterp spec fn parts_text(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn parts_of(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> { if p.len() == 1 { parts(s, p[0]) } else { parts_text(s, p) } }
pub proof fn parts_nonempty(s: Seq<char>, c: char) ensures parts(s, c).len() >= 1 decreases s.len()
{ if s.len() > 0 { parts_nonempty(s.drop_last(), c); } }
/// a text without the separator is one part, and what follows the last separator is the last part
pub proof fn parts_none(s: Seq<char>, c: char) requires !s.contains(c), ensures parts(s, c) == seq![s] decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < d.len() implies d[i] != c by { assert(d[i] == s[i]); } parts_none(d, c); assert(d.push(s.last()) =~= s); assert(parts(s, c) =~= seq![s]); } else { assert(s =~= seq![]); } }
pub proof fn parts_concat(a: Seq<char>, c: char, b: Seq<char>) requires !b.contains(c), ensures parts(a + seq![c] + b, c) == parts(a, c).push(b) decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() == 0 { assert(s.drop_last() =~= a); assert(s.last() == c); assert(b =~= seq![]); }
    else { let d = b.drop_last(); assert(s.drop_last() =~= a + seq![c] + d); assert(s.last() == b.last()); assert(b[b.len() - 1] != c); assert forall|i: int| 0 <= i < d.len() implies d[i] != c by { assert(d[i] == b[i]); } parts_concat(a, c, d);
        assert(parts(a, c).push(d).drop_last() =~= parts(a, c)); assert(d.push(b.last()) =~= b); }
}
/// one character occurs in a text iff the text contains it
pub broadcast proof fn occurs_char(s: Seq<char>, c: char) ensures #[trigger] occurs(s, seq![c]) == s.contains(c)
{ if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.subrange(i, i + 1) =~= seq![c]); assert(occurs_at(s, seq![c], i)); }
  if occurs(s, seq![c]) { let i = choose|i: int| occurs_at(s, seq![c], i); assert(s.subrange(i, i + 1)[0] == c); assert(s[i] == c); } }
/// what is before and after the first occurrence of p
pub open spec fn is_cut(s: Seq<char>, p: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { s == a + p + b && forall|i: int| 0 <= i < a.len() ==> !occurs_at(s, p, i) }
/// for one character: the text before it does not contain it
pub broadcast proof fn cut_char(s: Seq<char>, c: char, a: Seq<char>, b: Seq<char>) ensures #[trigger] is_cut(s, seq![c], a, b) == (s == a + seq![c] + b && !a.contains(c)), is_cut(s, seq![c], a, b) ==> s.contains(c)
{
    let p = seq![c];
    if s == a + p + b {
        assert(s[a.len() as int] == c);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] occurs_at(s, p, i)) == (a[i] == c) by { assert(s[i] == a[i]); assert(s.subrange(i, i + 1)[0] == s[i]); if a[i] == c { assert(s.subrange(i, i + 1) =~= p); } }
        if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(occurs_at(s, p, i)); }
        else { assert forall|i: int| 0 <= i < a.len() implies !occurs_at(s, p, i) by { assert(a[i] != c); } }
    }
}
pub trait VxSplitOnce { spec fn sv(&self) -> Seq<char>;
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures match r { None => !occurs(self.sv(), p.pt()), Some((a, b)) => is_cut(self.sv(), p.pt(), a@, b@) };
    fn vx_split<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) ensures views(r.v@) == parts_of(self.sv(), p.pt());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pt().is_prefix_of(self.sv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pt().is_suffix_of(self.sv());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == occurs(self.sv(), p.pt());
    fn vx_trim(&self) -> (r: &str);
    fn vx_to_lowercase(&self) -> (r: String);
    fn vx_to_ascii_lowercase(&self) -> (r: String);
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool);
}
impl VxSplitOnce for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}

// ---------- e[a..b] ----------
/// a byte position of a text that is the beginning of its k-th character
pub open spec fn cut_at(s: Seq<char>, a: int, k: int) -> bool { 0 <= k <= s.len() && utf8(s.take(k)).len() == a }
pub trait VxSlice { spec fn sl_ok(&self, a: int) -> bool; spec fn sl(&self, a: int, b: int, r: &Self) -> bool; spec fn sl_len(&self) -> int;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &Self) requires a <= b, self.sl_ok(a as int), self.sl_ok(b as int) ensures self.sl(a as int, b as int, r);
    fn vx_slice_from(&self, a: usize) -> (r: &Self) requires self.sl_ok(a as int) ensures self.sl(a as int, self.sl_len(), r);
    fn vx_slice_to(&self, b: usize) -> (r: &Self) requires self.sl_ok(b as int) ensures self.sl(0, b as int, r);
    fn vx_slice_all(&self) -> (r: &Self) ensures r == self;
}
impl<T> VxSlice for [T] {
    open spec fn sl_ok(&self, a: int) -> bool { a <= self@.len() }
    open spec fn sl(&self, a: int, b: int, r: &Self) -> bool { r@ == self@.subrange(a, b) }
    open spec fn sl_len(&self) -> int { self@.len() as int }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &Self) { &self[a..] }
    #[verifier::external_body] fn vx_slice_to(&self, b: usize) -> (r: &Self) { &self[..b] }
    fn vx_slice_all(&self) -> (r: &Self) { self }
}
impl VxSlice for str {
    open spec fn sl_ok(&self, a: int) -> bool { exists|k: int| cut_at(self@, a, k) }
    open spec fn sl(&self, a: int, b: int, r: &Self) -> bool { forall|i: int, j: int| i <= j && cut_at(self@, a, i) && cut_at(self@, b, j) ==> r@ == self@.subrange(i, j) }
    open spec fn sl_len(&self) -> int { utf8(self@).len() as int }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &Self) { &self[a..] }
    #[verifier::external_body] fn vx_slice_to(&self, b: usize) -> (r: &Self) { &self[..b] }
    fn vx_slice_all(&self) -> (r: &Self) { self }
}
pub open spec fn vx_is_utf8(q: &[u8], s: Seq<char>) -> bool { q@ == utf8(s) }
/// `&[]`
#[verifier::external_body] pub fn nil<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
/// a text that begins with a character of one byte
pub broadcast proof fn cut_one(s: Seq<char>, c: char) requires #[trigger] seq![c].is_prefix_of(s), (c as u32) < 0x80, ensures cut_at(s, 1, 1), cut_at(s, utf8(s).len() as int, s.len() as int), s.subrange(1, s.len() as int) == s.skip(1), s.len() > 0, s[0] == c,
{ assert(s.take(s.len() as int) =~= s); assert(s[0] == c); assert(s.take(1) =~= seq![c]); reveal_with_fuel(encode_utf8, 3); assert(seq![c].drop_first() =~= seq![]); assert(s.subrange(1, s.len() as int) =~= s.skip(1)); }
pub broadcast proof fn first_char(s: Seq<char>, c: char) ensures (#[trigger] seq![c].is_prefix_of(s)) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } if seq![c].is_prefix_of(s) { assert(s.subrange(0, 1)[0] == seq![c][0]); } }
pub trait VxStripPrefix<'a, P, O> { spec fn stripped(&self, p: P, r: Option<O>) -> bool; fn vx_strip_prefix(&'a self, p: P) -> (r: Option<O>) ensures self.stripped(p, r); }
impl<'a, P: VxPat> VxStripPrefix<'a, P, &'a str> for str {
    open spec fn stripped(&self, p: P, r: Option<&'a str>) -> bool { match r { Some(x) => self@ == p.pt() + x@, None => !p.pt().is_prefix_of(self@) } }
    #[verifier::external_body] fn vx_strip_prefix(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() } }
impl<'a, 'b, T> VxStripPrefix<'a, &'b [T], &'a [T]> for [T] {
    open spec fn stripped(&self, p: &'b [T], r: Option<&'a [T]>) -> bool { match r { Some(x) => self@ == p@ + x@, None => !p@.is_prefix_of(self@) } }
    #[verifier::external_body] fn vx_strip_prefix(&'a self, p: &'b [T]) -> (r: Option<&'a [T]>) { unimplemented!() } }
pub trait VxAsSlice<T> { spec fn asq(&self) -> Seq<T>; fn vx_as_slice(&self) -> (r: &[T]) ensures r@ == self.asq(); }
impl<T> VxAsSlice<T> for Vec<T> { open spec fn asq(&self) -> Seq<T> { self@ } fn vx_as_slice(&self) -> (r: &[T]) { self.as_slice() } }
pub trait VxSplitAt<T> { spec fn spq(&self) -> Seq<T>; fn vx_split_at(&self, n: usize) -> (r: (&[T], &[T])) requires n <= self.spq().len() ensures r.0@ == self.spq().take(n as int), r.1@ == self.spq().skip(n as int); }
impl<T> VxSplitAt<T> for [T] { open spec fn spq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_split_at(&self, n: usize) -> (r: (&[T], &[T])) { self.split_at(n) } }

// ---------- Option / Result ----------
pub trait VxAsDeref<'x> { type O; spec fn deref_is(&self, r: Option<Self::O>) -> bool; fn vx_as_deref(&'x self) -> (r: Option<Self::O>) ensures self.deref_is(r); }
impl<'x> VxAsDeref<'x> for Option<Vec<u8>> { type O = &'x [u8];
    open spec fn deref_is(&self, r: Option<&'x [u8]>) -> bool { match (self, r) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false } }
    #[verifier::external_body] fn vx_as_deref(&'x self) -> (r: Option<&'x [u8]>) { self.as_deref() } }
impl<'x> VxAsDeref<'x> for Option<String> { type O = &'x str;
    open spec fn deref_is(&self, r: Option<&'x str>) -> bool { match (self, r) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false } }
    #[verifier::external_body] fn vx_as_deref(&'x self) -> (r: Option<&'x str>) { self.as_deref() } }
pub trait VxTranspose<T, E> { spec fn tr(self) -> core::result::Result<Option<T>, E>; fn vx_transpose(self) -> (r: core::result::Result<Option<T>, E>) ensures r == self.tr(); }
impl<T, E> VxTranspose<T, E> for Option<core::result::Result<T, E>> {
    open spec fn tr(self) -> core::result::Result<Option<T>, E> { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
    fn vx_transpose(self) -> (r: core::result::Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> Cow<'a, str> { pub open spec fn cv(self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub fn vx_into_owned(self) -> (r: String) ensures r@ == self.cv() { match self { Cow::Borrowed(s) => s.to_owned(), Cow::Owned(s) => s } } }

// ---------- into ----------
pub trait VxInto<T> { spec fn into_spec(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_spec(r); }
impl<'a> VxInto<String> for &'a str { open spec fn into_spec(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() } }
impl VxInto<String> for String { open spec fn into_spec(self, r: String) -> bool { r == self } fn vx_into(self) -> (r: String) { self } }
impl<'a> VxInto<String> for &'a String { open spec fn into_spec(self, r: String) -> bool { r == *self } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() } }

pub trait VxToString { spec fn tsv(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.tsv(); }
impl VxToString for str { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for String { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }

pub trait VxToOwned { type O; spec fn owned(&self, r: Self::O) -> bool; fn vx_to_owned(&self) -> (r: Self::O) ensures self.owned(r); }
impl VxToOwned for str { type O = String; open spec fn owned(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VxToOwned for String { type O = String; open spec fn owned(&self, r: String) -> bool { r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VxToOwned for Vec<u8> { type O = Vec<u8>; open spec fn owned(&self, r: Vec<u8>) -> bool { r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxToOwned for [u8] { type O = Vec<u8>; open spec fn owned(&self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }

pub trait VxFmt { spec fn fv(&self) -> Seq<char>; }
impl VxFmt for str { open spec fn fv(&self) -> Seq<char> { self@ } }
impl VxFmt for String { open spec fn fv(&self) -> Seq<char> { self@ } }
impl<'a, T: VxFmt + ?Sized> VxFmt for &'a T { open spec fn fv(&self) -> Seq<char> { (**self).fv() } }
/// format!, piece by piece
pub struct VxFmtd { pub s: String }
#[verifier::external_body] pub fn fmt_text(a: &str) -> (r: VxFmtd) ensures r.s@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn fmt_arg<A: VxFmt + ?Sized>(a: &A) -> (r: VxFmtd) ensures r.s@ == a.fv() { unimplemented!() }
impl VxFmtd {
    #[verifier::external_body] pub fn fmt_text(self, a: &str) -> (r: VxFmtd) ensures r.s@ == self.s@ + a@ { unimplemented!() }
    #[verifier::external_body] pub fn fmt_arg<A: VxFmt + ?Sized>(self, a: &A) -> (r: VxFmtd) ensures r.s@ == self.s@ + a.fv() { unimplemented!() }
}
#[verifier::external_body] pub fn fmt_any(a: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn log() { unimplemented!() }

/// anything passed as `impl AsRef<[u8]>`
pub trait Bytes { spec fn bv(&self) -> Seq<u8>; }
impl Bytes for str { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl Bytes for String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl Bytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<'a, T: Bytes + ?Sized> Bytes for &'a T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }

// ---------- iterators: std's lazy adapters as eager ones over the sequence of items ----------
// (the closures given to them are only ever called on items of the sequence; what is assumed by
// this reading is that they have no side effects, which Fn-closures without interior mutability have)
#[verifier::reject_recursive_types(I)]
pub struct VxIter<I> { pub v: Vec<I> }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub open spec fn pick<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else if keep.last() { pick(s.drop_last(), keep.drop_last()).push(s.last()) } else { pick(s.drop_last(), keep.drop_last()) } }
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } } }
/// the first element of s with p
pub open spec fn first<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Option<T> decreases s.len() { if s.len() == 0 { None } else if p(s[0]) { Some(s[0]) } else { first(s.skip(1), p) } }
pub proof fn first_is<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int) requires 0 <= i < s.len(), p(s[i]), forall|j: int| 0 <= j < i ==> !p(#[trigger] s[j]), ensures first(s, p) == Some(s[i]) decreases s.len()
{ if i > 0 { assert(!p(s[0])); assert(s.skip(1)[i - 1] == s[i]); assert forall|j: int| 0 <= j < i - 1 implies !p(#[trigger] s.skip(1)[j]) by { assert(s.skip(1)[j] == s[j + 1]); } first_is(s.skip(1), p, i - 1); } }
pub proof fn first_none<T>(s: Seq<T>, p: spec_fn(T) -> bool) requires forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]), ensures first(s, p) is None decreases s.len()
{ if s.len() > 0 { assert(!p(s[0])); assert forall|j: int| 0 <= j < s.skip(1).len() implies !p(#[trigger] s.skip(1)[j]) by { assert(s.skip(1)[j] == s[j + 1]); } first_none(s.skip(1), p); } }
pub proof fn first_in<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures match first(s, p) { Some(x) => s.contains(x) && p(x), None => forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]) } decreases s.len()
{ if s.len() > 0 && !p(s[0]) { first_in(s.skip(1), p); match first(s, p) { Some(x) => { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == x; assert(s[i + 1] == x); } None => { assert forall|j: int| 0 <= j < s.len() implies !p(#[trigger] s[j]) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } } } } } else if s.len() > 0 { assert(s.contains(s[0])); } }
/// the first element that is kept, where keep says so of as many as were looked at
pub open spec fn firstk<T>(s: Seq<T>, keep: Seq<bool>) -> Option<T> decreases keep.len() { if keep.len() == 0 { None } else { match firstk(s, keep.drop_last()) { Some(x) => Some(x), None => if keep.last() { Some(s[keep.len() - 1]) } else { None } } } }
pub proof fn firstk_is<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool) requires keep.len() <= s.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(s[i]), ensures firstk(s, keep) == first(s.take(keep.len() as int), p) decreases keep.len()
{ if keep.len() > 0 { let d = keep.drop_last(); let n = keep.len() as int; firstk_is(s, d, p); first_in(s.take(n - 1), p); 
    match firstk(s, d) { Some(x) => { first_prefix(s.take(n - 1), s.take(n), p); } None => { if keep.last() { assert forall|j: int| 0 <= j < n - 1 implies !p(#[trigger] s.take(n)[j]) by { assert(s.take(n)[j] == s.take(n - 1)[j]); } assert(keep[n - 1] == p(s[n - 1])); first_is(s.take(n), p, n - 1); } else { assert forall|j: int| 0 <= j < n implies !p(#[trigger] s.take(n)[j]) by { if j < n - 1 { assert(s.take(n)[j] == s.take(n - 1)[j]); } else { assert(keep[j] == p(s[j])); } } first_none(s.take(n), p); } } } } }
pub proof fn first_prefix<T>(a: Seq<T>, s: Seq<T>, p: spec_fn(T) -> bool) requires a.is_prefix_of(s), first(a, p) is Some, ensures first(s, p) == first(a, p) decreases a.len()
{ if a.len() > 0 { assert(a[0] == s[0]); if !p(a[0]) { assert(a.skip(1).is_prefix_of(s.skip(1))) by { assert(a.skip(1) =~= s.skip(1).take(a.len() - 1)); } first_prefix(a.skip(1), s.skip(1), p); } } }
/// all were looked at, up to the one found
pub open spec fn searched<T>(s: Seq<T>, keep: Seq<bool>) -> bool { keep.len() <= s.len() && (firstk(s, keep) is None ==> keep.len() == s.len()) }
pub proof fn firstk_all<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool) requires searched(s, keep), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(s[i]), ensures firstk(s, keep) == first(s, p)
{ firstk_is(s, keep, p); let n = keep.len() as int; if firstk(s, keep) is Some { first_prefix(s.take(n), s, p); } else { assert(s.take(n) =~= s); } }
pub proof fn firstk_refs<T>(s: Seq<T>, keep: Seq<bool>) requires keep.len() <= s.len(), ensures match firstk(s, keep) { Some(x) => firstk(refs(s), keep) == Some(&x), None => firstk(refs(s), keep) is None } decreases keep.len()
{ if keep.len() > 0 { firstk_refs(s, keep.drop_last()); assert(*refs(s)[keep.len() - 1] == s[keep.len() - 1]); } }
/// the same for the references an iterator gives
pub proof fn first_ref_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|keep: Seq<bool>| searched(refs(s), keep) && (forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(*refs(s)[i])) ==> (match first(s, p) { Some(x) => #[trigger] firstk(refs(s), keep) == Some(&x), None => firstk(refs(s), keep) is None })
{ assert forall|keep: Seq<bool>| searched(refs(s), keep) && (forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == p(*refs(s)[i])) implies (match first(s, p) { Some(x) => #[trigger] firstk(refs(s), keep) == Some(&x), None => firstk(refs(s), keep) is None }) by {
    assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == p(s[i]) by { assert(*refs(s)[i] == s[i]); } firstk_refs(s, keep); firstk_all(s, keep, p); } }
pub open spec fn first_some<T>(m: Seq<Option<T>>) -> Option<T> decreases m.len() { if m.len() == 0 { None } else { match first_some(m.drop_last()) { Some(x) => Some(x), None => m.last() } } }
pub proof fn pick_is<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool) requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(s[i]), ensures pick(s, keep) == s.filter(p) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { pick_is(s.drop_last(), keep.drop_last(), p); } }
pub proof fn pick_refs<T>(s: Seq<T>, keep: Seq<bool>) requires keep.len() == s.len(), ensures pick(refs(s), keep) == refs(pick(s, keep)) decreases s.len()
{ if s.len() > 0 { assert(refs(s).drop_last() =~= refs(s.drop_last())); pick_refs(s.drop_last(), keep.drop_last()); assert(pick(refs(s), keep) =~= refs(pick(s, keep))); } else { assert(pick(refs(s), keep) =~= refs(pick(s, keep))); } }
pub proof fn filter_ref_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|keep: Seq<bool>| keep.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(*refs(s)[i])) ==> #[trigger] pick(refs(s), keep) == refs(s.filter(p))
{ assert forall|keep: Seq<bool>| keep.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(*refs(s)[i])) implies #[trigger] pick(refs(s), keep) == refs(s.filter(p)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] keep[i] == p(s[i]) by { assert(*refs(s)[i] == s[i]); } pick_is(s, keep, p); pick_refs(s, keep); } }
pub trait VxFrom<I>: Sized { spec fn from_seq(s: Seq<I>, r: Self) -> bool; fn vx_from(v: Vec<I>) -> (r: Self) ensures Self::from_seq(v@, r); }
impl<I> VxFrom<I> for Vec<I> { open spec fn from_seq(s: Seq<I>, r: Vec<I>) -> bool { r@ == s } fn vx_from(v: Vec<I>) -> (r: Self) { v } }
impl<I, E> VxFrom<core::result::Result<I, E>> for core::result::Result<Vec<I>, E> {
    open spec fn from_seq(s: Seq<core::result::Result<I, E>>, r: Self) -> bool { match r {
        Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<I, E>(v@[i]),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<I, E>(e) && forall|j: int| 0 <= j < i ==> s[j] is Ok } }
    #[verifier::loop_isolation(false)] fn vx_from(v: Vec<core::result::Result<I, E>>) -> (r: Self) {
        let ghost s = v@; let mut v = v; let mut o: Vec<I> = Vec::new();
        while v.len() > 0 invariant o@.len() + v@.len() == s.len(), v@ == s.subrange(o@.len() as int, s.len() as int), forall|i: int| 0 <= i < o@.len() ==> #[trigger] s[i] == Ok::<I, E>(o@[i]), decreases v@.len()
        { let x = v.remove(0); assert(x == s[o@.len() as int]); match x { Ok(y) => o.push(y), Err(e) => { return Err(e) } } }
        Ok(o)
    } }
impl<I> VxIter<I> {
    pub fn collect<B: VxFrom<I>>(self) -> (r: B) ensures B::from_seq(self.v@, r) { B::vx_from(self.v) }
    pub fn count(self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    #[verifier::loop_isolation(false)] pub fn next(&mut self) -> (r: Option<I>) ensures match r { Some(x) => old(self).v@.len() > 0 && x == old(self).v@[0] && final(self).v@ == old(self).v@.skip(1), None => old(self).v@.len() == 0 && final(self).v@ == old(self).v@ }
    { if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.v@ =~= old(self).v@.skip(1)); } Some(x) } }
    pub fn vx_last(self) -> (r: Option<I>) ensures match r { Some(x) => self.v@.len() > 0 && x == self.v@.last(), None => self.v@.len() == 0 } { let mut v = self.v; v.pop() }
    #[verifier::loop_isolation(false)] pub fn nth(&mut self, n: usize) -> (r: Option<I>) ensures match r { Some(x) => n < old(self).v@.len() && x == old(self).v@[n as int] && final(self).v@ == old(self).v@.skip(n + 1), None => n >= old(self).v@.len() && final(self).v@ == Seq::<I>::empty() }
    { let mut k = 0; while k < n invariant k <= n, k <= old(self).v@.len(), self.v@ == old(self).v@.skip(k as int), decreases n - k { if self.v.len() == 0 { return None } let _ = self.v.remove(0); k = k + 1; proof { assert(self.v@ =~= old(self).v@.skip(k as int)); } } self.next() }
    #[verifier::loop_isolation(false)] pub fn map<B, F: Fn(I) -> B>(self, f: F) -> (r: VxIter<B>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] self.v@[i],)),
        ensures r.v@.len() == self.v@.len(), forall|i: int| #![trigger self.v@[i]] #![trigger r.v@[i]] 0 <= i < self.v@.len() ==> call_ensures(f, (self.v@[i],), r.v@[i]),
    {
        let ghost s = self.v@; let mut v = self.v; let mut o: Vec<B> = Vec::new();
        while v.len() > 0 invariant o@.len() + v@.len() == s.len(), v@ == s.subrange(o@.len() as int, s.len() as int), forall|i: int| 0 <= i < o@.len() ==> call_ensures(f, (s[i],), #[trigger] o@[i]), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), decreases v@.len()
        { let x = v.remove(0); assert(x == s[o@.len() as int]); o.push(f(x)); }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn filter_map<B, F: Fn(I) -> Option<B>>(self, f: F) -> (r: VxIter<B>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] self.v@[i],)),
        ensures exists|m: Seq<Option<B>>| m.len() == self.v@.len() && (forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (self.v@[i],), #[trigger] m[i])) && r.v@ == #[trigger] somes(m),
    {
        let ghost s = self.v@; let mut v = self.v; let ghost mut m: Seq<Option<B>> = seq![]; let mut o: Vec<B> = Vec::new();
        while v.len() > 0 invariant m.len() + v@.len() == s.len(), v@ == s.subrange(m.len() as int, s.len() as int), forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (s[i],), #[trigger] m[i]), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), o@ == somes(m), decreases v@.len()
        { let x = v.remove(0); assert(x == s[m.len() as int]); let b = f(x); let ghost old = m; proof { m = m.push(b); assert(m.drop_last() =~= old); } if let Some(y) = b { o.push(y); } }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn find_map<B, F: Fn(I) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] self.v@[i],)),
        ensures exists|m: Seq<Option<B>>| m.len() <= self.v@.len() && (r is None ==> m.len() == self.v@.len()) && (forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (self.v@[i],), #[trigger] m[i])) && r == #[trigger] first_some(m),
    {
        let ghost s = self.v@; let mut v = self.v; let ghost mut m: Seq<Option<B>> = seq![];
        while v.len() > 0 invariant m.len() + v@.len() == s.len(), v@ == s.subrange(m.len() as int, s.len() as int), first_some(m) is None, forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (s[i],), #[trigger] m[i]), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), decreases v@.len()
        { let x = v.remove(0); let ghost k = m.len() as int; assert(x == s[k]); let b = f(x); let ghost old = m; proof { m = m.push(b); assert(m.drop_last() =~= old); } if b.is_some() { return b } }
        None
    }
    #[verifier::loop_isolation(false)] pub fn find<F: Fn(&I) -> bool>(self, f: F) -> (r: Option<I>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (&#[trigger] self.v@[i],)),
        ensures exists|keep: Seq<bool>| searched(self.v@, keep) && (forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&self.v@[i],), #[trigger] keep[i])) && r == #[trigger] firstk(self.v@, keep),
            match r { Some(x) => call_ensures(f, (&x,), true) && exists|i: int| 0 <= i < self.v@.len() && #[trigger] self.v@[i] == x, None => forall|j: int| 0 <= j < self.v@.len() ==> call_ensures(f, (&#[trigger] self.v@[j],), false) },
    {
        let ghost s = self.v@; let mut v = self.v; let ghost mut keep: Seq<bool> = seq![];
        while v.len() > 0 invariant keep.len() + v@.len() == s.len(), forall|j: int| 0 <= j < keep.len() ==> call_ensures(f, (&#[trigger] s[j],), false), v@ == s.subrange(keep.len() as int, s.len() as int), firstk(s, keep) is None, forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&s[i],), #[trigger] keep[i]), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)), decreases v@.len()
        { let x = v.remove(0); let ghost k = keep.len() as int; assert(x == s[k]); let b = f(&x); let ghost old = keep; proof { keep = keep.push(b); assert(keep.drop_last() =~= old); } if b { return Some(x) } }
        None
    }
    #[verifier::loop_isolation(false)] pub fn position<F: Fn(I) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] self.v@[i],)),
        ensures match r { Some(x) => x < self.v@.len() && call_ensures(f, (self.v@[x as int],), true) && forall|j: int| 0 <= j < x ==> call_ensures(f, (#[trigger] self.v@[j],), false),
            None => forall|j: int| 0 <= j < self.v@.len() ==> call_ensures(f, (#[trigger] self.v@[j],), false) },
    {
        let ghost s = self.v@; let n = self.v.len(); let mut v = self.v; let mut k: usize = 0;
        while v.len() > 0 invariant 0 <= k, k + v@.len() == s.len(), s.len() == n, v@ == s.subrange(k as int, s.len() as int), forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), false), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), decreases v@.len()
        { let x = v.remove(0); assert(x == s[k as int]); if f(x) { return Some(k) } k = k + 1; }
        None
    }
    #[verifier::loop_isolation(false)] pub fn any<F: Fn(I) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).v@.len() ==> call_requires(f, (#[trigger] old(self).v@[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).v@.len() && call_ensures(f, (#[trigger] old(self).v@[i],), true), !r ==> forall|j: int| 0 <= j < old(self).v@.len() ==> call_ensures(f, (#[trigger] old(self).v@[j],), false),
    {
        let ghost s = self.v@; let ghost mut k = 0int;
        while self.v.len() > 0 invariant 0 <= k, k + self.v@.len() == s.len(), self.v@ == s.subrange(k, s.len() as int), forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), false), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), decreases self.v@.len()
        { let x = self.v.remove(0); assert(x == s[k]); if f(x) { return true } proof { k = k + 1; } }
        false
    }
    #[verifier::loop_isolation(false)] pub fn all<F: Fn(I) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).v@.len() ==> call_requires(f, (#[trigger] old(self).v@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self).v@.len() && call_ensures(f, (#[trigger] old(self).v@[i],), false), r ==> forall|j: int| 0 <= j < old(self).v@.len() ==> call_ensures(f, (#[trigger] old(self).v@[j],), true),
    {
        let ghost s = self.v@; let ghost mut k = 0int;
        while self.v.len() > 0 invariant 0 <= k, k + self.v@.len() == s.len(), self.v@ == s.subrange(k, s.len() as int), forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), true), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), decreases self.v@.len()
        { let x = self.v.remove(0); assert(x == s[k]); if !f(x) { return false } proof { k = k + 1; } }
        true
    }
    #[verifier::loop_isolation(false)] pub fn filter<F: Fn(&I) -> bool>(self, f: F) -> (r: VxIter<I>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (&#[trigger] self.v@[i],)),
        ensures exists|keep: Seq<bool>| keep.len() == self.v@.len() && (forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&self.v@[i],), #[trigger] keep[i])) && r.v@ == #[trigger] pick(self.v@, keep),
    {
        let ghost s = self.v@; let mut v = self.v; let ghost mut keep: Seq<bool> = seq![]; let mut o: Vec<I> = Vec::new();
        while v.len() > 0 invariant keep.len() + v@.len() == s.len(), v@ == s.subrange(keep.len() as int, s.len() as int), forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&s[i],), #[trigger] keep[i]), forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
            o@ == pick(s.subrange(0, keep.len() as int), keep), decreases v@.len()
        { let ghost k = keep.len() as int; let x = v.remove(0); assert(x == s[k]); let b = f(&x); let ghost old = keep; proof { keep = keep.push(b); assert(keep.drop_last() =~= old); assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); } if b { o.push(x); } }
        proof { assert(s.subrange(0, s.len() as int) =~= s); }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn zip<J>(self, other: VxIter<J>) -> (r: VxIter<(I, J)>)
        ensures r.v@.len() == (if self.v@.len() < other.v@.len() { self.v@.len() } else { other.v@.len() }), forall|i: int| 0 <= i < r.v@.len() ==> #[trigger] r.v@[i] == (self.v@[i], other.v@[i]),
    {
        let ghost s = self.v@; let ghost t = other.v@; let mut a = self.v; let mut b = other.v; let mut o: Vec<(I, J)> = Vec::new();
        while a.len() > 0 && b.len() > 0 invariant o@.len() + a@.len() == s.len(), o@.len() + b@.len() == t.len(), a@ == s.subrange(o@.len() as int, s.len() as int), b@ == t.subrange(o@.len() as int, t.len() as int), forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == (s[i], t[i]), decreases a@.len()
        { let x = a.remove(0); let y = b.remove(0); o.push((x, y)); }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn enumerate(self) -> (r: VxIter<(usize, I)>)
        ensures r.v@.len() == self.v@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.v@[i]] 0 <= i < r.v@.len() ==> r.v@[i] == (i as usize, self.v@[i]), self.v@.len() <= usize::MAX,
    {
        let ghost s = self.v@; let mut a = self.v; let mut o: Vec<(usize, I)> = Vec::new(); let mut k: usize = 0; let n = a.len();
        while a.len() > 0 invariant k == o@.len(), o@.len() + a@.len() == s.len(), s.len() == n, a@ == s.subrange(o@.len() as int, s.len() as int), forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == (i as usize, s[i]), decreases a@.len()
        { let x = a.remove(0); o.push((k, x)); k = k + 1; }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn rev(self) -> (r: VxIter<I>) ensures r.v@ == self.v@.reverse()
    {
        let ghost s = self.v@; let mut a = self.v; let mut o: Vec<I> = Vec::new();
        while a.len() > 0 invariant o@.len() + a@.len() == s.len(), a@ == s.subrange(0, s.len() - o@.len()), o@ == s.subrange(s.len() - o@.len(), s.len() as int).reverse(), decreases a@.len()
        { let ghost k = o@.len(); let x = a.pop().unwrap(); o.push(x); proof { assert(o@ =~= s.subrange(s.len() - o@.len(), s.len() as int).reverse()); } }
        proof { assert(s.subrange(0, s.len() as int) =~= s); }
        VxIter { v: o }
    }
    #[verifier::loop_isolation(false)] pub fn skip(self, n: usize) -> (r: VxIter<I>) ensures r.v@ == self.v@.skip(if n <= self.v@.len() { n as int } else { self.v@.len() as int })
    { let ghost s = self.v@; let mut a = self.v; let mut k = 0; while k < n && a.len() > 0 invariant k <= n, k + a@.len() == s.len(), a@ == s.skip(k as int), decreases a@.len() { let _ = a.remove(0); k = k + 1; proof { assert(a@ =~= s.skip(k as int)); } } VxIter { v: a } }
    #[verifier::loop_isolation(false)] pub fn take(self, n: usize) -> (r: VxIter<I>) ensures r.v@ == self.v@.take(if n <= self.v@.len() { n as int } else { self.v@.len() as int })
    { let mut a = self.v; a.truncate(n); proof { assert(a@ =~= self.v@.take(if n <= self.v@.len() { n as int } else { self.v@.len() as int })); } VxIter { v: a } }
    pub fn chain(self, other: VxIter<I>) -> (r: VxIter<I>) ensures r.v@ == self.v@ + other.v@ { let mut a = self.v; let mut b = other.v; a.append(&mut b); VxIter { v: a } }
}
impl<'a, T> VxIter<&'a T> {
    #[verifier::external_body] pub fn cloned(self) -> (r: VxIter<T>) ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < r.v@.len() ==> #[trigger] r.v@[i] == *self.v@[i] { unimplemented!() }
    #[verifier::external_body] pub fn copied(self) -> (r: VxIter<T>) ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < r.v@.len() ==> #[trigger] r.v@[i] == *self.v@[i] { unimplemented!() }
}
pub trait VxIterate<'a, T> where T: 'a { spec fn items(&self) -> Seq<T>; fn vx_iter(&'a self) -> (r: VxIter<&'a T>) ensures r.v@ == refs(self.items()), forall|i: int| 0 <= i < r.v@.len() ==> *r.v@[i] == #[trigger] self.items()[i]; }
impl<'a, T> VxIterate<'a, T> for [T] where T: 'a { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&'a self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect() } } }
pub trait VxIntoIterate<T> { spec fn into_items(self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIter<T>) ensures r.v@ == self.into_items(); }
impl<T> VxIntoIterate<T> for Vec<T> { open spec fn into_items(self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: VxIter<T>) { VxIter { v: self } } }
impl<'a, T> VxIntoIterate<&'a T> for &'a Vec<T> { open spec fn into_items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect() } } }
impl<'a, T> VxIntoIterate<&'a T> for &'a [T] { open spec fn into_items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect() } } }

/// what `for` runs over: the items, in the order they come
pub trait VxForItems<I>: Sized { spec fn fis(self, s: Seq<I>) -> bool; fn for_items(x: Self) -> (r: Vec<I>) ensures x.fis(r@); }
impl<I> VxForItems<I> for VxIter<I> { open spec fn fis(self, s: Seq<I>) -> bool { s == self.v@ } fn for_items(x: Self) -> (r: Vec<I>) { x.v } }
impl<I> VxForItems<I> for Vec<I> { open spec fn fis(self, s: Seq<I>) -> bool { s == self@ } fn for_items(x: Self) -> (r: Vec<I>) { x } }
impl<'a, I> VxForItems<&'a I> for &'a Vec<I> { open spec fn fis(self, s: Seq<&'a I>) -> bool { s == refs(self@) } #[verifier::external_body] fn for_items(x: Self) -> (r: Vec<&'a I>) { x.iter().collect() } }
impl<'a, I> VxForItems<&'a I> for &'a [I] { open spec fn fis(self, s: Seq<&'a I>) -> bool { s == refs(self@) } #[verifier::external_body] fn for_items(x: Self) -> (r: Vec<&'a I>) { x.iter().collect() } }
/// a map's entries, in any order: putting them into an empty map gives the map
pub open spec fn map_of<V>(s: Seq<(&String, &V)>) -> Map<Seq<char>, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0@, *s.last().1) } }
impl<'a, V> VxForItems<(&'a String, &'a V)> for &'a HashMap<String, V> { open spec fn fis(self, s: Seq<(&'a String, &'a V)>) -> bool { map_of(s) == hm(*self) } #[verifier::external_body] fn for_items(x: Self) -> (r: Vec<(&'a String, &'a V)>) { unimplemented!() } }
pub proof fn map_of_next<V>(s: Seq<(&String, &V)>, k: int) requires 0 <= k < s.len(), ensures map_of(s.take(k + 1)) == map_of(s.take(k)).insert(s[k].0@, *s[k].1)
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }

pub trait VxContains<T: ?Sized> { spec fn cont(&self, x: &T) -> bool; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.cont(x); }
impl VxContains<String> for [String] { open spec fn cont(&self, x: &String) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn vx_contains(&self, x: &String) -> (r: bool) { unimplemented!() } }
impl<'a> VxContains<&'a str> for [&'a str] { open spec fn cont(&self, x: &&'a str) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn vx_contains(&self, x: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VxContains<&'a String> for [&'a String] { open spec fn cont(&self, x: &&'a String) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn vx_contains(&self, x: &&'a String) -> (r: bool) { unimplemented!() } }

/// a vector, reversed in place
pub trait VxReverse { spec fn revd(&self, f: &Self) -> bool; fn vx_reverse(&mut self) ensures old(self).revd(final(self)); }
impl<T> VxReverse for Vec<T> { open spec fn revd(&self, f: &Self) -> bool { f@ == self@.reverse() } #[verifier::external_body] fn vx_reverse(&mut self) { self.reverse() } }
pub trait VxLast<T> { spec fn sq(&self) -> Seq<T>; fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sq().len() > 0 && *x == self.sq().last(), None => self.sq().len() == 0 }; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sq().len() > 0 && *x == self.sq()[0], None => self.sq().len() == 0 }; }
impl<T> VxLast<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { self.last() } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { self.first() } }

/// clones of the repository's types are derived (a type without derive(Clone) is not Clone here), and std's give equal values
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

// ---------- reading values in closure contracts ----------
pub trait VxVal: Sized { spec fn vx_val(&self) -> Self; }
impl<T> VxVal for T { open spec fn vx_val(&self) -> T { *self } }
pub trait VxStrVal { spec fn sp_to_owned(&self) -> String; spec fn sp_to_string(&self) -> String; spec fn sp_as_str(&self) -> &str; }
impl VxStrVal for str { open spec fn sp_to_owned(&self) -> String { str_of(self@) } open spec fn sp_to_string(&self) -> String { str_of(self@) } open spec fn sp_as_str(&self) -> &str { slice_of(self@) } }
impl VxStrVal for String { open spec fn sp_to_owned(&self) -> String { *self } open spec fn sp_to_string(&self) -> String { *self } open spec fn sp_as_str(&self) -> &str { slice_of(self@) } }

@module crate::base64
@raw
pub struct Config { pub id: u8 }
pub const URL_SAFE_NO_PAD: Config = Config { id: 1 };
pub const URL_SAFE: Config = Config { id: 2 };
pub const STANDARD: Config = Config { id: 3 };
pub const STANDARD_NO_PAD: Config = Config { id: 4 };
pub struct DecodeError { pub e: u8 }
/// base64 decoding under a configuration; None where the text is not valid base64 for it
pub uninterp spec fn dec(c: Config, s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn enc(c: Config, s: Seq<u8>) -> Seq<char>;
pub axiom fn enc_no_dot(c: Config, s: Seq<u8>) ensures !enc(c, s).contains('.');
pub axiom fn enc_plain(c: Config, s: Seq<u8>) ensures plain(enc(c, s));
pub axiom fn dec_enc(c: Config, s: Seq<u8>) ensures dec(c, utf8(enc(c, s))) == Some(s);
#[verifier::external_body]
pub fn decode_config<T: Bytes>(input: T, c: Config) -> (r: core::result::Result<Vec<u8>, DecodeError>)
    ensures match r { Ok(v) => dec(c, input.bv()) == Some(v@) && v@.len() <= isize::MAX, Err(_) => dec(c, input.bv()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn decode_config_buf<T: Bytes>(input: T, c: Config, buf: &mut Vec<u8>) -> (r: core::result::Result<(), DecodeError>)
    ensures match r { Ok(_) => dec(c, input.bv()) is Some && final(buf)@ == old(buf)@ + dec(c, input.bv())->0, Err(_) => dec(c, input.bv()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn encode_config<T: Bytes>(input: T, c: Config) -> (r: String) ensures r@ == enc(c, input.bv()) { unimplemented!() }

@module crate::sha2
@raw
pub struct Sha256 {}
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
#[derive(Clone, Copy)] pub struct Hash256 { pub b: [u8; 32] }
impl Hash256 { #[verifier::external_body] pub fn vx_as_slice(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() } }
impl Bytes for Hash256 { open spec fn bv(&self) -> Seq<u8> { self.b@ } }
impl Sha256 { #[verifier::external_body] pub fn digest<T: Bytes>(x: T) -> (r: Hash256) ensures r.b@ == sha256(x.bv()), r.b@.len() == 32 { unimplemented!() } }

@module crate::vx
@alias iter_mut resize
@raw
// ---------- a vector's elements, to be changed in place ----------
pub trait VxIterMut<'a, T> where T: 'a { spec fn to_change(&self) -> Seq<T>;
    fn vx_iter_mut(&'a mut self) -> (r: VxIter<&'a mut T>) ensures r.v@.len() == old(self).to_change().len(), final(self).to_change().len() == r.v@.len(),
        forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == old(self).to_change()[i], forall|i: int| 0 <= i < r.v@.len() ==> *final(#[trigger] r.v@[i]) == final(self).to_change()[i]; }
impl<'a, T> VxIterMut<'a, T> for Vec<T> where T: 'a { open spec fn to_change(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter_mut(&'a mut self) -> (r: VxIter<&'a mut T>) { unimplemented!() } }
pub trait VxResize<T> { spec fn resized(&self, n: usize, x: T, f: &Self) -> bool; fn vx_resize(&mut self, n: usize, x: T) ensures old(self).resized(n, x, final(self)); }
impl<T: Clone> VxResize<T> for Vec<T> { open spec fn resized(&self, n: usize, x: T, f: &Self) -> bool { f@ == Seq::new(n as nat, |i: int| if i < self@.len() { self@[i] } else { x }) } #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T) { self.resize(n, x) } }
