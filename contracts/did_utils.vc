C21: DIDs and DID URLs.

@module crate::utils::did src/utils/did.rs
@raw
/// at least three ':'-separated parts, of which the first is "did"
pub open spec fn is_did_spec(s: Seq<char>) -> bool { parts(s, ':').len() >= 3 && parts(s, ':')[0] == "did"@ }
/// the text before the first '#', if there is one
pub open spec fn did_of(s: Seq<char>, d: Seq<char>) -> bool { if s.contains('#') { !d.contains('#') && exists|f: Seq<char>| s == #[trigger] (d + seq!['#'] + f) } else { d == s } }
/// the part of a DID URL before the first '#'
pub open spec fn did_part(s: Seq<char>) -> Seq<char> { choose|d: Seq<char>| did_of(s, d) }
pub open spec fn lists(v: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s }
/// there is exactly one part before the first '#'
pub proof fn did_part_is(s: Seq<char>) ensures forall|d: Seq<char>| #[trigger] did_of(s, d) ==> d == did_part(s)
{
    assert forall|d: Seq<char>| #[trigger] did_of(s, d) implies d == did_part(s) by {
        let e = did_part(s); assert(did_of(s, e));
        if s.contains('#') {
            let f = choose|f: Seq<char>| s == #[trigger] (d + seq!['#'] + f); let g = choose|f: Seq<char>| s == #[trigger] (e + seq!['#'] + f);
            assert(s[d.len() as int] == '#'); assert(s[e.len() as int] == '#');
            if d.len() < e.len() { assert(e[d.len() as int] == '#'); assert(e.contains('#')); }
            if e.len() < d.len() { assert(d[e.len() as int] == '#'); assert(d.contains('#')); }
            assert(d =~= s.take(d.len() as int)); assert(e =~= s.take(e.len() as int));
        }
    }
}
pub broadcast proof fn did_unique(s: Seq<char>, d: Seq<char>) requires #[trigger] did_of(s, d) ensures d == did_part(s)
{ did_part_is(s); }
@fn is_did -> r
ensures r == is_did_spec(did@),
@fn did_or_url -> r
ensures did_of(did_or_url_@, r.0@), match r.1 { Some(k) => k@ == did_or_url_@ && did_or_url_@.contains('#'), None => !did_or_url_@.contains('#') },
@start
broadcast use {occurs_char, cut_char}; proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); }
