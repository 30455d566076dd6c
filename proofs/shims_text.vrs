use vstd::utf8::*;
use vstd::string::*;
// std text primitives without a vstd specification (assumed; checked against std by `search shims`)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(core::str::CharIndices<'a>);
pub uninterp spec fn ci_text(it: core::str::CharIndices) -> Seq<char>;
pub uninterp spec fn ci_pos(it: core::str::CharIndices) -> int;
pub assume_specification<'a>[ str::char_indices ](s: &'a str) -> (r: core::str::CharIndices<'a>)
    ensures ci_text(r) == s@, ci_pos(r) == 0;
pub assume_specification<'a>[ <core::str::CharIndices<'a> as Iterator>::next ](it: &mut core::str::CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures ci_text(*final(it)) == ci_text(*old(it)),
        0 <= ci_pos(*old(it)) < ci_text(*old(it)).len() ==> r == Some((boff(ci_text(*old(it)), ci_pos(*old(it))) as usize, ci_text(*old(it))[ci_pos(*old(it))])) && ci_pos(*final(it)) == ci_pos(*old(it)) + 1,
        ci_pos(*old(it)) >= ci_text(*old(it)).len() ==> r is None && ci_pos(*final(it)) == ci_pos(*old(it));
pub assume_specification<I> [<str as std::ops::Index<I>>::index] (s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
    where I: std::slice::SliceIndex<str>,
    ensures call_ensures(<I as std::slice::SliceIndex<str>>::index, (i, s), r);
/// no Rust object is larger than isize::MAX bytes (language guarantee)
#[verifier::external_body]
pub broadcast proof fn axiom_str_bound(s: &str) ensures (#[trigger] s@).len() <= isize::MAX, encode_utf8(s@).len() <= isize::MAX {}

/// byte offset of the k-th character
pub open spec fn boff(s: Seq<char>, k: int) -> nat { encode_utf8(s.take(k)).len() }

proof fn lemma_boundary(a: Seq<char>, b: Seq<char>)
    ensures is_char_boundary(encode_utf8(a + b), encode_utf8(a).len() as int)
    decreases a.len()
{
    encode_utf8_concat(a, b);
    encode_utf8_valid_utf8(a); encode_utf8_valid_utf8(b); encode_utf8_valid_utf8(a + b);
    is_char_boundary_start_end_of_seq(encode_utf8(a)); is_char_boundary_start_end_of_seq(encode_utf8(b)); is_char_boundary_start_end_of_seq(encode_utf8(a + b));
    if a.len() == 0 { assert(a + b =~= b); assert(encode_utf8(a).len() == 0); }
    else {
        let a2 = a.drop_first();
        lemma_boundary(a2, b);
        assert((a + b).drop_first() =~= a2 + b);
        encode_utf8_first_scalar(a); encode_utf8_first_scalar(a + b);
        assert(encode_utf8(a) =~= encode_scalar(a[0] as u32) + encode_utf8(a2));
        assert(encode_utf8(a + b) =~= encode_scalar(a[0] as u32) + encode_utf8(a2 + b));
        assert(pop_first_scalar(encode_utf8(a + b)) =~= encode_utf8(a2 + b));
        assert(length_of_first_scalar(encode_utf8(a + b)) == encode_scalar(a[0] as u32).len());
        assert(is_char_boundary(encode_utf8(a2 + b), encode_utf8(a2).len() as int));
        assert(encode_utf8(a).len() - length_of_first_scalar(encode_utf8(a + b)) == encode_utf8(a2).len());
    }
}
/// cutting the bytes at a character offset cuts the text there
proof fn lemma_cut(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures boff(s, k) <= encode_utf8(s).len(), is_char_boundary(encode_utf8(s), boff(s, k) as int), boff(s, s.len() as int) == encode_utf8(s).len(),
        encode_utf8(s).subrange(0, boff(s, k) as int) == encode_utf8(s.take(k)), encode_utf8(s).subrange(boff(s, k) as int, encode_utf8(s).len() as int) == encode_utf8(s.skip(k)),
{
    assert(s =~= s.take(k) + s.skip(k));
    encode_utf8_concat(s.take(k), s.skip(k));
    lemma_boundary(s.take(k), s.skip(k));
    assert(s.take(s.len() as int) =~= s);
    assert(encode_utf8(s).subrange(0, boff(s, k) as int) =~= encode_utf8(s.take(k)));
    assert(encode_utf8(s).subrange(boff(s, k) as int, encode_utf8(s).len() as int) =~= encode_utf8(s.skip(k)));
}
proof fn lemma_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
broadcast proof fn lemma_inj_b(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] encode_utf8(a) == #[trigger] encode_utf8(b) ==> a == b
{ if encode_utf8(a) == encode_utf8(b) { lemma_inj(a, b); } }
proof fn lemma_empty(s: Seq<char>)
    ensures (encode_utf8(s).len() == 0) == (s.len() == 0)
{
    if s.len() > 0 { encode_utf8_first_scalar(s); assert(encode_utf8(s) =~= encode_scalar(s[0] as u32) + encode_utf8(s.drop_first())); }
    assert(encode_utf8(Seq::<char>::empty()).len() == 0);
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
}

/// a count of regional indicators, or whether it is odd
pub trait RiCount { spec fn ri(self, n: int) -> bool; }
impl RiCount for i32 { open spec fn ri(self, n: int) -> bool { self == n } }
impl RiCount for u32 { open spec fn ri(self, n: int) -> bool { self == n } }
impl RiCount for usize { open spec fn ri(self, n: int) -> bool { self == n } }
impl RiCount for u8 { open spec fn ri(self, n: int) -> bool { self == n } }
impl RiCount for bool { open spec fn ri(self, n: int) -> bool { self == (n % 2 == 1) } }
pub open spec fn ri_is<T: RiCount>(c: T, n: int) -> bool { c.ri(n) }
