// The normalization forms and their algebra (C13, C14, C15).
/// t is NFD (k = false) / NFKD (k = true) of s
pub open spec fn nf_d(k: bool, s: Seq<char>, t: Seq<char>) -> bool { canon_of(full(k, s), t) }
/// t is NFC (k = false) / NFKC (k = true) of s
pub open spec fn nf_c(k: bool, s: Seq<char>, t: Seq<char>) -> bool { exists|d: Seq<char>| #[trigger] nf_d(k, s, d) && t == compose(d) }

pub proof fn lemma_proj_last(s: Seq<char>, k: int)
    requires s.len() > 0, ccc(s.last()) == 0 || ccc(s.last()) == k
    ensures proj(s, k).len() > 0, proj(s, k).last() == s.last(), proj(s, k).drop_last() == proj(s.drop_last(), k)
{ assert(proj(s, k).drop_last() =~= proj(s.drop_last(), k)); }
/// the two sequences have the same characters
pub proof fn lemma_proj_contains(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures proj(s, ccc(s[i])).contains(s[i])
    decreases s.len()
{
    let k = ccc(s[i]);
    let d = s.drop_last();
    if i == s.len() - 1 { lemma_proj_last(s, k); assert(proj(s, k)[proj(s, k).len() - 1] == s[i]); }
    else {
        assert(d[i] == s[i]);
        lemma_proj_contains(d, i);
        let j = choose|j: int| 0 <= j < proj(d, k).len() && proj(d, k)[j] == s[i];
        assert(proj(s, k)[j] == s[i]);
    }
}
pub proof fn lemma_proj_sub(s: Seq<char>, k: int, j: int) -> (i: int)
    requires 0 <= j < proj(s, k).len()
    ensures 0 <= i < s.len(), s[i] == proj(s, k)[j]
    decreases s.len()
{
    let d = s.drop_last();
    if j < proj(d, k).len() { let i = lemma_proj_sub(d, k, j); assert(d[i] == s[i]); i } else { s.len() - 1 }
}
