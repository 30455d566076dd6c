// C08: no two code points share a name
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }
pub open spec fn cons(c: char) -> bool { !(c == 'A' || c == 'E' || c == 'I' || c == 'O' || c == 'U' || c == 'W' || c == 'Y') }
pub open spec fn jn(s: Seq<char>) -> int { if s.len() == 0 { 0 } else if s.len() == 1 { s[0] as int } else if s.len() == 2 { s[0] as int * 256 + s[1] as int } else { (s[0] as int * 256 + s[1] as int) * 256 + s[2] as int } }
pub open spec fn all_cons(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> cons(#[trigger] s[i]) }
pub open spec fn all_vow(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !cons(#[trigger] s[i]) }
/// consonants, vowels, consonants: the string says where each part ends
proof fn lemma_cut(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>)
    requires all_cons(a), all_vow(b), all_cons(c), all_cons(d), all_vow(e), all_cons(f), a + b + c == d + e + f
    ensures a == d, b == e, c == f
{
    let s = a + b + c; let t = d + e + f;
    let (n, m) = (a.len() as int, d.len() as int);
    assert(s[n] == b[0] && t[m] == e[0]);
    if n < m { assert(t[n] == d[n]); assert(false); }
    if m < n { assert(s[m] == a[m]); assert(false); }
    let (p, q) = (b.len() as int, e.len() as int);
    if p < q { assert(t[n + p] == e[p]); assert(t.len() > n + p); assert(s[n + p] == c[0]); assert(false); }
    if q < p { assert(s[n + q] == b[q]); assert(s.len() > n + q); assert(t[n + q] == f[0]); assert(false); }
    assert(a =~= s.take(n)); assert(d =~= t.take(n));
    assert(b =~= s.subrange(n, n + p)); assert(e =~= t.subrange(n, n + p));
    assert(c =~= s.skip(n + p)); assert(f =~= t.skip(n + p));
}
proof fn lemma_nj(c: u32)
    ensures is_l(c) ==> all_cons(o_jsn(c)) && inv_l(jn(o_jsn(c))) == c,
        is_v(c) ==> all_vow(o_jsn(c)) && inv_v(jn(o_jsn(c))) == c,
        is_t(c) ==> all_cons(o_jsn(c)) && inv_t(jn(o_jsn(c))) == c && o_jsn(c).len() > 0,
{ if is_l(c) || is_v(c) || is_t(c) { nj_all(c); } }
proof fn lemma_syl_names(a: u32, b: u32)
    requires syl(a), syl(b), syl_name(a) == syl_name(b)
    ensures a == b
{
    let p = "HANGUL SYLLABLE "@;
    thm_h_inverse(a); thm_h_inverse(b);
    lemma_nj(h_l(a)); lemma_nj(h_v(a)); lemma_nj(h_l(b)); lemma_nj(h_v(b));
    if lvt(a) { lemma_nj(h_t(a)); }
    if lvt(b) { lemma_nj(h_t(b)); }
    let ta = if (a - 0xAC00) % 28 == 0 { Seq::<char>::empty() } else { o_jsn(h_t(a)) };
    let tb = if (b - 0xAC00) % 28 == 0 { Seq::<char>::empty() } else { o_jsn(h_t(b)) };
    let (u, v) = (o_jsn(h_l(a)) + o_jsn(h_v(a)) + ta, o_jsn(h_l(b)) + o_jsn(h_v(b)) + tb);
    assert(syl_name(a) =~= p + u); assert(syl_name(b) =~= p + v);
    assert(u =~= (p + u).skip(p.len() as int)); assert(v =~= (p + v).skip(p.len() as int));
    lemma_cut(o_jsn(h_l(a)), o_jsn(h_v(a)), ta, o_jsn(h_l(b)), o_jsn(h_v(b)), tb);
    assert(h_l(a) == h_l(b) && h_v(a) == h_v(b));
    if lvt(a) || lvt(b) { assert(h_t(a) == h_t(b)); assert(a == b); }
    else { assert(a == h_s(h_l(a), h_v(a), 0)); assert(b == h_s(h_l(b), h_v(b), 0)); }
}
proof fn lemma_starts(p: Seq<char>, q: Seq<char>)
    ensures starts(p + q, p)
{ assert forall|i: int| 0 <= i < p.len() implies #[trigger] (p + q)[i] == p[i] by { } }
proof fn lemma_nr(cp: u32)
    requires syl(cp) || nr2(cp) is Some
    ensures starts(o_na(cp), nr(cp))
{
    if syl(cp) {
        let p = "HANGUL SYLLABLE "@;
        let t = if (cp - 0xAC00) % 28 == 0 { Seq::<char>::empty() } else { o_jsn(h_t(cp)) };
        assert(syl_name(cp) =~= p + (o_jsn(h_l(cp)) + o_jsn(h_v(cp)) + t));
        lemma_starts(p, o_jsn(h_l(cp)) + o_jsn(h_v(cp)) + t);
    } else { lemma_starts(nr2(cp)->0, hex4(cp as nat)); }
}
/// the rule prefix of a code point's name
pub open spec fn nr(cp: u32) -> Seq<char> { if syl(cp) { "HANGUL SYLLABLE "@ } else { nr2(cp)->0 } }
pub proof fn thm_names(a: u32, b: u32)
    requires a <= 0x10FFFF, b <= 0x10FFFF, o_na(a) == o_na(b), o_na(a).len() > 0
    ensures a == b
{
    let ra = syl(a) || nr2(a) is Some;
    let rb = syl(b) || nr2(b) is Some;
    if ra { lemma_nr(a); }
    if rb { lemma_nr(b); }
    if ra && rb {
        lemma_prefixes(o_na(a), a, b);
        if syl(a) { lemma_syl_names(a, b); }
        else {
            let p = nr2(a)->0;
            let (u, v) = (hex4(a as nat), hex4(b as nat));
            assert(u =~= (p + u).skip(p.len() as int)); assert(v =~= (p + v).skip(p.len() as int));
            thm_hex4(a as nat); thm_hex4(b as nat);
        }
    } else if ra || rb {
        let (r, l) = if ra { (a, b) } else { (b, a) };
        if exists|j: int| n_at(l, j) { let j = choose|j: int| n_at(l, j); fact_text(j, j); lemma_listed(text(j), r); }
    } else if exists|j: int| n_at(a, j) {
        let j = choose|j: int| n_at(a, j);
        if exists|k: int| n_at(b, k) {
            let k = choose|k: int| n_at(b, k);
            fact_text(j, k);
            assert(u_nk(j) == a && u_nk(k) == b);
        }
    }
}
