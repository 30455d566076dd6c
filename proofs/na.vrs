// Name: rules NR1, NR2 and the listed names (u_nk: their code points; text(j): the j-th listed name)
pub uninterp spec fn text(id: int) -> Seq<char>;
pub open spec fn syl_name(cp: u32) -> Seq<char> { "HANGUL SYLLABLE "@ + o_jsn(h_l(cp)) + o_jsn(h_v(cp)) + (if (cp - 0xAC00) % 28 == 0 { Seq::empty() } else { o_jsn(h_t(cp)) }) }
pub open spec fn n_at(cp: u32, j: int) -> bool { 0 <= j < L_u_nk && u_nk(j) == cp }
pub open spec fn o_na(cp: u32) -> Seq<char> {
    if syl(cp) { syl_name(cp) } else if nr2(cp) is Some { nr2(cp)->0 + hex4(cp as nat) }
    else if exists|j: int| n_at(cp, j) { text(choose|j: int| n_at(cp, j)) } else { Seq::empty() }
}
pub open spec fn n_run(k: int) -> bool { u_nk_s(k) < u_nk_s(k + 1) && (k + 1 < N_u_nk ==> u_nk_b(k) + (u_nk_s(k + 1) - u_nk_s(k)) <= u_nk_b(k + 1)) }
proof fn lemma_nk_next(j: int)
    requires 0 <= j, j + 1 < L_u_nk
    ensures u_nk(j) < u_nk(j + 1)
{
    u_nk_in(j); u_nk_in(j + 1);
    let (a, b) = (u_nk_run(j), u_nk_run(j + 1));
    n_runs_at(a); n_runs_at(b);
    if a != b {
        if a + 1 < b { lemma_ns(a + 1, b); n_runs_at(a + 1); }
        if b < a { lemma_ns(b + 1, a); }
        assert(b == a + 1);
    }
}
proof fn lemma_ns(a: int, b: int)
    requires 0 <= a <= b < N_u_nk
    ensures u_nk_s(b) - u_nk_s(a) >= b - a
    decreases b - a
{ if a < b { n_runs_at(b - 1); lemma_ns(a, b - 1); } }
proof fn lemma_nk_sorted(i: int, j: int)
    requires 0 <= i < j < L_u_nk
    ensures u_nk(i) < u_nk(j)
    decreases j - i
{ lemma_nk_next(j - 1); if i < j - 1 { lemma_nk_sorted(i, j - 1); } }
proof fn lemma_na_row(cp: u32, j: int)
    requires n_at(cp, j), !syl(cp), nr2(cp) is None
    ensures o_na(cp) == text(j)
{ let k = choose|k: int| n_at(cp, k); if k < j { lemma_nk_sorted(k, j); } else if j < k { lemma_nk_sorted(j, k); } }
