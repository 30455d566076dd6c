// the rows of the code's reverse table (x_rk, x_rv: as extracted) against the listed mappings
pub open spec fn lex_lt(a: Seq<u32>, b: Seq<u32>, i: int) -> bool decreases a.len() - i when 0 <= i { if i >= b.len() { false } else if i >= a.len() { true } else if a[i] != b[i] { a[i] < b[i] } else { lex_lt(a, b, i + 1) } }
pub open spec fn lex_le(a: Seq<u32>, b: Seq<u32>) -> bool { a == b || lex_lt(a, b, 0) }
/// every row: its value is a listed code point whose mapping is the row's key, and the keys are in order
pub open spec fn rx_row(i: int) -> bool {
    &&& 0 <= x_ri(i) < NDM && u_dk(x_ri(i)) == x_rv(i) && u_du(x_ri(i)) == x_rk(i)
    &&& x_rv(i) > 0 && x_rv(i) <= 0x10FFFF && !(0xD800 <= x_rv(i) <= 0xDFFF)
    &&& i + 1 < XRD ==> lex_le(x_rk(i), x_rk(i + 1))
}
/// every pair that has a primary composite: its only row
pub open spec fn rp_row(j: int) -> bool {
    u_pos(j) >= 0 ==> 0 <= u_rp(j) < XRD && x_rv(u_rp(j)) == u_dk(j) && x_rk(u_rp(j)) == u_du(j)
        && (u_rp(j) > 0 ==> lex_lt(x_rk(u_rp(j) - 1), x_rk(u_rp(j)), 0)) && (u_rp(j) + 1 < XRD ==> lex_lt(x_rk(u_rp(j)), x_rk(u_rp(j) + 1), 0))
}
proof fn lemma_lex_irr(a: Seq<u32>, i: int)
    requires 0 <= i
    ensures !lex_lt(a, a, i)
    decreases a.len() - i
{ if i < a.len() { lemma_lex_irr(a, i + 1); } }
proof fn lemma_lex_trans(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, i: int)
    requires 0 <= i, lex_lt(a, b, i), lex_lt(b, c, i)
    ensures lex_lt(a, c, i)
    decreases a.len() - i
{ if i < a.len() && i < b.len() && i < c.len() && a[i] == b[i] && b[i] == c[i] { lemma_lex_trans(a, b, c, i + 1); } }
proof fn lemma_rk_sorted(i: int, j: int)
    requires 0 <= i <= j < XRD
    ensures lex_le(x_rk(i), x_rk(j))
    decreases j - i
{
    if i < j {
        rx_rows_at(j - 1); lemma_rk_sorted(i, j - 1);
        if lex_lt(x_rk(i), x_rk(j - 1), 0) && lex_lt(x_rk(j - 1), x_rk(j), 0) { lemma_lex_trans(x_rk(i), x_rk(j - 1), x_rk(j), 0); }
    }
}
pub open spec fn xr_sorted() -> bool { forall|i: int, j: int| 0 <= i < j < XRD ==> lex_le(#[trigger] x_rk(i), #[trigger] x_rk(j)) }
proof fn lemma_xr_sorted()
    ensures xr_sorted()
{ assert forall|i: int, j: int| 0 <= i < j < XRD implies lex_le(#[trigger] x_rk(i), #[trigger] x_rk(j)) by { lemma_rk_sorted(i, j); } }
/// a pair's row is the only one with its key
proof fn lemma_only(j: int, i: int)
    requires 0 <= j < NDM, u_pos(j) >= 0, 0 <= i < XRD, x_rk(i) == u_du(j)
    ensures i == u_rp(j)
{
    rp_rows_at(j);
    let r = u_rp(j);
    lemma_lex_irr(x_rk(r), 0);
    if i < r { lemma_rk_sorted(i, r - 1); lemma_xtr(i, r - 1, r); }
    if r < i { lemma_rk_sorted(r + 1, i); lemma_xtr2(r, r + 1, i); }
}
proof fn lemma_xtr(a: int, b: int, c: int)
    requires lex_le(x_rk(a), x_rk(b)), lex_lt(x_rk(b), x_rk(c), 0)
    ensures lex_lt(x_rk(a), x_rk(c), 0)
{ if x_rk(a) != x_rk(b) { lemma_lex_trans(x_rk(a), x_rk(b), x_rk(c), 0); } }
proof fn lemma_xtr2(a: int, b: int, c: int)
    requires lex_lt(x_rk(a), x_rk(b), 0), lex_le(x_rk(b), x_rk(c))
    ensures lex_lt(x_rk(a), x_rk(c), 0)
{ if x_rk(b) != x_rk(c) { lemma_lex_trans(x_rk(a), x_rk(b), x_rk(c), 0); } }
proof fn lemma_same_chars(a: Seq<u32>, b: Seq<u32>)
    requires scalars(a, 0), scalars(b, 0), chars_of(a) == chars_of(b)
    ensures a == b
{
    assert(chars_of(a).len() == a.len() && chars_of(b).len() == b.len());
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { lemma_scalars(a, 0, k); lemma_scalars(b, 0, k); }
    assert(a =~= b);
}
/// the table's answer for the string s
proof fn lemma_rdm_found(s: Seq<char>, i: int)
    requires 0 <= i < XRD, s == chars_of(x_rk(i)), s.len() == 2 ==> !(is_l(s[0] as u32) && is_v(s[1] as u32)) && !(lv(s[0] as u32) && is_t(s[1] as u32))
    ensures rdm_ok(x_rv(i), s)
{
    rx_rows_at(i);
    let r = x_rv(i);
    lemma_dm_row(r, x_ri(i));
    assert(o_dm(r) == s);
    if s.len() == 2 { assert(s =~= seq![s[0], s[1]]); }
    assert forall|p: u32| s.len() == 2 && #[trigger] is_pc(p, s[0], s[1]) implies r == p by {
        let j = fact_pair(p, s[0], s[1]);
        assert(seq![s[0], s[1]].len() == 2 && seq![s[0], s[1]][0] == s[0] && seq![s[0], s[1]][1] == s[1]);
        if syl(p) { lemma_syl_pair(p, s[0], s[1]); } else {
            lemma_dm_row(p, j); d_rows_at(j); d_rows_at(x_ri(i));
            lemma_same_chars(x_rk(i), u_du(j));
            lemma_only(j, i); rp_rows_at(j);
        }
    }
}
proof fn lemma_rdm_none(s: Seq<char>)
    requires forall|i: int| 0 <= i < XRD ==> s != chars_of(#[trigger] x_rk(i)), s.len() == 2 ==> !(is_l(s[0] as u32) && is_v(s[1] as u32)) && !(lv(s[0] as u32) && is_t(s[1] as u32))
    ensures rdm_ok(0, s)
{
    fact_dt(0);
    assert forall|j: int| !d_at(0, j) by { if d_at(0, j) { d_rows_at(j); lemma_dk_pos(j); } }
    assert(o_dm(0).len() == 0);
    assert forall|p: u32| s.len() == 2 && #[trigger] is_pc(p, s[0], s[1]) implies 0 == p by {
        let j = fact_pair(p, s[0], s[1]);
        assert(s =~= seq![s[0], s[1]]);
        if syl(p) { lemma_syl_pair(p, s[0], s[1]); } else { lemma_dm_row(p, j); rp_rows_at(j); }
    }
}
proof fn lemma_dk_pos(j: int)
    requires 0 <= j < NDM
    ensures u_dk(j) > 0
    decreases j
{ if j > 0 { d_rows_at(j); lemma_dk_pos(j - 1); } else { assert(u_dk(0) > 0) by (compute_only); } }
proof fn lemma_syl_pair(p: u32, l: char, c: char)
    requires syl(p), o_dm(p) == seq![l, c]
    ensures lv(p) ==> is_l(l as u32) && is_v(c as u32) && h_s(l as u32, c as u32, 0) == p, lvt(p) ==> lv(l as u32) && is_t(c as u32) && l as u32 + (c as u32 - 0x11A7) == p,
{
    thm_h_inverse(p);
    let m = o_dm(p);
    assert(m.len() == 2 && m[0] == l && m[1] == c);
    if lv(p) { assert(m == seq![h_l(p) as char, h_v(p) as char]); assert(m[0] == h_l(p) as char && m[1] == h_v(p) as char); }
    else { assert(m == seq![h_lv(p) as char, h_t(p) as char]); assert(m[0] == h_lv(p) as char && m[1] == h_t(p) as char); }
}
/// the arithmetic answer
proof fn lemma_rdm_syl(s: Seq<char>, r: u32)
    requires s.len() == 2, is_l(s[0] as u32) && is_v(s[1] as u32) && r == h_s(s[0] as u32, s[1] as u32, 0) || lv(s[0] as u32) && is_t(s[1] as u32) && r == s[0] as u32 + (s[1] as u32 - 0x11A7)
    ensures rdm_ok(r, s)
{
    let (l, c) = (s[0] as u32, s[1] as u32);
    assert(s =~= seq![s[0], s[1]]);
    if is_l(l) { thm_h_inverse2(l, c, 0); assert(o_dm(r) =~= s); }
    else { assert(lvt(r) && h_lv(r) == l && h_t(r) == c); assert(o_dm(r) =~= s); }
    assert forall|p: u32| #[trigger] is_pc(p, s[0], s[1]) implies r == p by {
        let j = fact_pair(p, s[0], s[1]);
        if syl(p) { lemma_syl_pair(p, s[0], s[1]); }
    }
}
pub open spec fn h_rdm(a: u32, b: u32) -> u32 { if is_l(a) { h_s(a, b, 0) } else { (a + (b - 0x11A7)) as u32 } }
