// ---- statements about the data, row by row (decided by evaluation) and their consequences
pub open spec fn o_comp_ex(cp: u32) -> bool { comp_ex_def(cp) }
pub open spec fn o_rank(cp: u32) -> nat { if lvt(cp) { 2 } else if lv(cp) { 1 } else { p_rk(p_at(cp)) } }
pub open spec fn in_syl(i: int) -> bool { 0xAC00 <= p_lo(i) && p_lo(i + 1) <= 0xD7A4 }
pub open spec fn off_syl(i: int) -> bool { p_lo(i + 1) <= 0xAC00 || p_lo(i) >= 0xD7A4 }
/// every interval of the code space
pub open spec fn itv_ok(i: int) -> bool {
    &&& p_rk(i) <= DEPTH
    &&& p_rk(i) == 0 || p_lo(i + 1) <= 0x1100 || p_lo(i) > 0x11FF
    &&& p_lo(i) < p_lo(i + 1)
    &&& in_syl(i) || off_syl(i)
    &&& in_syl(i) ==> p_dt(i) == Dt::Can && p_ccc(i) == Ccc::NR && !p_ce(i)
    &&& p_ccc(i) != Ccc::NR && p_dt(i) != Dt::None ==> p_dt(i) == Dt::Can
    &&& p_ce(i) ==> p_dt(i) == Dt::Can
    &&& p_dt(i) != Dt::None && off_syl(i) ==> 0 <= p_row(i) && p_row(i) + (p_lo(i + 1) - p_lo(i)) <= NDM && u_dk(p_row(i)) == p_lo(i) && u_dk(p_row(i) + (p_lo(i + 1) - p_lo(i)) - 1) == p_lo(i + 1) - 1
    &&& p_dt(i) != Dt::None ==> p_lo(i + 1) <= 0xD800 || p_lo(i) > 0xDFFF
    &&& p_lo(i) <= 0x11FF && p_lo(i + 1) > 0x1100 ==> p_dt(i) == Dt::None && p_ccc(i) == Ccc::NR
}
pub open spec fn all_lower(s: Seq<u32>, i: int, n: nat) -> bool decreases s.len() - i when 0 <= i <= s.len() { i == s.len() || o_rank(s[i]) < n && all_lower(s, i + 1, n) }
pub open spec fn u_can(j: int) -> bool { o_dt(u_dk(j)) == Dt::Can }
pub open spec fn u_pair(j: int) -> bool { u_du(j).len() == 2 && u_can(j) && !o_ce(u_dk(j)) }
pub open spec fn pair_no(j: int) -> int { u_du(j)[0] * 0x200000 + u_du(j)[1] }
/// every row of the decomposition mapping
pub open spec fn row_ok(j: int) -> bool {
    &&& all_lower(u_du(j), 0, o_rank(u_dk(j)))
    &&& o_dt(u_dk(j)) != Dt::None
    &&& u_dk(j) > 0 && !(0xD800 <= u_dk(j) <= 0xDFFF)
    &&& u_pair(j) ==> o_ccc(u_dk(j)) == Ccc::NR || o_dt(u_du(j)[0]) != Dt::Can && o_dt(u_du(j)[1]) != Dt::Can && o_ccc(u_du(j)[0]) != Ccc::NR
    &&& u_pair(j) ==> !jamo(u_du(j)[0]) && !syl(u_du(j)[0]) && !jamo(u_du(j)[1]) && !syl(u_du(j)[1])
    &&& u_pair(j) ==> 0 <= u_pos(j) < NPC && u_pc(u_pos(j)) == j
}
pub open spec fn pc_ok(k: int) -> bool { k + 1 < NPC ==> pair_no(u_pc(k)) < pair_no(u_pc(k + 1)) }

proof fn lemma_lower(s: Seq<u32>, i: int, n: nat, j: int)
    requires 0 <= i <= j < s.len(), all_lower(s, i, n)
    ensures o_rank(s[j]) < n
    decreases j - i
{ if i < j { lemma_lower(s, i + 1, n, j); } }
proof fn lemma_itv(cp: u32)
    requires cp <= 0x10FFFF
    ensures itv_ok(p_at(cp)), p_lo(p_at(cp)) <= cp < p_lo(p_at(cp) + 1), 0 <= p_at(cp) < N_p, syl(cp) == in_syl(p_at(cp))
{ p_in(cp); itvs_at(p_at(cp)); }
proof fn lemma_dk_gap(i: int, j: int)
    requires 0 <= i <= j < NDM
    ensures u_dk(j) - u_dk(i) >= j - i
    decreases j - i
{ if i < j { d_rows_at(j); lemma_dk_gap(i, j - 1); } }
/// C09: a code point has a mapping exactly when its Decomposition_Type is not None
proof fn thm_dt(cp: u32)
    requires cp <= 0x10FFFF
    ensures (o_dm(cp).len() > 0) == (o_dt(cp) != Dt::None)
{
    lemma_itv(cp);
    let i = p_at(cp);
    if !syl(cp) {
        if o_dt(cp) != Dt::None {
            let (a, n, t) = (p_row(i), p_lo(i + 1) - p_lo(i), cp - p_lo(i));
            lemma_dk_gap(a, a + t); lemma_dk_gap(a + t, a + n - 1);
            assert(d_at(cp, a + t));
        }
        if exists|j: int| d_at(cp, j) { let j = choose|j: int| d_at(cp, j); lemma_dm_row(cp, j); rows_at(j); u_du_rel(j); d_rows_at(j); }
    }
}
proof fn lemma_jamo_rank(c: u32)
    requires 0x1100 <= c <= 0x11FF
    ensures o_rank(c) == 0, o_dt(c) == Dt::None, o_ccc(c) == Ccc::NR
{ lemma_itv(c); }
proof fn prove_rank(k: bool, c: char)
    ensures rank(k, c) <= DEPTH,
        mapped(k, c) ==> forall|i: int| 0 <= i < o_dm(c as u32).len() ==> rank(k, #[trigger] o_dm(c as u32)[i]) < rank(k, c),
{
    let cp = c as u32;
    lemma_itv(cp);
    if mapped(k, c) {
        if syl(cp) {
            thm_h_inverse(cp);
            lemma_jamo_rank(h_l(cp)); lemma_jamo_rank(h_v(cp)); if lvt(cp) { lemma_jamo_rank(h_t(cp)); }
        } else {
            let j = choose|j: int| d_at(cp, j);
            lemma_dm_row(cp, j); rows_at(j); u_du_rel(j);
            assert forall|i: int| 0 <= i < o_dm(cp).len() implies rank(k, #[trigger] o_dm(cp)[i]) < rank(k, c) by { u_du_rel(j); lemma_lower(u_du(j), 0, o_rank(cp), i); }
        }
    }
}
proof fn lemma_pc_sorted(a: int, b: int)
    requires 0 <= a < b < NPC
    ensures pair_no(u_pc(a)) < pair_no(u_pc(b))
    decreases b - a
{ pcs_at(b - 1); if a < b - 1 { lemma_pc_sorted(a, b - 1); } }
proof fn lemma_char_u32(p: u32)
    requires is_scalar(p)
    ensures (p as char) as u32 == p
{ }
/// a primary composite is a Hangul syllable or a row that is not excluded
proof fn lemma_pc_case(p: u32, l: char, c: char) -> (j: int)
    requires is_pc(p, l, c)
    ensures p != 0, ccc(p as char) == 0, o_ccc(p) as u8 == 0, !syl(p) ==> d_at(p, j) && u_pair(j) && u_pos(j) >= 0 && u_dv(j) == seq![l, c] && !jamo(l as u32) && !syl(l as u32) && !jamo(c as u32) && !syl(c as u32),
{
    lemma_itv(p);
    assert(seq![l, c].len() == 2 && seq![l, c][0] == l && seq![l, c][1] == c);
    lemma_char_u32(p);
    if syl(p) { 0 } else {
        let j = choose|j: int| d_at(p, j);
        assert(d_at(p, j));
        lemma_dm_row(p, j); rows_at(j); u_du_rel(j);
        if o_ccc(p) != Ccc::NR {
            let s = seq![p as char];
            lemma_step_one(false, p as char);
            assert(mapped(false, p as char));
            assert(step(false, s) == seq![l, c]);
            assert(unmapped(false, seq![l, c]));
            lemma_full_step(false, s); lemma_full_id(false, seq![l, c], DEPTH);
            assert(full(false, s) == seq![l, c]);
            assert(ccc_nr(l));
            assert(ns_decomp(p));
        }
        j
    }
}
pub open spec fn ccc_nr(c: char) -> bool { (ccc(c) == 0) == (o_ccc(c as u32) == Ccc::NR) }
proof fn prove_pc(p: u32, l: char, c: char)
    requires is_pc(p, l, c)
    ensures p != 0, o_ccc(p) as u8 == 0, forall|q: u32| is_pc(q, l, c) ==> q == p,
{
    let j = lemma_pc_case(p, l, c);
    assert(seq![l, c].len() == 2 && seq![l, c][0] == l && seq![l, c][1] == c);
    assert forall|q: u32| is_pc(q, l, c) implies q == p by {
        let m = lemma_pc_case(q, l, c);
        if syl(p) { thm_h_inverse(p); }
        if syl(q) { thm_h_inverse(q); }
        if !syl(p) { rows_at(j); u_du_rel(j); } if !syl(q) { rows_at(m); u_du_rel(m); }
        if !syl(p) && !syl(q) {
            assert(u_dv(j) == u_dv(m));
            if u_pos(j) < u_pos(m) { lemma_pc_sorted(u_pos(j), u_pos(m)); } else if u_pos(m) < u_pos(j) { lemma_pc_sorted(u_pos(m), u_pos(j)); }
        }
    }
}
proof fn prove_excluded(c: char)
    ensures o_comp_ex(c as u32) ==> o_dm(c as u32).len() > 0 && o_dt(c as u32) == Dt::Can
{
    let cp = c as u32;
    lemma_itv(cp); thm_dt(cp);
    if ns_decomp(cp) {
        assert(cp as char == c);
        if !mapped(false, c) { assert(unmapped(false, seq![c])); lemma_full_id(false, seq![c], DEPTH); }
    }
}
proof fn prove_ns(c: char)
    ensures ccc(c) > 0 && mapped(true, c) ==> mapped(false, c)
{ lemma_itv(c as u32); assert(ccc_nr(c)); }

proof fn prove_syl(s: u32)
    requires syl(s)
    ensures o_dm(s) == chars_of(h_map(s)), o_dt(s) == Dt::Can, o_ccc(s) as u8 == 0, !o_comp_ex(s),
{
    lemma_itv(s); thm_h_inverse(s);
    assert(o_dm(s) =~= chars_of(h_map(s)));
    lemma_first(s);
}
proof fn lemma_first(s: u32)
    requires syl(s)
    ensures !ns_decomp(s)
    decreases (if lv(s) { 0int } else { 1int })
{
    lemma_itv(s); thm_h_inverse(s);
    let c = s as char;
    let m = o_dm(s);
    assert(o_dm(s) =~= chars_of(h_map(s)));
    assert(mapped(false, c));
    lemma_step_one(false, c); lemma_full_step(false, seq![c]);
    if lv(s) {
        lemma_jamo_rank(h_l(s)); lemma_jamo_rank(h_v(s));
        assert(unmapped(false, m)); lemma_full_id(false, m, DEPTH);
        assert(full(false, seq![c])[0] == h_l(s) as char);
    } else {
        let d = h_lv(s) as char;
        lemma_first(h_lv(s));
        lemma_jamo_rank(h_t(s));
        assert(m =~= seq![d] + seq![h_t(s) as char]);
        lemma_full_cat(false, seq![d], seq![h_t(s) as char]);
        assert(unmapped(false, seq![h_t(s) as char])); lemma_full_id(false, seq![h_t(s) as char], DEPTH);
        lemma_first_len(h_lv(s));
        assert(full(false, seq![c])[0] == full(false, seq![d])[0]);
    }
}
proof fn lemma_first_len(s: u32)
    requires lv(s)
    ensures full(false, seq![s as char]).len() == 2
{
    let c = s as char;
    let m = o_dm(s);
    lemma_itv(s); thm_h_inverse(s);
    assert(o_dm(s) =~= chars_of(h_map(s)));
    assert(mapped(false, c));
    lemma_step_one(false, c); lemma_full_step(false, seq![c]);
    lemma_jamo_rank(h_l(s)); lemma_jamo_rank(h_v(s));
    assert(unmapped(false, m)); lemma_full_id(false, m, DEPTH);
}
