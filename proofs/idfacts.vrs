// the data facts of facts_id.vrs, row by row (decided by evaluation)
pub open spec fn id_itv_ok(i: int) -> bool {
    &&& p_lo(i) < p_lo(i + 1)
    &&& p_xids(i) ==> p_xidc(i) && p_ccc(i) == Ccc::NR
    &&& p_lo(i + 1) <= 0x1100 || p_lo(i) > 0x11FF || p_xids(i)
    &&& p_lo(i + 1) <= 0xAC00 || p_lo(i) > 0xD7A3 || p_xids(i)
    &&& p_xids(i) == (p_ids(i) && !not_xids(p_lo(i))) && p_xidc(i) == (p_idc(i) && !not_xidc(p_lo(i)))
    &&& no_cut_s(p_lo(i), p_lo(i + 1)) && no_cut_c(p_lo(i), p_lo(i + 1))
}
pub open spec fn all_idc(s: Seq<u32>, i: int) -> bool decreases s.len() - i when 0 <= i <= s.len() { i == s.len() || o_xidc(s[i]) && all_idc(s, i + 1) }
pub open spec fn id_row_ok(j: int) -> bool {
    &&& o_xidc(u_dk(j)) ==> all_idc(u_du(j), 0)
    &&& o_xids(u_dk(j)) ==> o_xids(u_du(j)[0])
    &&& u_du(j).len() == 2 && o_dt(u_dk(j)) == Dt::Can && o_xidc(u_du(j)[0]) && o_xidc(u_du(j)[1]) ==> o_xidc(u_dk(j)) && (o_xids(u_du(j)[0]) ==> o_xids(u_dk(j)))
}
proof fn lemma_idc(s: Seq<u32>, i: int, j: int)
    requires 0 <= i <= j < s.len(), all_idc(s, i)
    ensures o_xidc(s[j])
    decreases j - i
{ if i < j { lemma_idc(s, i + 1, j); } }
proof fn lemma_id_itv(cp: u32)
    requires cp <= 0x10FFFF
    ensures id_itv_ok(p_at(cp)), p_lo(p_at(cp)) <= cp < p_lo(p_at(cp) + 1), 0 <= p_at(cp) < N_p
{ p_in(cp); id_itvs_at(p_at(cp)); }
/// C05: the listed values are ID_Start and ID_Continue without the characters excluded by the contracts of xids and xidc
proof fn thm_xid(cp: u32)
    requires cp <= 0x10FFFF
    ensures o_xids(cp) == (o_ids(cp) && !not_xids(cp)), o_xidc(cp) == (o_idc(cp) && !not_xidc(cp)), o_xids(cp) ==> o_xidc(cp)
{ lemma_id_itv(cp); }
proof fn lemma_id_jamo(c: u32)
    requires 0x1100 <= c <= 0x11FF
    ensures o_xids(c), o_xidc(c)
{ lemma_id_itv(c); }
proof fn lemma_id_syl(c: u32)
    requires 0xAC00 <= c <= 0xD7A3
    ensures o_xids(c), o_xidc(c)
{ lemma_id_itv(c); }
proof fn prove_id(c: char)
    ensures o_xids(c as u32) ==> o_xidc(c as u32) && o_ccc(c as u32) as u8 == 0,
        o_dm(c as u32).len() > 0 && o_xidc(c as u32) ==> forall|i: int| 0 <= i < o_dm(c as u32).len() ==> o_xidc(#[trigger] o_dm(c as u32)[i] as u32),
        o_dm(c as u32).len() > 0 && o_xids(c as u32) ==> o_xids(o_dm(c as u32)[0] as u32),
{
    let cp = c as u32;
    lemma_id_itv(cp);
    if o_dm(cp).len() > 0 {
        if syl(cp) {
            thm_h_inverse(cp);
            lemma_id_jamo(h_l(cp)); lemma_id_jamo(h_v(cp)); if lvt(cp) { lemma_id_jamo(h_t(cp)); lemma_id_syl(h_lv(cp)); }
        } else {
            let j = choose|j: int| d_at(cp, j);
            lemma_dm_row(cp, j); id_rows_at(j); u_du_rel(j);
            if o_xidc(cp) { assert forall|i: int| 0 <= i < o_dm(cp).len() implies o_xidc(#[trigger] o_dm(cp)[i] as u32) by { lemma_idc(u_du(j), 0, i); } }
        }
    }
}
proof fn prove_id_pc(p: u32, l: char, c: char)
    requires is_pc(p, l, c), o_xidc(l as u32), o_xidc(c as u32)
    ensures o_xidc(p), o_xids(l as u32) ==> o_xids(p)
{
    assert(seq![l, c].len() == 2 && seq![l, c][0] == l && seq![l, c][1] == c);
    if syl(p) { lemma_id_syl(p); } else {
        let j = choose|j: int| d_at(p, j);
        assert(d_at(p, j));
        lemma_dm_row(p, j); id_rows_at(j); u_du_rel(j);
    }
}
