// Decomposition_Mapping: the listed rows (u_dk, u_du: from the oracle) and the Hangul arithmetic
pub open spec fn u_dv(j: int) -> Seq<char> { chars_of(u_du(j)) }
pub open spec fn scalars(s: Seq<u32>, i: int) -> bool decreases s.len() - i when 0 <= i <= s.len() { i == s.len() || s[i] <= 0x10FFFF && !(0xD800 <= s[i] <= 0xDFFF) && scalars(s, i + 1) }
proof fn lemma_scalars(s: Seq<u32>, i: int, j: int)
    requires 0 <= i <= j < s.len(), scalars(s, i)
    ensures chars_of(s)[j] as u32 == s[j]
    decreases j - i
{ if i < j { lemma_scalars(s, i + 1, j); } }
pub open spec fn same_u(a: Seq<char>, b: Seq<u32>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] as u32 == b[k] }
proof fn u_du_rel(j: int)
    requires 0 <= j < NDM
    ensures same_u(u_dv(j), u_du(j))
{ d_rows_at(j); assert forall|k: int| 0 <= k < u_dv(j).len() implies #[trigger] u_dv(j)[k] as u32 == u_du(j)[k] by { lemma_scalars(u_du(j), 0, k); } }
pub open spec fn d_at(cp: u32, j: int) -> bool { 0 <= j < NDM && u_dk(j) == cp }
pub open spec fn o_dm(cp: u32) -> Seq<char> {
    if lv(cp) { seq![h_l(cp) as char, h_v(cp) as char] } else if lvt(cp) { seq![h_lv(cp) as char, h_t(cp) as char] }
    else if exists|j: int| d_at(cp, j) { u_dv(choose|j: int| d_at(cp, j)) } else { Seq::empty() }
}
pub open spec fn d_row(j: int) -> bool { !(0xAC00 <= u_dk(j) <= 0xD7AF) && u_dk(j) <= 0x10FFFF && u_du(j).len() > 0 && scalars(u_du(j), 0) && (j > 0 ==> u_dk(j - 1) < u_dk(j)) }
proof fn lemma_dk_sorted(i: int, j: int)
    requires 0 <= i < j < NDM
    ensures u_dk(i) < u_dk(j)
    decreases j - i
{ d_rows_at(j); if i < j - 1 { lemma_dk_sorted(i, j - 1); } }
/// the mapping of a listed code point is its row
proof fn lemma_dm_row(cp: u32, j: int)
    requires d_at(cp, j)
    ensures o_dm(cp) == u_dv(j), !syl(cp)
{
    d_rows_at(j);
    let k = choose|k: int| d_at(cp, k);
    if k < j { lemma_dk_sorted(k, j); } else if j < k { lemma_dk_sorted(j, k); }
}
