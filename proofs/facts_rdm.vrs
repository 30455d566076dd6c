/// a code point has a mapping exactly when it has a Decomposition_Type
#[verifier::external_body]
pub proof fn fact_dt(cp: u32)
    requires cp <= 0x10FFFF
    ensures (o_dm(cp).len() > 0) == (o_dt(cp) != Dt::None)
{ }
/// the primary composites that are not Hangul syllables are the rows marked as pairs (u_pos >= 0), and none of them begins with a leading consonant or a syllable
#[verifier::external_body]
pub proof fn fact_pair(p: u32, l: char, c: char) -> (j: int)
    requires is_pc(p, l, c)
    ensures !syl(p) ==> d_at(p, j) && u_pos(j) >= 0 && !is_l(l as u32) && !syl(l as u32),
{ arbitrary() }
