/// the syllables are starters with their arithmetic mapping and are not excluded from composition
#[verifier::external_body]
pub proof fn fact_syl(s: u32)
    requires syl(s)
    ensures o_dm(s) == chars_of(h_map(s)), o_dt(s) == Dt::Can, o_ccc(s) as u8 == 0, !o_comp_ex(s),
{ }
/// conjoining jamo are starters without mapping
#[verifier::external_body]
pub proof fn fact_jamo(c: u32)
    requires 0x1100 <= c <= 0x11FF
    ensures o_dt(c) == Dt::None, o_ccc(c) as u8 == 0,
{ }
/// a primary composite whose mapping contains a jamo or a syllable is a syllable
#[verifier::external_body]
pub proof fn fact_h_only(p: u32, l: char, c: char)
    requires is_pc(p, l, c), jamo(l as u32) || jamo(c as u32) || syl(l as u32) || syl(c as u32)
    ensures syl(p)
{ }
