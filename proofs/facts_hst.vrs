/// Hangul_Syllable_Type LV and LVT are the arithmetic classes
#[verifier::external_body]
pub proof fn fact_hst(cp: u32)
    ensures (o_hst(cp) == Hst::LV) == lv(cp), (o_hst(cp) == Hst::LVT) == lvt(cp)
{ }
