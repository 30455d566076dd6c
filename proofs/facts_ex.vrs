/// composition-excluded characters have a canonical mapping
#[verifier::external_body]
pub proof fn fact_excluded(c: char)
    ensures o_comp_ex(c as u32) ==> o_dm(c as u32).len() > 0 && o_dt(c as u32) == Dt::Can
{ }
/// non-starters have no compatibility mapping of their own
#[verifier::external_body]
pub proof fn fact_ns(c: char)
    ensures ccc(c) > 0 && mapped(true, c) ==> mapped(false, c)
{ }
