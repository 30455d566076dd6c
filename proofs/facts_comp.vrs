/// primary composites are starters other than U+0000 and are determined by their mapping
#[verifier::external_body]
pub proof fn fact_pc(p: u32, l: char, c: char)
    requires is_pc(p, l, c)
    ensures p != 0, o_ccc(p) as u8 == 0, forall|q: u32| is_pc(q, l, c) ==> q == p,
{ }
