/// identifier characters: Unicode data facts, proved in module idfacts
#[verifier::external_body]
pub proof fn fact_id(c: char)
    ensures o_xids(c as u32) ==> o_xidc(c as u32) && o_ccc(c as u32) as u8 == 0,
        o_dm(c as u32).len() > 0 && o_xidc(c as u32) ==> forall|i: int| 0 <= i < o_dm(c as u32).len() ==> o_xidc(#[trigger] o_dm(c as u32)[i] as u32),
        o_dm(c as u32).len() > 0 && o_xids(c as u32) ==> o_xids(o_dm(c as u32)[0] as u32),
{ }
#[verifier::external_body]
pub proof fn fact_id_pc(p: u32, l: char, c: char)
    requires is_pc(p, l, c), o_xidc(l as u32), o_xidc(c as u32)
    ensures o_xidc(p), o_xids(l as u32) ==> o_xids(p)
{ }
