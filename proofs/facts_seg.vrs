#[verifier::external_body]
pub proof fn fact_seg(c: char)
    ensures el(c) ==> g(c) == Gcb::EX || g(c) == Gcb::ZWJ || g(c) == Gcb::SM,
        ic(c) == Incb::Consonant ==> g(c) == Gcb::XX,
        ep(c) ==> g(c) == Gcb::XX && ic(c) == Incb::None,
        c as u32 == 0 ==> g(c) == Gcb::CN,
{ }
