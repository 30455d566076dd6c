pub open spec fn g(c: char) -> Gcb { o_gcb(c as u32) }
pub open spec fn ic(c: char) -> Incb { o_incb(c as u32) }
pub open spec fn ep(c: char) -> bool { o_ext_pict(c as u32) }
pub open spec fn el(c: char) -> bool { ic(c) == Incb::Extend || ic(c) == Incb::Linker }
