// Full_Composition_Exclusion: script-specific exclusions, singletons and non-starter decompositions
pub open spec fn singleton(cp: u32) -> bool { is_scalar(cp) && o_dt(cp) == Dt::Can && o_dm(cp).len() == 1 }
pub open spec fn ns_decomp(cp: u32) -> bool { is_scalar(cp) && full(false, seq![cp as char]).len() > 1 && ccc(full(false, seq![cp as char])[0]) != 0 }
pub open spec fn comp_ex_def(cp: u32) -> bool { o_ce(cp) || singleton(cp) || ns_decomp(cp) }
