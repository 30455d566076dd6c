/// D114: p is a primary composite whose mapping is <l, c>
pub open spec fn is_pc(p: u32, l: char, c: char) -> bool {
    is_scalar(p) && o_dt(p) == Dt::Can && !o_comp_ex(p) && o_dm(p) == seq![l, c]
}
pub open spec fn has_pc(l: char, c: char) -> bool { exists|p: u32| is_pc(p, l, c) }
pub open spec fn pc(l: char, c: char) -> char { (choose|p: u32| is_pc(p, l, c)) as char }

/// what the reverse mapping has to return for the pair <s[0], s[1]>
pub open spec fn rdm_ok(r: u32, s: Seq<char>) -> bool {
    &&& r <= 0x10FFFF
    &&& s.len() == 2 && o_dt(r) == Dt::Can && !o_comp_ex(r) ==> is_pc(r, s[0], s[1])
    &&& s.len() == 2 ==> forall|p: u32| #[trigger] is_pc(p, s[0], s[1]) ==> r == p
}
