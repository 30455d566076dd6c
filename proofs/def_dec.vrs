// Decomposition: specification vocabulary and lemmas.  k = true: compatibility, k = false: canonical.
pub open spec fn mapped(k: bool, c: char) -> bool {
    o_dm(c as u32).len() > 0 && (if k { o_dt(c as u32) != Dt::None } else { o_dt(c as u32) == Dt::Can })
}
pub open spec fn step_c(k: bool, c: char) -> Seq<char> { if mapped(k, c) { o_dm(c as u32) } else { seq![c] } }
/// every character replaced by its mapping, once
pub open spec fn step(k: bool, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { step(k, s.drop_last()) + step_c(k, s.last()) }
}
pub open spec fn full_n(k: bool, s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { s } else { full_n(k, step(k, s), (n - 1) as nat) }
}
pub spec const DEPTH: nat = 8;
/// the full decomposition: mappings applied until none applies (lemma_full_done)
pub open spec fn full(k: bool, s: Seq<char>) -> Seq<char> { full_n(k, s, DEPTH) }
pub open spec fn unmapped(k: bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !mapped(k, #[trigger] s[i]) }

/// an upper bound of the number of steps until no mapping applies
pub open spec fn rank(k: bool, c: char) -> nat { if mapped(k, c) { o_rank(c as u32) } else { 0 } }
