// Canonical composition (D115, D117): specification vocabulary and lemmas.
/// index of the last starter of s, or -1
pub open spec fn last_starter(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if ccc(s.last()) == 0 { s.len() - 1 } else { last_starter(s.drop_last()) }
}
/// D115: c after `done` is blocked from done[l]
pub open spec fn blocked_from(done: Seq<char>, l: int, c: char) -> bool {
    exists|k: int| l < k < done.len() && (ccc(#[trigger] done[k]) == 0 || ccc(done[k]) >= ccc(c))
}
/// D117 R2 applies to the next character c
pub open spec fn combines(done: Seq<char>, c: char) -> bool {
    let l = last_starter(done);
    l >= 0 && !blocked_from(done, l, c) && has_pc(done[l], c)
}
/// D117: characters of `rest` are processed from left to right, `done` is the result so far
pub open spec fn comp(done: Seq<char>, rest: Seq<char>) -> Seq<char>
    decreases rest.len()
{
    if rest.len() == 0 { done }
    else if combines(done, rest[0]) { let l = last_starter(done); comp(done.update(l, pc(done[l], rest[0])), rest.skip(1)) }
    else { comp(done.push(rest[0]), rest.skip(1)) }
}
pub open spec fn compose(s: Seq<char>) -> Seq<char> { comp(Seq::empty(), s) }

pub proof fn lemma_last_starter(s: Seq<char>)
    ensures -1 <= last_starter(s) < s.len(),
        last_starter(s) >= 0 ==> ccc(s[last_starter(s)]) == 0,
        forall|k: int| last_starter(s) < k < s.len() ==> ccc(#[trigger] s[k]) > 0,
    decreases s.len()
{
    if s.len() > 0 && ccc(s.last()) != 0 {
        lemma_last_starter(s.drop_last());
        assert forall|k: int| last_starter(s) < k < s.len() implies ccc(#[trigger] s[k]) > 0 by { if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); } }
        if last_starter(s) >= 0 { assert(s.drop_last()[last_starter(s)] == s[last_starter(s)]); }
    }
}
