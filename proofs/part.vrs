// C16: next() returns a non-empty prefix of the text left, cut at a character, and keeps exactly the rest
pub open spec fn next_rel(s: Seq<char>, r: Option<Seq<char>>, s2: Seq<char>) -> bool {
    if s.len() == 0 { r is None && s2 == s }
    else { r is Some && s == r->0 + s2 && r->0.len() > 0 }
}
/// ss[k] is the text left after k calls and rs[k] the result of call k, starting with text t
pub open spec fn history(t: Seq<char>, ss: Seq<Seq<char>>, rs: Seq<Option<Seq<char>>>) -> bool {
    ss.len() == rs.len() + 1 && ss[0] == t && forall|k: int| 0 <= k < rs.len() ==> next_rel(#[trigger] ss[k], rs[k], ss[k + 1])
}
pub open spec fn joined(rs: Seq<Option<Seq<char>>>) -> Seq<char> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { joined(rs.drop_last()) + (if rs.last() is Some { rs.last()->0 } else { Seq::empty() }) } }
/// every history of calls: the results joined are the text consumed, each result is non-empty, nothing is returned exactly
/// when the text is used up (and from then on), and after at most len calls that is the case
proof fn thm_history(t: Seq<char>, ss: Seq<Seq<char>>, rs: Seq<Option<Seq<char>>>)
    requires history(t, ss, rs)
    ensures
        joined(rs) + ss.last() == t,
        rs.len() > 0 ==> (rs.last() is None) == (joined(rs.drop_last()) == t),
        rs.len() > 0 && rs.last() is Some ==> rs.last()->0.len() > 0,
        ss.last().len() == 0 || ss.last().len() + rs.len() <= t.len(),
    decreases rs.len()
{
    if rs.len() == 0 { assert(joined(rs) + ss.last() =~= t); }
    else {
        let (s1, r1) = (ss.drop_last(), rs.drop_last());
        assert(history(t, s1, r1)) by { assert forall|k: int| 0 <= k < r1.len() implies next_rel(#[trigger] s1[k], r1[k], s1[k + 1]) by { assert(next_rel(ss[k], rs[k], ss[k + 1])); assert(s1[k + 1] == ss[k + 1]); } }
        thm_history(t, s1, r1);
        let k = rs.len() - 1;
        assert(next_rel(ss[k], rs[k], ss[k + 1]));
        assert(s1.last() == ss[k] && rs.last() == rs[k] && ss.last() == ss[k + 1]);
        if ss[k].len() == 0 { assert(joined(rs) =~= joined(r1)); assert(joined(r1) =~= t); }
        else { assert(joined(rs) + ss.last() =~= joined(r1) + ss[k]); assert(joined(r1).len() < t.len()); }
    }
}
