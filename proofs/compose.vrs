// Canonical composition: lemmas.
pub proof fn lemma_last_starter_is(s: Seq<char>, l: int)
    requires 0 <= l < s.len(), ccc(s[l]) == 0, forall|k: int| l < k < s.len() ==> ccc(#[trigger] s[k]) > 0,
    ensures last_starter(s) == l
{ lemma_last_starter(s); }
pub proof fn lemma_no_starter(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> ccc(#[trigger] s[k]) > 0,
    ensures last_starter(s) == -1
{ lemma_last_starter(s); }
/// in a run of non-starters without reorderable pairs the classes are non-decreasing
pub proof fn lemma_run_sorted(s: Seq<char>, i: int, j: int)
    requires no_reorderable(s), 0 <= i <= j < s.len(), forall|k: int| i <= k <= j ==> ccc(#[trigger] s[k]) > 0,
    ensures ccc(s[i]) <= ccc(s[j])
    decreases j - i
{
    if i < j {
        lemma_run_sorted(s, i, j - 1);
        let q = j - 1;
        assert(!(ccc(s[q]) > ccc(s[q + 1]) && ccc(s[q + 1]) > 0));
        assert(ccc(s[j]) > 0);
    }
}
/// D115 for an ordered sequence: only the character just before c matters
pub proof fn lemma_blocked_last(done: Seq<char>, l: int, c: char)
    requires no_reorderable(done), -1 <= l < done.len() - 1, forall|k: int| l < k < done.len() ==> ccc(#[trigger] done[k]) > 0,
    ensures blocked_from(done, l, c) == (ccc(done.last()) >= ccc(c))
{
    if ccc(done.last()) >= ccc(c) { assert(ccc(done[done.len() - 1]) >= ccc(c)); }
    if blocked_from(done, l, c) {
        let k = choose|k: int| l < k < done.len() && (ccc(#[trigger] done[k]) == 0 || ccc(done[k]) >= ccc(c));
        lemma_run_sorted(done, k, done.len() - 1);
    }
}
/// Replacing the last starter by p and deleting the character at i keeps the sequence ordered.
pub proof fn lemma_merge_ordered(s: Seq<char>, l: int, i: int, p: char)
    requires no_reorderable(s), 0 <= l < i < s.len(), ccc(p) == 0, ccc(s[l]) == 0,
        forall|k: int| l < k < i ==> ccc(#[trigger] s[k]) > 0 && ccc(s[k]) < ccc(s[i]),
    ensures no_reorderable(s.update(l, p).remove(i))
{
    let u = s.update(l, p);
    let t = u.remove(i);
    assert forall|j: int| 0 <= j < t.len() - 1 implies !(ccc(#[trigger] t[j]) > ccc(t[j + 1]) && ccc(t[j + 1]) > 0) by {
        if j + 1 < i { assert(t[j] == u[j]); assert(t[j + 1] == u[j + 1]); assert(!(ccc(s[j]) > ccc(s[j + 1]) && ccc(s[j + 1]) > 0)); }
        else if j >= i { let q = j + 1; assert(t[j] == u[j + 1]); assert(t[j + 1] == u[j + 2]); assert(!(ccc(s[q]) > ccc(s[q + 1]) && ccc(s[q + 1]) > 0)); }
        else {
            assert(t[j] == u[j]); assert(t[j + 1] == u[i + 1]); assert(j == i - 1);
            assert(!(ccc(s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0));
            if j > l { assert(ccc(s[j]) < ccc(s[i])); }
        }
    }
}
/// One iteration of the exec loop is one step of `comp`.
pub proof fn lemma_comp_step(s: Seq<char>, i: int)
    requires 0 < i < s.len()
    ensures
        combines(s.take(i), s[i]) ==> ({
            let l = last_starter(s.take(i)); let t = s.update(l, pc(s[l], s[i])).remove(i);
            0 <= l < i && comp(s.take(i), s.skip(i)) == comp(t.take(i), t.skip(i)) }),
        !combines(s.take(i), s[i]) ==> comp(s.take(i), s.skip(i)) == comp(s.take(i + 1), s.skip(i + 1)),
{
    let done = s.take(i); let rest = s.skip(i);
    assert(rest[0] == s[i]);
    assert(rest.skip(1) =~= s.skip(i + 1));
    lemma_last_starter(done);
    if combines(done, s[i]) {
        let l = last_starter(done); let t = s.update(l, pc(s[l], s[i])).remove(i);
        assert(done[l] == s[l]);
        assert(t.take(i) =~= done.update(l, pc(done[l], s[i])));
        assert(t.skip(i) =~= s.skip(i + 1));
    } else { assert(done.push(s[i]) =~= s.take(i + 1)); }
}
pub proof fn lemma_sub_blocked(done: Seq<char>, l: int, c: char)
    requires 0 <= l < done.len()
    ensures blocked_from(done.subrange(l, done.len() as int), 0, c) == blocked_from(done, l, c)
{
    let sub = done.subrange(l, done.len() as int);
    if blocked_from(sub, 0, c) { let k = choose|k: int| 0 < k < sub.len() && (ccc(#[trigger] sub[k]) == 0 || ccc(sub[k]) >= ccc(c)); assert(done[k + l] == sub[k]); }
    if blocked_from(done, l, c) { let k = choose|k: int| l < k < done.len() && (ccc(#[trigger] done[k]) == 0 || ccc(done[k]) >= ccc(c)); assert(sub[k - l] == done[k]); }
}

pub proof fn lemma_compose_start(x: Seq<char>)
    ensures x.len() > 0 ==> compose(x) == comp(x.take(1), x.skip(1)), x.len() <= 1 ==> compose(x) == x
{
    let e = Seq::<char>::empty();
    if x.len() == 0 { assert(x =~= e); return; }
    assert(last_starter(e) == -1);
    assert(e.push(x[0]) =~= x.take(1));
    assert(comp(e, x) == comp(e.push(x[0]), x.skip(1)));
    if x.len() == 1 { assert(x.take(1) =~= x); assert(x.skip(1).len() == 0); assert(comp(x.take(1), x.skip(1)) == x.take(1)); }
}
pub proof fn lemma_compose_end(x: Seq<char>)
    ensures comp(x.take(x.len() as int), x.skip(x.len() as int)) == x
{ assert(x.take(x.len() as int) =~= x); assert(x.skip(x.len() as int).len() == 0); }
/// the tests the code makes before it merges
pub open spec fn code_merges(g: Seq<char>, l: int, i: int, m: u32) -> bool {
    ccc(g[l]) == 0 && !blocked_from(g.subrange(l, i + 1).drop_last(), 0, g[i]) && m != 0 && o_dt(m) == Dt::Can && !o_comp_ex(m)
}
pub open spec fn merged(g: Seq<char>, l: int, i: int, m: u32) -> Seq<char> { g.update(l, m as char).remove(i) }
pub open spec fn code_step(g: Seq<char>, l: int, i: int, m: u32) -> bool {
    if code_merges(g, l, i, m) {
        let t = merged(g, l, i, m);
        no_reorderable(t) && comp(g.take(i), g.skip(i)) == comp(t.take(i), t.skip(i))
    } else { comp(g.take(i), g.skip(i)) == comp(g.take(i + 1), g.skip(i + 1)) }
}
pub proof fn lemma_code_blocked(g: Seq<char>, l: int, i: int)
    requires 0 <= l < i < g.len(), ccc(g[l]) == 0, forall|k: int| l < k < i ==> ccc(#[trigger] g[k]) > 0,
    ensures last_starter(g.take(i)) == l,
        blocked_from(g.subrange(l, i + 1).drop_last(), 0, g[i]) == blocked_from(g.take(i), l, g[i]),
        !blocked_from(g.take(i), l, g[i]) ==> forall|k: int| l < k < i ==> ccc(#[trigger] g[k]) > 0 && ccc(g[k]) < ccc(g[i]),
{
    hide(last_starter);
    let done = g.take(i);
    assert forall|k: int| l < k < done.len() implies ccc(#[trigger] done[k]) > 0 by { assert(done[k] == g[k]); }
    assert(done[l] == g[l]);
    lemma_last_starter_is(done, l);
    assert(g.subrange(l, i + 1).drop_last() =~= done.subrange(l, i));
    lemma_sub_blocked(done, l, g[i]);
    if !blocked_from(done, l, g[i]) {
        assert forall|k: int| l < k < i implies ccc(#[trigger] g[k]) > 0 && ccc(g[k]) < ccc(g[i]) by { assert(done[k] == g[k]); }
    }
}
pub proof fn lemma_code_pc(l: char, c: char, m: u32)
    requires rdm_ok(m, seq![l, c])
    ensures (m != 0 && o_dt(m) == Dt::Can && !o_comp_ex(m)) == has_pc(l, c), has_pc(l, c) ==> is_pc(m, l, c) && pc(l, c) == m as char && ccc(m as char) == 0
{
    let s2 = seq![l, c];
    assert(s2[0] == l && s2[1] == c && s2.len() == 2);
    if has_pc(l, c) {
        let q = choose|q: u32| is_pc(q, l, c);
        assert(is_pc(q, l, c));
        assert(m == q);
        fact_pc(m, l, c);
    } else if m != 0 && o_dt(m) == Dt::Can && !o_comp_ex(m) {
        assert(is_pc(m, l, c));
    }
}
pub proof fn lemma_code_step(g: Seq<char>, l: int, i: int, m: u32)
    requires no_reorderable(g), 0 <= l < i < g.len(), forall|k: int| l < k < i ==> ccc(#[trigger] g[k]) > 0,
        ccc(g[l]) == 0 || l == 0, rdm_ok(m, seq![g[l], g[i]]),
    ensures code_step(g, l, i, m)
{
    hide(comp); hide(last_starter); hide(blocked_from); hide(no_reorderable); hide(rdm_ok); hide(has_pc); hide(pc);
    lemma_comp_step(g, i);
    let done = g.take(i);
    if ccc(g[l]) == 0 {
        lemma_code_blocked(g, l, i);
        assert(done[l] == g[l]);
        lemma_code_pc(g[l], g[i], m);
        if code_merges(g, l, i, m) { lemma_merge_ordered(g, l, i, m as char); }
    } else {
        assert forall|k: int| 0 <= k < done.len() implies ccc(#[trigger] done[k]) > 0 by { assert(done[k] == g[k]); }
        lemma_no_starter(done);
    }
}
/// nothing happens to g[i] when it is blocked or has no starter before it, whatever the two characters compose to
pub proof fn lemma_code_stay(g: Seq<char>, l: int, i: int)
    requires no_reorderable(g), 0 <= l < i < g.len(), forall|k: int| l < k < i ==> ccc(#[trigger] g[k]) > 0, ccc(g[l]) == 0 || l == 0,
    ensures ccc(g[l]) != 0 || blocked_from(g.subrange(l, i + 1).drop_last(), 0, g[i]) ==> comp(g.take(i), g.skip(i)) == comp(g.take(i + 1), g.skip(i + 1))
{
    hide(comp); hide(last_starter); hide(blocked_from); hide(no_reorderable); hide(has_pc); hide(pc);
    lemma_comp_step(g, i);
    let done = g.take(i);
    if ccc(g[l]) == 0 {
        lemma_code_blocked(g, l, i);
        assert(done[l] == g[l]);
    } else {
        assert forall|k: int| 0 <= k < done.len() implies ccc(#[trigger] done[k]) > 0 by { assert(done[k] == g[k]); }
        lemma_no_starter(done);
    }
}
pub proof fn lemma_sub_ordered(g: Seq<char>, l: int, i: int)
    requires no_reorderable(g), 0 <= l <= i < g.len()
    ensures no_reorderable(g.subrange(l, i + 1))
{
    let sub = g.subrange(l, i + 1);
    assert forall|j: int| 0 <= j < sub.len() - 1 implies !(ccc(#[trigger] sub[j]) > ccc(sub[j + 1]) && ccc(sub[j + 1]) > 0) by { let q = j + l; assert(sub[j] == g[q]); assert(sub[j + 1] == g[q + 1]); }
}
