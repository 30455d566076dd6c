// Decomposition: lemmas
pub open spec fn rank_le(k: bool, s: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> rank(k, #[trigger] s[i]) <= n }
pub open spec fn maxrank(k: bool, s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = maxrank(k, s.drop_last()); if rank(k, s.last()) > m { rank(k, s.last()) } else { m } }
}
pub proof fn lemma_maxrank(k: bool, s: Seq<char>)
    ensures rank_le(k, s, maxrank(k, s) as int)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_maxrank(k, s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies rank(k, #[trigger] s[i]) <= maxrank(k, s) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
pub proof fn lemma_maxrank_least(k: bool, s: Seq<char>, n: nat)
    requires rank_le(k, s, n as int)
    ensures maxrank(k, s) <= n
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies rank(k, #[trigger] s.drop_last()[i]) <= n by { assert(s.drop_last()[i] == s[i]); }
        lemma_maxrank_least(k, s.drop_last(), n);
        assert(rank(k, s[s.len() - 1]) <= n);
    }
}
pub proof fn lemma_depth(k: bool, s: Seq<char>)
    ensures rank_le(k, s, DEPTH as int)
{
    assert forall|i: int| 0 <= i < s.len() implies rank(k, #[trigger] s[i]) <= DEPTH by { fact_rank(k, s[i]); }
}
pub proof fn lemma_step_add(k: bool, a: Seq<char>, b: Seq<char>)
    ensures step(k, a + b) == step(k, a) + step(k, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(step(k, a) + step(k, b) =~= step(k, a)); }
    else {
        lemma_step_add(k, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(step(k, a) + step(k, b.drop_last()) + step_c(k, b.last()) =~= step(k, a) + (step(k, b.drop_last()) + step_c(k, b.last())));
    }
}
pub proof fn lemma_full_add(k: bool, a: Seq<char>, b: Seq<char>, n: nat)
    ensures full_n(k, a + b, n) == full_n(k, a, n) + full_n(k, b, n)
    decreases n
{
    if n > 0 { lemma_step_add(k, a, b); lemma_full_add(k, step(k, a), step(k, b), (n - 1) as nat); }
}
pub proof fn lemma_step_one(k: bool, c: char)
    ensures step(k, seq![c]) == step_c(k, c)
{
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    assert(step(k, seq![c].drop_last()) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty() + step_c(k, c) =~= step_c(k, c));
}
pub proof fn lemma_step_id(k: bool, s: Seq<char>)
    requires unmapped(k, s)
    ensures step(k, s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !mapped(k, #[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_step_id(k, s.drop_last());
        assert(!mapped(k, s[s.len() - 1]));
        assert(s.drop_last() + seq![s.last()] =~= s);
    } else { assert(step(k, s) =~= s); }
}
pub proof fn lemma_full_id(k: bool, s: Seq<char>, n: nat)
    requires unmapped(k, s)
    ensures full_n(k, s, n) == s
    decreases n
{
    if n > 0 { lemma_step_id(k, s); lemma_full_id(k, s, (n - 1) as nat); }
}
pub proof fn lemma_rank0(k: bool, s: Seq<char>)
    requires rank_le(k, s, 0)
    ensures unmapped(k, s)
{
    assert forall|i: int| 0 <= i < s.len() implies !mapped(k, #[trigger] s[i]) by { fact_rank(k, s[i]); if mapped(k, s[i]) { assert(rank(k, o_dm(s[i] as u32)[0]) < rank(k, s[i])); } }
}
/// one step lowers every positive rank
pub proof fn lemma_step_rank(k: bool, s: Seq<char>, n: nat)
    requires rank_le(k, s, n as int)
    ensures rank_le(k, step(k, s), if n == 0 { 0int } else { n - 1 })
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies rank(k, #[trigger] d[i]) <= n by { assert(d[i] == s[i]); }
        lemma_step_rank(k, d, n);
        let c = s.last();
        assert(rank(k, s[s.len() - 1]) <= n);
        fact_rank(k, c);
        let t = step(k, s);
        assert forall|i: int| 0 <= i < t.len() implies rank(k, #[trigger] t[i]) <= (if n == 0 { 0int } else { n - 1 }) by {
            let m = step(k, d).len();
            if i < m { assert(t[i] == step(k, d)[i]); } else {
                assert(t[i] == step_c(k, c)[i - m]);
                if mapped(k, c) { assert(rank(k, o_dm(c as u32)[i - m]) < rank(k, c)); } else { assert(rank(k, c) == 0); }
            }
        }
    }
}
pub proof fn lemma_full_n_done(k: bool, s: Seq<char>, n: nat)
    requires rank_le(k, s, n as int)
    ensures unmapped(k, full_n(k, s, n))
    decreases n
{
    if n == 0 { lemma_rank0(k, s); } else { lemma_step_rank(k, s, n); lemma_full_n_done(k, step(k, s), (n - 1) as nat); }
}
pub proof fn lemma_full_n_more(k: bool, s: Seq<char>, n: nat, m: nat)
    requires rank_le(k, s, n as int), n <= m
    ensures full_n(k, s, m) == full_n(k, s, n)
    decreases n
{
    if n == 0 { lemma_rank0(k, s); lemma_full_id(k, s, m); }
    else { lemma_step_rank(k, s, n); lemma_full_n_more(k, step(k, s), (n - 1) as nat, (m - 1) as nat); }
}
/// no mapping applies to the full decomposition
pub proof fn lemma_full_done(k: bool, s: Seq<char>)
    ensures unmapped(k, full(k, s))
{ lemma_depth(k, s); lemma_full_n_done(k, s, DEPTH); }
/// the full decomposition is that of the string after one step
pub proof fn lemma_full_step(k: bool, s: Seq<char>)
    ensures full(k, s) == full(k, step(k, s))
{
    lemma_depth(k, s); lemma_step_rank(k, s, DEPTH);
    lemma_full_n_more(k, step(k, s), (DEPTH - 1) as nat, DEPTH);
}
pub proof fn lemma_full_cat(k: bool, a: Seq<char>, b: Seq<char>)
    ensures full(k, a + b) == full(k, a) + full(k, b)
{ lemma_full_add(k, a, b, DEPTH); }
/// termination measure of the exec functions
pub proof fn lemma_measure(k: bool, s: Seq<char>)
    requires !unmapped(k, s)
    ensures maxrank(k, step(k, s)) < maxrank(k, s)
{
    let i = choose|i: int| 0 <= i < s.len() && mapped(k, #[trigger] s[i]);
    fact_rank(k, s[i]); lemma_maxrank(k, s);
    assert(rank(k, o_dm(s[i] as u32)[0]) < rank(k, s[i]));
    lemma_step_rank(k, s, maxrank(k, s));
    lemma_maxrank_least(k, step(k, s), (maxrank(k, s) - 1) as nat);
}
pub proof fn lemma_step_snoc(k: bool, s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures step(k, s.take(i + 1)) == step(k, s.take(i)) + step_c(k, s[i]),
        unmapped(k, s.take(i + 1)) == (unmapped(k, s.take(i)) && !mapped(k, s[i])),
        s.take(s.len() as int) == s,
        !mapped(k, s[i]) ==> step(k, s.take(i + 1)) == step(k, s.take(i)).push(s[i]),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(s.len() as int) =~= s);
    if unmapped(k, s.take(i + 1)) {
        assert(s.take(i + 1)[i] == s[i]);
        assert forall|j: int| 0 <= j < s.take(i).len() implies !mapped(k, #[trigger] s.take(i)[j]) by { assert(s.take(i + 1)[j] == s.take(i)[j]); }
    } else {
        let j = choose|j: int| 0 <= j < s.take(i + 1).len() && mapped(k, #[trigger] s.take(i + 1)[j]);
        if j < i { assert(s.take(i)[j] == s.take(i + 1)[j]); }
    }
    assert(step(k, s.take(i)).push(s[i]) =~= step(k, s.take(i)) + seq![s[i]]);
}
