// Canonical ordering: specification vocabulary and lemmas (no executable code).

/// Characters of s with combining class 0 or k, in order.
pub open spec fn proj(s: Seq<char>, k: int) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if ccc(s.last()) == 0 || ccc(s.last()) == k { proj(s.drop_last(), k).push(s.last()) }
    else { proj(s.drop_last(), k) }
}
/// Same characters between the same starters, equal classes in the same relative order.
pub open spec fn same_proj(s: Seq<char>, t: Seq<char>) -> bool { forall|k: int| #[trigger] proj(s, k) == proj(t, k) }
/// No adjacent reorderable pair (D108).
pub open spec fn no_reorderable(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> !(ccc(#[trigger] s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0) }
/// Starters stay where they are.
pub open spec fn starters_kept(s: Seq<char>, t: Seq<char>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() && (ccc(#[trigger] s[i]) == 0 || ccc(t[i]) == 0) ==> s[i] == t[i]
}
/// t is the canonical ordering of s.
pub open spec fn canon_of(s: Seq<char>, t: Seq<char>) -> bool { same_proj(s, t) && starters_kept(s, t) && no_reorderable(t) }

/// all of i..=j are non-starters
pub open spec fn run(s: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k <= j ==> ccc(#[trigger] s[k]) > 0 }
/// everything from index `from` on is not smaller than what precedes it in its run
pub open spec fn tail_sorted(s: Seq<char>, from: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && j > from && #[trigger] run(s, i, j) ==> ccc(s[i]) <= ccc(s[j])
}
/// s[i] is a maximum of what precedes it in its run
pub open spec fn max_at(s: Seq<char>, i: int) -> bool {
    forall|k: int| 0 <= k < i && #[trigger] run(s, k, i) ==> ccc(s[k]) <= ccc(s[i])
}
pub open spec fn swapped(s: Seq<char>, t: Seq<char>, i: int) -> bool {
    0 <= i < s.len() - 1 && t == s.update(i, s[i + 1]).update(i + 1, s[i])
}

pub proof fn lemma_proj_add(a: Seq<char>, b: Seq<char>, k: int)
    ensures proj(a + b, k) == proj(a, k) + proj(b, k)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(proj(a, k) + proj(b, k) =~= proj(a, k)); }
    else {
        lemma_proj_add(a, b.drop_last(), k);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if ccc(b.last()) == 0 || ccc(b.last()) == k {
            assert(proj(a, k) + proj(b.drop_last(), k).push(b.last()) =~= (proj(a, k) + proj(b.drop_last(), k)).push(b.last()));
        }
    }
}
pub proof fn lemma_proj_two(x: char, y: char, k: int)
    requires ccc(x) > 0, ccc(y) > 0, ccc(x) != ccc(y)
    ensures proj(seq![x, y], k) == proj(seq![y, x], k)
{
    assert(seq![x, y].drop_last() =~= seq![x]); assert(seq![y, x].drop_last() =~= seq![y]);
    assert(seq![x].drop_last() =~= Seq::<char>::empty()); assert(seq![y].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(proj, 4);
    assert(proj(seq![x, y], k) =~= proj(seq![y, x], k));
}
pub proof fn lemma_swap_proj(s: Seq<char>, t: Seq<char>, i: int)
    requires swapped(s, t, i), ccc(s[i]) > 0, ccc(s[i + 1]) > 0, ccc(s[i]) != ccc(s[i + 1])
    ensures same_proj(s, t)
{
    let a = s.take(i); let b = s.skip(i + 2);
    assert(s =~= a + seq![s[i], s[i + 1]] + b);
    assert(t =~= a + seq![s[i + 1], s[i]] + b);
    assert forall|k: int| #[trigger] proj(s, k) == proj(t, k) by {
        lemma_proj_add(a, seq![s[i], s[i + 1]], k); lemma_proj_add(a + seq![s[i], s[i + 1]], b, k);
        lemma_proj_add(a, seq![s[i + 1], s[i]], k); lemma_proj_add(a + seq![s[i + 1], s[i]], b, k);
        lemma_proj_two(s[i], s[i + 1], k);
    }
}
/// One swap of a reorderable pair inside the bubbled prefix keeps the invariants.
pub proof fn lemma_swap_step(o: Seq<char>, s: Seq<char>, t: Seq<char>, i: int, last: int)
    requires swapped(s, t, i), i < last < s.len(), ccc(s[i]) > ccc(s[i + 1]), ccc(s[i + 1]) > 0,
        same_proj(o, s), starters_kept(o, s), tail_sorted(s, last), max_at(s, i)
    ensures same_proj(o, t), starters_kept(o, t), tail_sorted(t, last), max_at(t, i + 1)
{
    lemma_swap_proj(s, t, i);
    assert(same_proj(o, t)) by { assert forall|k: int| #[trigger] proj(o, k) == proj(t, k) by { assert(proj(o, k) == proj(s, k)); assert(proj(s, k) == proj(t, k)); } }
    assert forall|p: int, q: int| 0 <= p < q < t.len() && q > last && #[trigger] run(t, p, q) implies ccc(t[p]) <= ccc(t[q]) by {
        assert(t[q] == s[q]);
        let p2: int = if p == i { i + 1 } else if p == i + 1 { i } else { p };
        assert(t[p] == s[p2]);
        assert(run(s, p2, q)) by {
            assert forall|k: int| p2 <= k <= q implies ccc(#[trigger] s[k]) > 0 by { if k == i || k == i + 1 {} else { assert(t[k] == s[k]); } }
        }
        assert(ccc(s[p2]) <= ccc(s[q]));
    }
    assert forall|p: int| 0 <= p < i + 1 && #[trigger] run(t, p, i + 1) implies ccc(t[p]) <= ccc(t[i + 1]) by {
        assert(t[i + 1] == s[i]);
        if p == i { assert(t[i] == s[i + 1]); } else {
            assert(t[p] == s[p]);
            assert(run(s, p, i)) by { assert forall|k: int| p <= k <= i implies ccc(#[trigger] s[k]) > 0 by { if k < i { assert(t[k] == s[k]); } } }
        }
    }
}
/// The same without a swap.
pub proof fn lemma_keep_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len() - 1, max_at(s, i), !(ccc(s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0)
    ensures max_at(s, i + 1)
{
    assert forall|p: int| 0 <= p < i + 1 && #[trigger] run(s, p, i + 1) implies ccc(s[p]) <= ccc(s[i + 1]) by {
        assert(ccc(s[i + 1]) > 0);
        if p < i { assert(run(s, p, i)) by { assert forall|k: int| p <= k <= i implies ccc(#[trigger] s[k]) > 0 by {} } }
    }
}
pub proof fn lemma_shrink(s: Seq<char>, last: int)
    requires tail_sorted(s, last), max_at(s, last), 0 < last < s.len()
    ensures tail_sorted(s, last - 1)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() && j > last - 1 && #[trigger] run(s, i, j) implies ccc(s[i]) <= ccc(s[j]) by {}
}
pub proof fn lemma_sorted_end(s: Seq<char>)
    requires tail_sorted(s, 0)
    ensures no_reorderable(s)
{
    assert forall|i: int| 0 <= i < s.len() - 1 implies !(ccc(#[trigger] s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0) by {
        if ccc(s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0 { assert(run(s, i, i + 1)); }
    }
}
/// a pass without a swap: nothing is left to reorder
pub proof fn lemma_clean(s: Seq<char>, last: int)
    requires 0 < last < s.len(), tail_sorted(s, last), forall|j: int| 0 <= j < last ==> !(ccc(#[trigger] s[j]) > ccc(s[j + 1]) && ccc(s[j + 1]) > 0)
    ensures no_reorderable(s)
{
    assert forall|i: int| 0 <= i < s.len() - 1 implies !(ccc(#[trigger] s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0) by {
        if i >= last && ccc(s[i]) > ccc(s[i + 1]) && ccc(s[i + 1]) > 0 { assert(run(s, i, i + 1)); }
    }
}
