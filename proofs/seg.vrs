// UAX #29 (Unicode 15.1) extended grapheme cluster boundaries, written from the text of the standard.
pub open spec fn ctl(c: char) -> bool { g(c) == Gcb::CN || g(c) == Gcb::CR || g(c) == Gcb::LF }
/// \p{InCB=Consonant} [\p{InCB=Extend}\p{InCB=Linker}]* \p{InCB=Linker} [\p{InCB=Extend}\p{InCB=Linker}]* x \p{InCB=Consonant}
pub open spec fn gb9c(s: Seq<char>, i: int) -> bool {
    ic(s[i]) == Incb::Consonant && exists|j: int, l: int| gb9c_at(s, i, j, l)
}
pub open spec fn gb9c_at(s: Seq<char>, i: int, j: int, l: int) -> bool {
    0 <= j < l < i && ic(s[j]) == Incb::Consonant && ic(s[l]) == Incb::Linker && forall|m: int| j < m < i ==> el(#[trigger] s[m])
}
/// \p{ExtPict} Extend* ZWJ x \p{ExtPict}
pub open spec fn gb11(s: Seq<char>, i: int) -> bool {
    ep(s[i]) && g(s[i - 1]) == Gcb::ZWJ && exists|j: int| gb11_at(s, i, j)
}
pub open spec fn gb11_at(s: Seq<char>, i: int, j: int) -> bool {
    0 <= j < i - 1 && ep(s[j]) && forall|m: int| j < m < i - 1 ==> g(#[trigger] s[m]) == Gcb::EX
}
/// number of regional indicators directly before position i
pub open spec fn ri_run(s: Seq<char>, i: int) -> nat decreases i { if i <= 0 || i > s.len() || g(s[i - 1]) != Gcb::RI { 0 } else { ri_run(s, i - 1) + 1 } }
/// sot (RI RI)* RI x RI  and  [^RI] (RI RI)* RI x RI
pub open spec fn gb12(s: Seq<char>, i: int) -> bool { g(s[i]) == Gcb::RI && ri_run(s, i) % 2 == 1 }
/// is there a boundary before position i, 0 < i < len?  The rules in the order of the standard.
pub open spec fn brk(s: Seq<char>, i: int) -> bool {
    let a = s[i - 1]; let b = s[i];
    if g(a) == Gcb::CR && g(b) == Gcb::LF { false }                                                                   // GB3
    else if ctl(a) { true }                                                                                           // GB4
    else if ctl(b) { true }                                                                                           // GB5
    else if g(a) == Gcb::L && (g(b) == Gcb::L || g(b) == Gcb::V || g(b) == Gcb::LV || g(b) == Gcb::LVT) { false }     // GB6
    else if (g(a) == Gcb::LV || g(a) == Gcb::V) && (g(b) == Gcb::V || g(b) == Gcb::T) { false }                       // GB7
    else if (g(a) == Gcb::LVT || g(a) == Gcb::T) && g(b) == Gcb::T { false }                                          // GB8
    else if g(b) == Gcb::EX || g(b) == Gcb::ZWJ { false }                                                             // GB9
    else if g(b) == Gcb::SM { false }                                                                                 // GB9a
    else if g(a) == Gcb::PP { false }                                                                                 // GB9b
    else if gb9c(s, i) { false }                                                                                      // GB9c
    else if gb11(s, i) { false }                                                                                      // GB11
    else if gb12(s, i) { false }                                                                                      // GB12, GB13
    else { true }                                                                                                     // GB999
}
/// t[p..p+n] is one grapheme cluster of t (which has a boundary, or its start, at p)
pub open spec fn cluster(t: Seq<char>, p: int, n: int) -> bool {
    0 <= p && 0 < n && p + n <= t.len() && (forall|j: int| p < j < p + n ==> !#[trigger] brk(t, j)) && (p + n < t.len() ==> brk(t, p + n))
}

// ---- look-back as state, one character at a time
pub open spec fn st_conj(s: Seq<char>, i: int) -> bool decreases i { 0 < i <= s.len() && (ic(s[i - 1]) == Incb::Consonant || el(s[i - 1]) && st_conj(s, i - 1)) }
pub open spec fn st_link(s: Seq<char>, i: int) -> bool decreases i { 0 < i <= s.len() && (ic(s[i - 1]) == Incb::Linker && st_conj(s, i - 1) || ic(s[i - 1]) == Incb::Extend && st_link(s, i - 1)) }
pub open spec fn st_pict(s: Seq<char>, i: int) -> bool decreases i { 0 < i <= s.len() && (ep(s[i - 1]) || g(s[i - 1]) == Gcb::EX && st_pict(s, i - 1)) }

proof fn lemma_conj(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures st_conj(s, i) == exists|j: int| conj_at(s, i, j)
    decreases i
{
    if st_conj(s, i) {
        if ic(s[i - 1]) == Incb::Consonant { assert(conj_at(s, i, i - 1)); }
        else { lemma_conj(s, i - 1); let j = choose|j: int| #[trigger] conj_at(s, i - 1, j); assert(conj_at(s, i, j)); }
    }
    if exists|j: int| conj_at(s, i, j) {
        let j = choose|j: int| conj_at(s, i, j);
        if j < i - 1 { assert(el(s[i - 1])); lemma_conj(s, i - 1); assert(conj_at(s, i - 1, j)); }
    }
}
pub open spec fn conj_at(s: Seq<char>, i: int, j: int) -> bool { 0 <= j < i && ic(s[j]) == Incb::Consonant && forall|m: int| j < m < i ==> el(#[trigger] s[m]) }
proof fn lemma_link(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures st_link(s, i) == exists|j: int, l: int| gb9c_at(s, i, j, l)
    decreases i
{
    if st_link(s, i) {
        if ic(s[i - 1]) == Incb::Linker && st_conj(s, i - 1) { lemma_conj(s, i - 1); let j = choose|j: int| #[trigger] conj_at(s, i - 1, j); assert(gb9c_at(s, i, j, i - 1)); }
        else { lemma_link(s, i - 1); let (j, l) = choose|j: int, l: int| #[trigger] gb9c_at(s, i - 1, j, l); assert(gb9c_at(s, i, j, l)); }
    }
    if exists|j: int, l: int| gb9c_at(s, i, j, l) {
        let (j, l) = choose|j: int, l: int| gb9c_at(s, i, j, l);
        assert(el(s[i - 1]));
        lemma_conj(s, i - 1); assert(conj_at(s, i - 1, j));
        if ic(s[i - 1]) != Incb::Linker { lemma_link(s, i - 1); assert(l < i - 1); assert(gb9c_at(s, i - 1, j, l)); }
    }
}
proof fn lemma_pict(s: Seq<char>, i: int)
    requires 0 < i < s.len()
    ensures st_pict(s, i - 1) == exists|j: int| gb11_at(s, i, j)
    decreases i
{
    if st_pict(s, i - 1) {
        if ep(s[i - 2]) { assert(gb11_at(s, i, i - 2)); }
        else { lemma_pict(s, i - 1); let j = choose|j: int| #[trigger] gb11_at(s, i - 1, j); assert(gb11_at(s, i, j)); }
    }
    if exists|j: int| gb11_at(s, i, j) {
        let j = choose|j: int| gb11_at(s, i, j);
        if j < i - 2 { assert(g(s[i - 2]) == Gcb::EX); lemma_pict(s, i - 1); assert(gb11_at(s, i - 1, j)); }
    }
}
/// brk in terms of the state
proof fn lemma_brk(s: Seq<char>, i: int)
    requires 0 < i < s.len()
    ensures gb9c(s, i) == (ic(s[i]) == Incb::Consonant && st_link(s, i)), gb11(s, i) == (ep(s[i]) && g(s[i - 1]) == Gcb::ZWJ && st_pict(s, i - 1)),
{ lemma_link(s, i); lemma_pict(s, i); }

/// one step of the look-back state
proof fn lemma_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures st_conj(s, k + 1) == (ic(s[k]) == Incb::Consonant || el(s[k]) && st_conj(s, k)),
        st_link(s, k + 1) == (ic(s[k]) == Incb::Linker && st_conj(s, k) || ic(s[k]) == Incb::Extend && st_link(s, k)),
        st_pict(s, k + 1) == (ep(s[k]) || g(s[k]) == Gcb::EX && st_pict(s, k)),
        ri_run(s, k + 1) == if g(s[k]) == Gcb::RI { ri_run(s, k) + 1 } else { 0 },
{ }
/// a conjunct and a pictograph sequence cannot both be open
proof fn lemma_excl(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures !(st_conj(s, i) && st_pict(s, i))
    decreases i
{ if i > 0 { fact_seg(s[i - 1]); lemma_excl(s, i - 1); } }

// ---- a boundary cuts the look-back: the clusters of the rest are the clusters of the text
proof fn lemma_cut_at(t: Seq<char>, p: int)
    requires 0 < p < t.len(), brk(t, p)
    ensures el(t[p]) ==> !st_conj(t, p) && !st_link(t, p), g(t[p]) == Gcb::EX || g(t[p]) == Gcb::ZWJ ==> !st_pict(t, p), g(t[p]) == Gcb::RI ==> ri_run(t, p) % 2 == 0,
{
    fact_seg(t[p]); fact_seg(t[p - 1]);
    lemma_brk(t, p);
}
proof fn lemma_state_cut(t: Seq<char>, p: int, i: int)
    requires 0 < p < i <= t.len(), brk(t, p)
    ensures
        st_conj(t, i) == st_conj(t.skip(p), i - p), st_link(t, i) == st_link(t.skip(p), i - p), st_pict(t, i) == st_pict(t.skip(p), i - p),
        ri_run(t, i) % 2 == ri_run(t.skip(p), i - p) % 2,
    decreases i
{
    assert(t.skip(p)[i - p - 1] == t[i - 1]);
    let z = t.skip(p);
    assert(!st_conj(z, 0) && !st_link(z, 0) && !st_pict(z, 0) && ri_run(z, 0) == 0);
    lemma_cut_at(t, p);
    fact_seg(t[p]);
    if i > p + 1 { lemma_state_cut(t, p, i - 1); }
    else { assert(i - p - 1 == 0); }
}
/// brk is local to the rest of the text after a boundary
proof fn lemma_brk_cut(t: Seq<char>, p: int, j: int)
    requires 0 <= p < t.len(), p > 0 ==> brk(t, p), 0 < j < t.len() - p
    ensures brk(t.skip(p), j) == brk(t, p + j)
{
    if p == 0 { assert(t.skip(0) =~= t); }
    else {
        let z = t.skip(p);
        assert(z[j] == t[p + j] && z[j - 1] == t[p + j - 1]);
        lemma_brk(z, j); lemma_brk(t, p + j);
        lemma_state_cut(t, p, p + j);
        if j > 1 { lemma_state_cut(t, p, p + j - 1); } else { lemma_cut_at(t, p); assert(!st_pict(z, 0)); }
    }
}
/// one call of next() on the rest of t after a boundary returns the next cluster of t
proof fn lemma_cluster_cut(t: Seq<char>, p: int, n: int)
    requires 0 <= p < t.len(), p > 0 ==> brk(t, p), cluster(t.skip(p), 0, n)
    ensures cluster(t, p, n)
{
    let z = t.skip(p);
    assert forall|j: int| p < j < p + n implies !#[trigger] brk(t, j) by { lemma_brk_cut(t, p, j - p); assert(!brk(z, j - p)); }
    if p + n < t.len() { lemma_brk_cut(t, p, n); }
}

// ---- histories: what any number of calls of next() returns
/// the contract of next(), as a relation on (text left, result, text left afterwards)
pub open spec fn next_rel(s: Seq<char>, r: Option<Seq<char>>, s2: Seq<char>) -> bool {
    if s.len() == 0 { r is None && s2 == s }
    else { r is Some && s == r->0 + s2 && cluster(s, 0, r->0.len() as int) }
}
/// ss[k] is the text left after k calls and rs[k] the result of call k, starting with text t
pub open spec fn history(t: Seq<char>, ss: Seq<Seq<char>>, rs: Seq<Option<Seq<char>>>) -> bool {
    ss.len() == rs.len() + 1 && ss[0] == t && forall|k: int| 0 <= k < rs.len() ==> next_rel(#[trigger] ss[k], rs[k], ss[k + 1])
}
pub open spec fn joined(rs: Seq<Option<Seq<char>>>) -> Seq<char> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { joined(rs.drop_last()) + (if rs.last() is Some { rs.last()->0 } else { Seq::empty() }) } }
/// C16 and C17 for every history: the results joined are the text consumed, every result is a cluster of the whole text at the
/// position reached so far, every call shortens a non-empty rest, and once a call returns nothing so do all later ones
proof fn thm_history(t: Seq<char>, ss: Seq<Seq<char>>, rs: Seq<Option<Seq<char>>>)
    requires history(t, ss, rs)
    ensures
        joined(rs) + ss.last() == t,
        ss.last().len() > 0 && joined(rs).len() > 0 ==> brk(t, joined(rs).len() as int),
        rs.len() > 0 ==> (rs.last() is None) == (joined(rs.drop_last()).len() == t.len()),
        rs.len() > 0 && rs.last() is Some ==> cluster(t, joined(rs.drop_last()).len() as int, rs.last()->0.len() as int),
        ss.last().len() == 0 || ss.last().len() + rs.len() <= t.len(),
    decreases rs.len()
{
    hide(brk);
    if rs.len() == 0 { assert(joined(rs) + ss.last() =~= t); }
    else {
        let (s1, r1) = (ss.drop_last(), rs.drop_last());
        assert(history(t, s1, r1)) by { assert forall|k: int| 0 <= k < r1.len() implies next_rel(#[trigger] s1[k], r1[k], s1[k + 1]) by { assert(next_rel(ss[k], rs[k], ss[k + 1])); assert(s1[k + 1] == ss[k + 1]); } }
        thm_history(t, s1, r1);
        let p = joined(r1).len() as int;
        let s = s1.last();
        let k = rs.len() - 1;
        assert(next_rel(ss[k], rs[k], ss[k + 1]));
        assert(s == ss[k] && rs.last() == rs[k] && ss.last() == ss[k + 1]);
        assert(t.skip(p) =~= s);
        if s.len() == 0 { assert(joined(rs) =~= joined(r1)); }
        else {
            let n = rs[k]->0.len() as int;
            lemma_cluster_cut(t, p, n);
            assert(joined(rs) + ss.last() =~= joined(r1) + s);
        }
    }
}
/// two sequences of clusters of the same text are the same: the specification determines the result
proof fn thm_unique(t: Seq<char>, p: int, n: int, m: int)
    requires cluster(t, p, n), cluster(t, p, m)
    ensures n == m
{ if n < m { assert(!brk(t, p + n)); } if m < n { assert(!brk(t, p + m)); } }
