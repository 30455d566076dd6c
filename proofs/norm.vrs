// The normalization forms: their algebra (C13, C14, C15).
// ---- uniqueness of the canonical ordering
/// position of the last element of a projection
pub proof fn lemma_proj_pos(s: Seq<char>, k: int) -> (j: int)
    requires proj(s, k).len() > 0
    ensures 0 <= j < s.len(), s[j] == proj(s, k).last(), forall|i: int| j < i < s.len() ==> ccc(#[trigger] s[i]) != 0 && ccc(s[i]) != k
    decreases s.len()
{
    if ccc(s.last()) == 0 || ccc(s.last()) == k { s.len() - 1 }
    else {
        let d = s.drop_last();
        let j = lemma_proj_pos(d, k);
        assert forall|i: int| j < i < s.len() implies ccc(#[trigger] s[i]) != 0 && ccc(s[i]) != k by { if i < d.len() { assert(d[i] == s[i]); } }
        assert(d[j] == s[j]);
        j
    }
}
pub proof fn lemma_ccc_range(c: char) ensures 0 <= ccc(c) {}
pub proof fn lemma_run_sorted2(s: Seq<char>, i: int, j: int)
    requires no_reorderable(s), 0 <= i <= j < s.len(), forall|k: int| i < k <= j ==> ccc(#[trigger] s[k]) > 0,
    ensures ccc(s[i]) <= ccc(s[j])
    decreases j - i
{
    if i < j {
        lemma_run_sorted2(s, i, j - 1);
        let q = j - 1;
        assert(!(ccc(s[q]) > ccc(s[q + 1]) && ccc(s[q + 1]) > 0));
        assert(ccc(s[j]) > 0);
    }
}
pub proof fn lemma_drop_ordered(s: Seq<char>)
    requires no_reorderable(s), s.len() > 0
    ensures no_reorderable(s.drop_last())
{
    let d = s.drop_last();
    assert forall|i: int| 0 <= i < d.len() - 1 implies !(ccc(#[trigger] d[i]) > ccc(d[i + 1]) && ccc(d[i + 1]) > 0) by { assert(d[i] == s[i]); assert(d[i + 1] == s[i + 1]); }
}
/// the last characters of two ordered sequences with the same projections have the same class
pub proof fn lemma_last_class(s: Seq<char>, t: Seq<char>)
    requires s.len() > 0, t.len() > 0, same_proj(s, t), no_reorderable(s), no_reorderable(t), ccc(s.last()) > ccc(t.last())
    ensures false
{
    let p = ccc(s.last());
    assert(proj(s, p) == proj(t, p));
    lemma_proj_last(s, p);
    let j = lemma_proj_pos(t, p);
    assert(t[j] == s.last());
    lemma_run_sorted2_from(t, j);
}
pub proof fn lemma_run_sorted2_from(t: Seq<char>, j: int)
    requires no_reorderable(t), 0 <= j < t.len(), forall|i: int| j < i < t.len() ==> ccc(#[trigger] t[i]) != 0
    ensures ccc(t[j]) <= ccc(t.last())
{
    assert forall|i: int| j < i <= t.len() - 1 implies ccc(#[trigger] t[i]) > 0 by { lemma_ccc_range(t[i]); }
    lemma_run_sorted2(t, j, t.len() - 1);
}
pub proof fn lemma_canon_unique(s: Seq<char>, t: Seq<char>)
    requires same_proj(s, t), no_reorderable(s), no_reorderable(t)
    ensures s == t
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(proj(s, ccc(t.last())) == proj(t, ccc(t.last()))); lemma_proj_last(t, ccc(t.last())); }
        assert(s =~= t);
    } else if t.len() == 0 {
        assert(proj(s, ccc(s.last())) == proj(t, ccc(s.last()))); lemma_proj_last(s, ccc(s.last()));
    } else {
        if ccc(s.last()) > ccc(t.last()) { lemma_last_class(s, t); }
        if ccc(t.last()) > ccc(s.last()) {
            assert(same_proj(t, s)) by { assert forall|k: int| #[trigger] proj(t, k) == proj(s, k) by { assert(proj(s, k) == proj(t, k)); } }
            lemma_last_class(t, s);
        }
        let p = ccc(s.last());
        assert(proj(s, p) == proj(t, p));
        lemma_proj_last(s, p); lemma_proj_last(t, p);
        assert(s.last() == t.last());
        lemma_drop_ordered(s); lemma_drop_ordered(t);
        assert(same_proj(s.drop_last(), t.drop_last())) by {
            assert forall|k: int| #[trigger] proj(s.drop_last(), k) == proj(t.drop_last(), k) by {
                assert(proj(s, k) == proj(t, k));
                if p == 0 || p == k { lemma_proj_last(s, k); lemma_proj_last(t, k); }
            }
        }
        lemma_canon_unique(s.drop_last(), t.drop_last());
        assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last()));
    }
}
pub proof fn lemma_same_proj_sym(s: Seq<char>, t: Seq<char>) requires same_proj(s, t) ensures same_proj(t, s)
{ assert forall|k: int| #[trigger] proj(t, k) == proj(s, k) by { assert(proj(s, k) == proj(t, k)); } }
pub proof fn lemma_same_proj_trans(s: Seq<char>, t: Seq<char>, u: Seq<char>) requires same_proj(s, t), same_proj(t, u) ensures same_proj(s, u)
{ assert forall|k: int| #[trigger] proj(s, k) == proj(u, k) by { assert(proj(s, k) == proj(t, k)); assert(proj(t, k) == proj(u, k)); } }
pub proof fn lemma_same_proj_cat(a: Seq<char>, s: Seq<char>, t: Seq<char>, b: Seq<char>)
    requires same_proj(s, t)
    ensures same_proj(a + s + b, a + t + b)
{
    assert forall|k: int| #[trigger] proj(a + s + b, k) == proj(a + t + b, k) by {
        lemma_proj_add(a, s, k); lemma_proj_add(a + s, b, k); lemma_proj_add(a, t, k); lemma_proj_add(a + t, b, k);
        assert(proj(s, k) == proj(t, k));
    }
}
pub proof fn lemma_perm_unmapped(k: bool, s: Seq<char>, t: Seq<char>)
    requires same_proj(s, t), unmapped(k, s)
    ensures unmapped(k, t)
{
    assert forall|i: int| 0 <= i < t.len() implies !mapped(k, #[trigger] t[i]) by {
        lemma_proj_contains(t, i);
        let q = ccc(t[i]);
        assert(proj(s, q) == proj(t, q));
        let j = choose|j: int| 0 <= j < proj(t, q).len() && proj(t, q)[j] == t[i];
        let m = lemma_proj_sub(s, q, j);
        assert(!mapped(k, s[m]));
    }
}
// ---- C13
/// the decomposition forms are functions of the string
pub proof fn thm_nfd_unique(k: bool, s: Seq<char>, t: Seq<char>, u: Seq<char>)
    requires nf_d(k, s, t), nf_d(k, s, u)
    ensures t == u
{ lemma_same_proj_sym(full(k, s), t); lemma_same_proj_trans(t, full(k, s), u); lemma_canon_unique(t, u); }
/// no mapping applies to them and they are ordered
pub proof fn thm_nfd_done(k: bool, s: Seq<char>, t: Seq<char>)
    requires nf_d(k, s, t)
    ensures unmapped(k, t), no_reorderable(t)
{ lemma_full_done(k, s); lemma_perm_unmapped(k, full(k, s), t); }
/// they are the identity on strings already in that form
pub proof fn thm_nfd_identity(k: bool, s: Seq<char>, t: Seq<char>)
    requires nf_d(k, s, t), unmapped(k, s), no_reorderable(s)
    ensures t == s
{ lemma_full_id(k, s, DEPTH); lemma_canon_unique(s, t); }
/// F(F(s)) = F(s)
pub proof fn thm_nfd_idempotent(k: bool, s: Seq<char>, t: Seq<char>, u: Seq<char>)
    requires nf_d(k, s, t), nf_d(k, t, u)
    ensures u == t
{ thm_nfd_done(k, s, t); thm_nfd_identity(k, t, u); }

// ---- C14, C15: composition keeps the full decomposition
/// unmapped non-starters only
pub open spec fn ns_unmapped(k: bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() && ccc(#[trigger] s[i]) > 0 ==> !mapped(k, s[i]) }
pub proof fn lemma_full_one(k: bool, c: char)
    requires !mapped(k, c)
    ensures full(k, seq![c]) == seq![c]
{ assert(unmapped(k, seq![c])); lemma_full_id(k, seq![c], DEPTH); }
pub proof fn lemma_full_pc(k: bool, p: u32, l: char, c: char)
    requires is_pc(p, l, c)
    ensures full(k, seq![p as char]) == full(k, seq![l]) + full(k, seq![c])
{
    let q = p as char;
    assert(q as u32 == p);
    assert(seq![l, c].len() == 2);
    assert(mapped(k, q));
    lemma_full_step(k, seq![q]); lemma_step_one(k, q);
    assert(seq![l, c] =~= seq![l] + seq![c]);
    lemma_full_cat(k, seq![l], seq![c]);
}
/// a non-starter moves over characters of other non-zero classes
pub proof fn lemma_move(c: char, m: Seq<char>)
    requires m.len() == 0 || ccc(c) > 0, forall|i: int| 0 <= i < m.len() ==> ccc(#[trigger] m[i]) > 0 && ccc(m[i]) != ccc(c)
    ensures same_proj(m + seq![c], seq![c] + m)
    decreases m.len()
{
    if m.len() == 0 { assert(m + seq![c] =~= seq![c] + m); }
    else {
        let d = m.drop_last(); let x = m.last();
        assert forall|i: int| 0 <= i < d.len() implies ccc(#[trigger] d[i]) > 0 && ccc(d[i]) != ccc(c) by { assert(d[i] == m[i]); }
        assert(ccc(m[m.len() - 1]) > 0);
        lemma_move(c, d);
        // m + c = d + x + c ~ d + c + x ~ c + d + x = c + m
        let xc = seq![x, c]; let cx = seq![c, x];
        assert(same_proj(xc, cx)) by { assert forall|k: int| #[trigger] proj(xc, k) == proj(cx, k) by { lemma_proj_two(x, c, k); } }
        let e = Seq::<char>::empty();
        lemma_same_proj_cat(d, seq![x, c], seq![c, x], e);
        assert(d + seq![x, c] + e =~= m + seq![c]);
        assert(d + seq![c, x] + e =~= (d + seq![c]) + seq![x]);
        lemma_same_proj_cat(e, d + seq![c], seq![c] + d, seq![x]);
        assert(e + (d + seq![c]) + seq![x] =~= (d + seq![c]) + seq![x]);
        assert(e + (seq![c] + d) + seq![x] =~= seq![c] + m);
        lemma_same_proj_trans(m + seq![c], (d + seq![c]) + seq![x], seq![c] + m);
    }
}
/// D117 R2 changes neither the full decomposition nor what may be reordered
pub proof fn lemma_merge_full(k: bool, done: Seq<char>, c: char)
    requires combines(done, c), ns_unmapped(k, done), !mapped(k, c)
    ensures ({ let l = last_starter(done); let t = done.update(l, pc(done[l], c)); ns_unmapped(k, t) && same_proj(full(k, t), full(k, done) + seq![c]) })
{
    let l = last_starter(done);
    lemma_last_starter(done);
    let lc = done[l];
    let p = choose|p: u32| is_pc(p, lc, c);
    assert(is_pc(p, lc, c));
    fact_pc(p, lc, c);
    let pch = p as char;
    let t = done.update(l, pch);
    assert(ccc(pch) == 0);
    assert forall|i: int| 0 <= i < t.len() && ccc(#[trigger] t[i]) > 0 implies !mapped(k, t[i]) by { if i != l { assert(t[i] == done[i]); } }
    let a = done.take(l); let m = done.skip(l + 1);
    assert(done =~= (a + seq![lc]) + m);
    assert(t =~= (a + seq![pch]) + m);
    lemma_full_cat(k, a + seq![lc], m); lemma_full_cat(k, a, seq![lc]);
    lemma_full_cat(k, a + seq![pch], m); lemma_full_cat(k, a, seq![pch]);
    assert forall|i: int| 0 <= i < m.len() implies ccc(#[trigger] m[i]) > 0 && ccc(m[i]) < ccc(c) && !mapped(k, m[i]) by { assert(m[i] == done[i + l + 1]); }
    if m.len() > 0 { assert(ccc(m[0]) < ccc(c)); }
    assert(unmapped(k, m));
    lemma_full_id(k, m, DEPTH);
    lemma_full_pc(k, p, lc, c);
    lemma_full_one(k, c);
    lemma_move(c, m);
    lemma_same_proj_sym(m + seq![c], seq![c] + m);
    let x = full(k, a) + full(k, seq![lc]);
    let e = Seq::<char>::empty();
    lemma_same_proj_cat(x, seq![c] + m, m + seq![c], e);
    assert(x + (seq![c] + m) + e =~= full(k, t));
    assert(x + (m + seq![c]) + e =~= full(k, done) + seq![c]);
}
pub proof fn lemma_comp_full(k: bool, done: Seq<char>, rest: Seq<char>)
    requires ns_unmapped(k, done), unmapped(k, rest)
    ensures same_proj(full(k, comp(done, rest)), full(k, done) + rest)
    decreases rest.len()
{
    if rest.len() == 0 { assert(full(k, done) + rest =~= full(k, done)); }
    else {
        let c = rest[0]; let r = rest.skip(1);
        assert(!mapped(k, c));
        assert forall|i: int| 0 <= i < r.len() implies !mapped(k, #[trigger] r[i]) by { assert(r[i] == rest[i + 1]); }
        assert(full(k, done) + rest =~= full(k, done) + seq![c] + r);
        if combines(done, c) {
            let l = last_starter(done); let t = done.update(l, pc(done[l], c));
            lemma_merge_full(k, done, c);
            lemma_comp_full(k, t, r);
            let e = Seq::<char>::empty();
            lemma_same_proj_cat(e, full(k, t), full(k, done) + seq![c], r);
            assert(e + full(k, t) + r =~= full(k, t) + r);
            assert(e + (full(k, done) + seq![c]) + r =~= full(k, done) + rest);
            lemma_same_proj_trans(full(k, comp(done, rest)), full(k, t) + r, full(k, done) + rest);
        } else {
            let t = done.push(c);
            assert(t =~= done + seq![c]);
            lemma_full_cat(k, done, seq![c]); lemma_full_one(k, c);
            assert forall|i: int| 0 <= i < t.len() && ccc(#[trigger] t[i]) > 0 implies !mapped(k, t[i]) by { if i < done.len() { assert(t[i] == done[i]); } }
            lemma_comp_full(k, t, r);
        }
    }
}
/// the full decomposition of a composed string has the projections of the string
pub proof fn lemma_compose_full(k: bool, d: Seq<char>)
    requires unmapped(k, d)
    ensures same_proj(full(k, compose(d)), d)
{
    let e = Seq::<char>::empty();
    lemma_comp_full(k, e, d);
    assert(unmapped(k, e)); lemma_full_id(k, e, DEPTH);
    assert(e + d =~= d);
}
/// NF(K)D(NF(K)C(s)) = NF(K)D(s)
pub proof fn thm_d_of_c(k: bool, s: Seq<char>, d: Seq<char>, c: Seq<char>, u: Seq<char>)
    requires nf_d(k, s, d), nf_c(k, s, c), nf_d(k, c, u)
    ensures u == d
{
    let d2 = choose|d2: Seq<char>| #[trigger] nf_d(k, s, d2) && c == compose(d2);
    thm_nfd_unique(k, s, d, d2);
    thm_nfd_done(k, s, d);
    lemma_compose_full(k, d);
    lemma_same_proj_sym(full(k, c), u);
    lemma_same_proj_trans(u, full(k, c), d);
    lemma_canon_unique(u, d);
}
/// NF(K)C is a function
pub proof fn thm_nfc_unique(k: bool, s: Seq<char>, t: Seq<char>, u: Seq<char>)
    requires nf_c(k, s, t), nf_c(k, s, u)
    ensures t == u
{
    let a = choose|a: Seq<char>| #[trigger] nf_d(k, s, a) && t == compose(a);
    let b = choose|b: Seq<char>| #[trigger] nf_d(k, s, b) && u == compose(b);
    thm_nfd_unique(k, s, a, b);
}
/// NF(K)C is determined by NF(K)D
pub proof fn thm_c_of_d(k: bool, s: Seq<char>, d: Seq<char>, c: Seq<char>)
    requires nf_d(k, s, d), nf_c(k, s, c)
    ensures c == compose(d)
{
    let a = choose|a: Seq<char>| #[trigger] nf_d(k, s, a) && c == compose(a);
    thm_nfd_unique(k, s, a, d);
}
/// NF(K)C(NF(K)C(s)) = NF(K)C(s)
pub proof fn thm_nfc_idempotent(k: bool, s: Seq<char>, c: Seq<char>, u: Seq<char>)
    requires nf_c(k, s, c), nf_c(k, c, u)
    ensures u == c
{
    let a = choose|a: Seq<char>| #[trigger] nf_d(k, s, a) && c == compose(a);
    let b = choose|b: Seq<char>| #[trigger] nf_d(k, c, b) && u == compose(b);
    thm_d_of_c(k, s, a, c, b);
}
/// NFC(NFD(s)) = NFC(s), NFKC(NFKD(s)) = NFKC(s)
pub proof fn thm_c_after_d(k: bool, s: Seq<char>, d: Seq<char>, c: Seq<char>, u: Seq<char>)
    requires nf_d(k, s, d), nf_c(k, s, c), nf_c(k, d, u)
    ensures u == c
{
    let b = choose|b: Seq<char>| #[trigger] nf_d(k, d, b) && u == compose(b);
    thm_nfd_idempotent(k, s, d, b);
    thm_c_of_d(k, s, d, c);
}
/// NFKC(s) = NFC(NFKD(s))
pub proof fn thm_nfkc(s: Seq<char>, d: Seq<char>, c: Seq<char>, u: Seq<char>)
    requires nf_d(true, s, d), nf_c(true, s, c), nf_c(false, d, u)
    ensures u == c
{
    thm_nfd_done(true, s, d);
    assert forall|i: int| 0 <= i < d.len() implies !mapped(false, #[trigger] d[i]) by { assert(!mapped(true, d[i])); }
    let b = choose|b: Seq<char>| #[trigger] nf_d(false, d, b) && u == compose(b);
    thm_nfd_identity(false, d, b);
    thm_c_of_d(true, s, d, c);
}
/// equal NFC exactly when equal NFD
pub proof fn thm_equivalence(k: bool, s: Seq<char>, t: Seq<char>, ds: Seq<char>, dt: Seq<char>, cs: Seq<char>, ct: Seq<char>, u: Seq<char>)
    requires nf_d(k, s, ds), nf_d(k, t, dt), nf_c(k, s, cs), nf_c(k, t, ct), nf_d(k, cs, u)
    ensures cs == ct <==> ds == dt
{
    thm_c_of_d(k, s, ds, cs); thm_c_of_d(k, t, dt, ct);
    thm_d_of_c(k, s, ds, cs, u);
    if cs == ct { thm_d_of_c(k, t, dt, ct, u); }
}
pub open spec fn no_ex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !o_comp_ex(#[trigger] s[i] as u32) }
/// composition-excluded characters are never produced
pub proof fn lemma_comp_no_ex(done: Seq<char>, rest: Seq<char>)
    requires no_ex(done), no_ex(rest)
    ensures no_ex(comp(done, rest))
    decreases rest.len()
{
    if rest.len() > 0 {
        let c = rest[0]; let r = rest.skip(1);
        assert(!o_comp_ex(rest[0] as u32));
        assert(no_ex(r)) by { assert forall|i: int| 0 <= i < r.len() implies !o_comp_ex(#[trigger] r[i] as u32) by { assert(r[i] == rest[i + 1]); } }
        if combines(done, c) {
            let l = last_starter(done);
            lemma_last_starter(done);
            let p = choose|p: u32| is_pc(p, done[l], c);
            assert(is_pc(p, done[l], c));
            assert((p as char) as u32 == p);
            let t = done.update(l, pc(done[l], c));
            fact_pc(p, done[l], c);
            assert(pc(done[l], c) == p as char);
            assert(t[l] == p as char);
            assert(no_ex(t)) by { assert forall|i: int| 0 <= i < t.len() implies !o_comp_ex(#[trigger] t[i] as u32) by { if i != l { assert(t[i] == done[i]); } } }
            lemma_comp_no_ex(t, r);
            assert(comp(done, rest) == comp(t, r));
        } else {
            let t = done.push(c);
            assert(no_ex(t)) by { assert forall|i: int| 0 <= i < t.len() implies !o_comp_ex(#[trigger] t[i] as u32) by { if i < done.len() { assert(t[i] == done[i]); } } }
            lemma_comp_no_ex(t, r);
            assert(comp(done, rest) == comp(t, r));
        }
    } else { assert(comp(done, rest) == done); }
}
pub proof fn thm_no_excluded(k: bool, s: Seq<char>, c: Seq<char>)
    requires nf_c(k, s, c)
    ensures no_ex(c)
{
    let d = choose|d: Seq<char>| #[trigger] nf_d(k, s, d) && c == compose(d);
    thm_nfd_done(k, s, d);
    assert(no_ex(d)) by { assert forall|j: int| 0 <= j < d.len() implies !o_comp_ex(#[trigger] d[j] as u32) by { assert(!mapped(k, d[j])); fact_excluded(d[j]); } }
    lemma_comp_no_ex(Seq::empty(), d);
}
// ---- C15: the compatibility forms do not distinguish canonically equivalent strings
pub proof fn lemma_full_cons(k: bool, s: Seq<char>)
    requires s.len() > 0
    ensures full(k, s) == full(k, s.drop_last()) + full(k, seq![s.last()])
{ assert(s =~= s.drop_last() + seq![s.last()]); lemma_full_cat(k, s.drop_last(), seq![s.last()]); }
pub proof fn lemma_k_step(s: Seq<char>)
    ensures full(true, step(false, s)) == full(true, s)
    decreases s.len()
{
    if s.len() == 0 { assert(step(false, s) =~= s); }
    else {
        let d = s.drop_last(); let c = s.last();
        lemma_k_step(d);
        lemma_full_cat(true, step(false, d), step_c(false, c));
        lemma_full_cons(true, s);
        if mapped(false, c) { lemma_full_step(true, seq![c]); lemma_step_one(true, c); assert(step_c(true, c) == step_c(false, c)); }
    }
}
pub proof fn lemma_k_full_n(s: Seq<char>, n: nat)
    ensures full(true, full_n(false, s, n)) == full(true, s)
    decreases n
{ if n > 0 { lemma_k_step(s); lemma_k_full_n(step(false, s), (n - 1) as nat); } }
/// what is projected away from a string is projected away from its expansion
pub proof fn lemma_proj_full(s: Seq<char>, k: int)
    requires ns_unmapped(true, s)
    ensures proj(full(true, s), k) == proj(full(true, proj(s, k)), k)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); let c = s.last();
        assert forall|i: int| 0 <= i < d.len() && ccc(#[trigger] d[i]) > 0 implies !mapped(true, d[i]) by { assert(d[i] == s[i]); }
        lemma_proj_full(d, k);
        lemma_full_cons(true, s);
        lemma_proj_add(full(true, d), full(true, seq![c]), k);
        if ccc(c) == 0 || ccc(c) == k {
            let p = proj(s, k);
            assert(p.drop_last() =~= proj(d, k));
            lemma_full_cons(true, p);
            lemma_proj_add(full(true, proj(d, k)), full(true, seq![c]), k);
        } else {
            assert(ccc(s[s.len() - 1]) > 0);
            lemma_full_one(true, c);
            assert(seq![c].drop_last() =~= Seq::<char>::empty());
            assert(proj(seq![c].drop_last(), k) =~= Seq::<char>::empty());
            assert(proj(seq![c], k) =~= Seq::<char>::empty());
            assert(proj(full(true, d), k) + Seq::<char>::empty() =~= proj(full(true, d), k));
        }
    }
}
pub proof fn lemma_k_equiv(a: Seq<char>, b: Seq<char>)
    requires same_proj(a, b), unmapped(false, a), unmapped(false, b)
    ensures same_proj(full(true, a), full(true, b))
{
    assert forall|i: int| 0 <= i < a.len() && ccc(#[trigger] a[i]) > 0 implies !mapped(true, a[i]) by { fact_ns(a[i]); assert(!mapped(false, a[i])); }
    assert forall|i: int| 0 <= i < b.len() && ccc(#[trigger] b[i]) > 0 implies !mapped(true, b[i]) by { fact_ns(b[i]); assert(!mapped(false, b[i])); }
    assert forall|k: int| #[trigger] proj(full(true, a), k) == proj(full(true, b), k) by {
        lemma_proj_full(a, k); lemma_proj_full(b, k);
        assert(proj(a, k) == proj(b, k));
    }
}
/// NFKD(t) = NFKD(s) when NFD(t) = NFD(s) up to ordering
pub proof fn lemma_k_same(s: Seq<char>, t: Seq<char>, u: Seq<char>, v: Seq<char>)
    requires same_proj(full(false, s), full(false, t)), nf_d(true, s, u), nf_d(true, t, v)
    ensures u == v
{
    lemma_full_done(false, s); lemma_full_done(false, t);
    lemma_k_equiv(full(false, s), full(false, t));
    lemma_k_full_n(s, DEPTH); lemma_k_full_n(t, DEPTH);
    lemma_same_proj_sym(full(true, s), u);
    lemma_same_proj_trans(u, full(true, s), full(true, t));
    lemma_same_proj_trans(u, full(true, t), v);
    lemma_canon_unique(u, v);
}
/// NFKD(NFD(s)) = NFKD(s), NFKC(NFD(s)) = NFKC(s)
pub proof fn thm_k_of_d(s: Seq<char>, d: Seq<char>, u: Seq<char>, v: Seq<char>)
    requires nf_d(false, s, d), nf_d(true, s, u), nf_d(true, d, v)
    ensures u == v, compose(u) == compose(v)
{
    thm_nfd_done(false, s, d);
    lemma_full_id(false, d, DEPTH);
    lemma_k_same(s, d, u, v);
}
/// NFKD(NFC(s)) = NFKD(s), NFKC(NFC(s)) = NFKC(s)
pub proof fn thm_k_of_c(s: Seq<char>, c: Seq<char>, u: Seq<char>, v: Seq<char>)
    requires nf_c(false, s, c), nf_d(true, s, u), nf_d(true, c, v)
    ensures u == v, compose(u) == compose(v)
{
    let d = choose|d: Seq<char>| #[trigger] nf_d(false, s, d) && c == compose(d);
    thm_nfd_done(false, s, d);
    lemma_compose_full(false, d);
    lemma_same_proj_sym(full(false, c), d);
    lemma_same_proj_trans(full(false, s), d, full(false, c));
    lemma_k_same(s, c, u, v);
}
