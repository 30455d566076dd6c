// C05: identifiers are closed under the four normalization forms
pub open spec fn idc(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> o_xidc(#[trigger] s[i] as u32) }
/// UAX #31 default identifier: XID_Start XID_Continue*
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && o_xids(s[0] as u32) && idc(s) }

proof fn lemma_id_step(k: bool, s: Seq<char>)
    ensures idc(s) ==> idc(step(k, s)), ident(s) ==> ident(step(k, s))
    decreases s.len()
{
    if s.len() > 0 {
        let (a, c) = (s.drop_last(), s.last());
        lemma_id_step(k, a);
        fact_id(c);
        let (u, v) = (step(k, a), step_c(k, c));
        let t = u + v;
        assert(step(k, s) == t);
        if idc(s) {
            assert(idc(a)) by { assert forall|i: int| 0 <= i < a.len() implies o_xidc(#[trigger] a[i] as u32) by { assert(a[i] == s[i]); } }
            assert(o_xidc(s[s.len() - 1] as u32));
            assert forall|i: int| 0 <= i < t.len() implies o_xidc(#[trigger] t[i] as u32) by {
                if i < u.len() { assert(t[i] == u[i]); } else { assert(t[i] == v[i - u.len()]); }
            }
        }
        if ident(s) {
            if a.len() > 0 { assert(a[0] == s[0]); assert(ident(a)); assert(t[0] == u[0]); }
            else { assert(u.len() == 0); assert(v.len() > 0); assert(t[0] == v[0]); assert(s[0] == c); }
        }
    }
}
proof fn lemma_id_full(k: bool, s: Seq<char>, n: nat)
    requires ident(s)
    ensures ident(full_n(k, s, n))
    decreases n
{ if n > 0 { lemma_id_step(k, s); lemma_id_full(k, step(k, s), (n - 1) as nat); } }
/// NFD and NFKD of an identifier are identifiers
pub proof fn thm_ident_d(k: bool, s: Seq<char>, t: Seq<char>)
    requires ident(s), nf_d(k, s, t)
    ensures ident(t)
{
    let f = full(k, s);
    lemma_id_full(k, s, DEPTH);
    assert(ident(f));
    fact_id(f[0]);
    assert(ccc(f[0]) == 0);
    assert(f[0] == t[0]);
    assert forall|i: int| 0 <= i < t.len() implies o_xidc(#[trigger] t[i] as u32) by {
        lemma_proj_contains(t, i);
        let q = ccc(t[i]);
        assert(proj(f, q) == proj(t, q));
        let j = choose|j: int| 0 <= j < proj(t, q).len() && proj(t, q)[j] == t[i];
        let m = lemma_proj_sub(f, q, j);
        assert(o_xidc(f[m] as u32));
    }
}
proof fn lemma_id_comp(done: Seq<char>, rest: Seq<char>)
    requires idc(done), idc(rest), done.len() > 0 ==> ident(done), done.len() == 0 ==> ident(rest)
    ensures ident(comp(done, rest))
    decreases rest.len()
{
    if rest.len() > 0 {
        let c = rest[0]; let r = rest.skip(1);
        assert(o_xidc(rest[0] as u32));
        assert(idc(r)) by { assert forall|i: int| 0 <= i < r.len() implies o_xidc(#[trigger] r[i] as u32) by { assert(r[i] == rest[i + 1]); } }
        if combines(done, c) {
            let l = last_starter(done);
            lemma_last_starter(done);
            let p = choose|p: u32| is_pc(p, done[l], c);
            assert(is_pc(p, done[l], c));
            assert((p as char) as u32 == p);
            assert(o_xidc(done[l] as u32));
            fact_id_pc(p, done[l], c);
            let t = done.update(l, pc(done[l], c));
            assert(pc(done[l], c) == p as char);
            assert(t[l] == p as char);
            assert forall|i: int| 0 <= i < t.len() implies o_xidc(#[trigger] t[i] as u32) by { if i != l { assert(t[i] == done[i]); } }
            if l > 0 { assert(t[0] == done[0]); }
            assert(ident(t));
            lemma_id_comp(t, r);
            assert(comp(done, rest) == comp(t, r));
        } else {
            let t = done.push(c);
            assert forall|i: int| 0 <= i < t.len() implies o_xidc(#[trigger] t[i] as u32) by { if i < done.len() { assert(t[i] == done[i]); } }
            if done.len() > 0 { assert(t[0] == done[0]); } else { assert(t[0] == c); }
            lemma_id_comp(t, r);
            assert(comp(done, rest) == comp(t, r));
        }
    } else { assert(comp(done, rest) == done); }
}
/// NFC and NFKC of an identifier are identifiers
pub proof fn thm_ident_c(k: bool, s: Seq<char>, t: Seq<char>)
    requires ident(s), nf_c(k, s, t)
    ensures ident(t)
{
    let d = choose|d: Seq<char>| #[trigger] nf_d(k, s, d) && t == compose(d);
    thm_ident_d(k, s, d);
    lemma_id_comp(Seq::empty(), d);
}
