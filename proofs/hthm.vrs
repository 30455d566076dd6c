// C11, on strings
proof fn lemma_hmap(s: u32)
    requires syl(s)
    ensures h_map(s).len() == 2, lv(s) ==> h_map(s)[0] == h_l(s) && h_map(s)[1] == h_v(s), lvt(s) ==> h_map(s)[0] == h_lv(s) && h_map(s)[1] == h_t(s),
        o_dm(s).len() == 2, o_dm(s)[0] == h_map(s)[0] as char, o_dm(s)[1] == h_map(s)[1] as char, o_dm(s) == seq![h_map(s)[0] as char, h_map(s)[1] as char],
{ fact_syl(s); assert(o_dm(s) =~= seq![h_map(s)[0] as char, h_map(s)[1] as char]); }
proof fn lemma_jamo_full(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> 0x1100 <= #[trigger] s[i] as u32 <= 0x11FF
    ensures full(false, s) == s, unmapped(false, s), no_reorderable(s)
{
    assert forall|i: int| 0 <= i < s.len() implies !mapped(false, #[trigger] s[i]) && ccc(s[i]) == 0 by { fact_jamo(s[i] as u32); }
    lemma_full_id(false, s, DEPTH);
}
/// the full canonical decomposition of a syllable
proof fn thm_h_full(s: char)
    requires syl(s as u32)
    ensures full(false, seq![s]) == chars_of(h_full(s as u32))
{
    let n = s as u32;
    thm_h_inverse(n); lemma_hmap(n); fact_syl(n);
    let a = o_dm(n)[0]; let b = o_dm(n)[1];
    lemma_step_one(false, s); lemma_full_step(false, seq![s]);
    assert(full(false, seq![s]) == full(false, o_dm(n)));
    if lv(n) {
        lemma_jamo_full(o_dm(n));
        assert(o_dm(n) =~= chars_of(h_full(n)));
    } else {
        let m = h_lv(n);
        assert(o_dm(n) =~= seq![a] + seq![b]);
        lemma_full_cat(false, seq![a], seq![b]);
        lemma_jamo_full(seq![b]);
        lemma_hmap(m); fact_syl(m); thm_h_inverse(m);
        lemma_step_one(false, a); lemma_full_step(false, seq![a]);
        lemma_jamo_full(o_dm(m));
        assert(full(false, seq![s]) == o_dm(m) + seq![b]);
        assert(o_dm(m) + seq![b] =~= chars_of(h_full(n)));
    }
}
/// NFD of a syllable is L V (T)
pub proof fn thm_h_nfd(s: char, t: Seq<char>)
    requires syl(s as u32), nf_d(false, seq![s], t)
    ensures t == chars_of(h_full(s as u32))
{
    thm_h_full(s); thm_h_inverse(s as u32);
    let f = chars_of(h_full(s as u32));
    lemma_jamo_full(f);
    lemma_canon_unique(f, t);
}
/// the pairs that compose to a syllable: exactly <L,V> and <LV,T>
pub proof fn thm_h_pair(a: char, b: char)
    ensures
        is_l(a as u32) && is_v(b as u32) ==> has_pc(a, b) && pc(a, b) == h_s(a as u32, b as u32, 0) as char,
        lv(a as u32) && is_t(b as u32) ==> has_pc(a, b) && pc(a, b) == (a as u32 + (b as u32 - 0x11A7)) as char,
        has_pc(a, b) && (jamo(a as u32) || jamo(b as u32) || syl(a as u32) || syl(b as u32)) ==> is_l(a as u32) && is_v(b as u32) || lv(a as u32) && is_t(b as u32),
{
    let (x, y) = (a as u32, b as u32);
    if is_l(x) && is_v(y) { let s = h_s(x, y, 0); thm_h_inverse2(x, y, 0); lemma_hmap(s); fact_syl(s); assert(o_dm(s) =~= seq![a, b]); assert(is_pc(s, a, b)); fact_pc(s, a, b); }
    if lv(x) && is_t(y) { let s = (x + (y - 0x11A7)) as u32; assert(lvt(s) && h_lv(s) == x && h_t(s) == y); lemma_hmap(s); fact_syl(s); assert(o_dm(s) =~= seq![a, b]); assert(is_pc(s, a, b)); fact_pc(s, a, b); }
    if has_pc(a, b) && (jamo(x) || jamo(y) || syl(x) || syl(y)) {
        let p = choose|p: u32| is_pc(p, a, b);
        fact_h_only(p, a, b); lemma_hmap(p); thm_h_inverse(p);
        assert(seq![a, b].len() == 2 && seq![a, b][0] == a && seq![a, b][1] == b);
    }
}
proof fn lemma_compose2(a: char, b: char)
    requires ccc(a) == 0
    ensures compose(seq![a, b]) == (if has_pc(a, b) { seq![pc(a, b)] } else { seq![a, b] })
{
    let s = seq![a, b];
    lemma_compose_start(s);
    let d = s.take(1); let r = s.skip(1);
    assert(d =~= seq![a]); assert(r =~= seq![b]);
    assert(last_starter(d) == 0) by { lemma_last_starter_is(d, 0); }
    assert(!blocked_from(d, 0, b));
    assert(r.skip(1).len() == 0);
    assert(combines(d, b) == has_pc(a, b));
    if has_pc(a, b) { assert(d.update(0, pc(a, b)) =~= seq![pc(a, b)]); assert(comp(d, r) == comp(d.update(0, pc(a, b)), r.skip(1))); assert(comp(d.update(0, pc(a, b)), r.skip(1)) == d.update(0, pc(a, b))); }
    else { assert(d.push(b) =~= s); assert(comp(d, r) == comp(d.push(b), r.skip(1))); assert(comp(d.push(b), r.skip(1)) == d.push(b)); }
}
proof fn lemma_compose3(a: char, b: char, c: char)
    requires ccc(a) == 0, has_pc(a, b)
    ensures compose(seq![a, b, c]) == compose(seq![pc(a, b), c])
{
    let s = seq![a, b, c]; let p = pc(a, b); let q = seq![p, c];
    lemma_compose_start(s); lemma_compose_start(q);
    let d = s.take(1); let r = s.skip(1);
    assert(d =~= seq![a]); assert(r =~= seq![b, c]);
    assert(last_starter(d) == 0) by { lemma_last_starter_is(d, 0); }
    assert(!blocked_from(d, 0, b));
    assert(combines(d, b));
    assert(comp(d, r) == comp(d.update(0, p), r.skip(1)));
    assert(d.update(0, p) =~= q.take(1)); assert(r.skip(1) =~= q.skip(1));
}
/// composing the decomposition of a syllable gives it back
pub proof fn thm_h_back(s: char)
    requires syl(s as u32)
    ensures compose(chars_of(h_full(s as u32))) == seq![s]
{
    let n = s as u32;
    thm_h_inverse(n);
    let f = chars_of(h_full(n));
    let (l, v) = (h_l(n) as char, h_v(n) as char);
    fact_jamo(h_l(n));
    thm_h_pair(l, v); 
    lemma_compose2(l, v);
    if lv(n) { assert(f =~= seq![l, v]); } else {
        let t = h_t(n) as char; let m = h_lv(n) as char;
        assert(f =~= seq![l, v, t]);
        assert(h_s(h_l(n), h_v(n), 0) == h_lv(n)) by { thm_h_inverse(h_lv(n)); }
        thm_h_pair(m, t); fact_syl(h_lv(n));
        lemma_compose3(l, v, t); lemma_compose2(m, t);
    }
}
proof fn lemma_nfc_of(x: Seq<char>, f: Seq<char>, u: Seq<char>)
    requires full(false, x) == f, no_reorderable(f), nf_c(false, x, u)
    ensures u == compose(f)
{ let d = choose|d: Seq<char>| #[trigger] nf_d(false, x, d) && u == compose(d); lemma_canon_unique(f, d); }
proof fn lemma_h2(l: char, v: char)
    requires is_l(l as u32), is_v(v as u32)
    ensures full(false, seq![l, v]) == seq![l, v], no_reorderable(seq![l, v]), compose(seq![l, v]) == seq![h_s(l as u32, v as u32, 0) as char],
        full(false, seq![h_s(l as u32, v as u32, 0) as char]) == seq![l, v],
{
    let s = h_s(l as u32, v as u32, 0); let x = seq![l, v];
    thm_h_inverse2(l as u32, v as u32, 0);
    assert(chars_of(h_full(s)) =~= x);
    thm_h_back(s as char); lemma_jamo_full(x); thm_h_full(s as char);
}
proof fn lemma_h3(l: char, v: char, t: char)
    requires is_l(l as u32), is_v(v as u32), is_t(t as u32)
    ensures full(false, seq![l, v, t]) == seq![l, v, t], no_reorderable(seq![l, v, t]), compose(seq![l, v, t]) == seq![h_s(l as u32, v as u32, t as u32) as char],
        full(false, seq![h_s(l as u32, v as u32, 0) as char, t]) == seq![l, v, t],
{
    let s = h_s(l as u32, v as u32, t as u32); let x = seq![l, v, t]; let w = h_s(l as u32, v as u32, 0) as char;
    thm_h_inverse2(l as u32, v as u32, t as u32);
    assert(chars_of(h_full(s)) =~= x);
    thm_h_back(s as char); lemma_jamo_full(x);
    lemma_h2(l, v); lemma_full_cat(false, seq![w], seq![t]); lemma_jamo_full(seq![t]);
    assert(seq![w, t] =~= seq![w] + seq![t]); assert(seq![l, v] + seq![t] =~= x);
}
/// NFC of <L,V>, <LV,T> and <L,V,T>
pub proof fn thm_h_nfc(l: char, v: char, t: char, u: Seq<char>)
    requires is_l(l as u32), is_v(v as u32), is_t(t as u32)
    ensures nf_c(false, seq![l, v], u) ==> u == seq![h_s(l as u32, v as u32, 0) as char],
        nf_c(false, seq![l, v, t], u) ==> u == seq![h_s(l as u32, v as u32, t as u32) as char],
        nf_c(false, seq![h_s(l as u32, v as u32, 0) as char, t], u) ==> u == seq![h_s(l as u32, v as u32, t as u32) as char],
{
    lemma_h2(l, v); lemma_h3(l, v, t);
    let w = h_s(l as u32, v as u32, 0) as char;
    if nf_c(false, seq![l, v], u) { lemma_nfc_of(seq![l, v], seq![l, v], u); }
    if nf_c(false, seq![l, v, t], u) { lemma_nfc_of(seq![l, v, t], seq![l, v, t], u); }
    if nf_c(false, seq![w, t], u) { lemma_nfc_of(seq![w, t], seq![l, v, t], u); }
}
