// C20: major.minor.update
pub open spec fn ver(a: nat, b: nat, c: nat) -> Seq<char> { dec(a) + "."@ + dec(b) + "."@ + dec(c) }
pub open spec fn undec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { undec(s.drop_last()) * 10 + (s.last() as u32 - 48) as nat } }
pub open spec fn decd(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
/// what dec writes are the decimal digits of the number, without leading zeros
proof fn thm_dec(n: nat)
    ensures undec(dec(n)) == n, decd(dec(n)), dec(n).len() >= 1, n > 0 ==> dec(n)[0] != '0', n == 0 ==> dec(n) == seq!['0']
    decreases n
{
    if n < 10 { assert(seq![hexd(n as int)].drop_last() =~= Seq::<char>::empty()); assert(seq![hexd(n as int)].last() == hexd(n as int)); assert(undec(Seq::<char>::empty()) == 0); }
    else { thm_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(n)[0] == dec(n / 10)[0]); }
}
proof fn lemma_dot(a: Seq<char>, b: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires decd(a), decd(b), a + "."@ + p == b + "."@ + q
    ensures a == b, p == q
{
    reveal_strlit(".");
    let (s, t) = (a + "."@ + p, b + "."@ + q);
    let (n, m) = (a.len() as int, b.len() as int);
    assert(s[n] == '.'); assert(t[m] == '.');
    if n < m { assert(t[n] == b[n]); }
    if m < n { assert(s[m] == a[m]); }
    assert(a =~= s.take(n)); assert(b =~= t.take(n));
    assert(p =~= s.skip(n + 1)); assert(q =~= t.skip(n + 1));
}
/// versions that print alike are equal
pub proof fn thm_version(a: nat, b: nat, c: nat, x: nat, y: nat, z: nat)
    requires ver(a, b, c) == ver(x, y, z)
    ensures a == x, b == y, c == z
{
    thm_dec(a); thm_dec(b); thm_dec(c); thm_dec(x); thm_dec(y); thm_dec(z);
    assert(ver(a, b, c) =~= dec(a) + "."@ + (dec(b) + "."@ + dec(c)));
    assert(ver(x, y, z) =~= dec(x) + "."@ + (dec(y) + "."@ + dec(z)));
    lemma_dot(dec(a), dec(x), dec(b) + "."@ + dec(c), dec(y) + "."@ + dec(z));
    lemma_dot(dec(b), dec(y), dec(c), dec(z));
}
