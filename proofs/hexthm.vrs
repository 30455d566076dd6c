/// hexd inverted
pub open spec fn val(c: char) -> nat { if '0' <= c && c <= '9' { (c as u32 - 48) as nat } else { (c as u32 - 55) as nat } }
pub open spec fn unhex(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { unhex(s.drop_last()) * 16 + val(s.last()) } }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' || 'A' <= s[i] && s[i] <= 'F' }
/// what hex writes are the upper-case hexadecimal digits of the number, without leading zeros
proof fn thm_hex(n: nat)
    ensures unhex(hex(n)) == n, digits(hex(n)), hex(n).len() >= 1, n > 0 ==> hex(n)[0] != '0'
    decreases n
{
    if n < 16 { assert(seq![hexd(n as int)].drop_last() =~= Seq::<char>::empty()); assert(seq![hexd(n as int)].last() == hexd(n as int)); assert(unhex(Seq::<char>::empty()) == 0); }
    else { thm_hex(n / 16); assert(hex(n).drop_last() =~= hex(n / 16)); assert(hex(n)[0] == hex(n / 16)[0]); }
}
proof fn lemma_zero(s: Seq<char>)
    ensures unhex(seq!['0'] + s) == unhex(s)
    decreases s.len()
{
    let z = seq!['0'] + s;
    if s.len() == 0 { assert(z.drop_last() =~= Seq::<char>::empty()); assert(z.last() == '0'); assert(unhex(Seq::<char>::empty()) == 0); assert(s =~= Seq::<char>::empty()); }
    else { assert(z.drop_last() =~= seq!['0'] + s.drop_last()); assert(z.last() == s.last()); lemma_zero(s.drop_last()); }
}
proof fn lemma_pad(s: Seq<char>)
    requires digits(s)
    ensures unhex(pad4(s)) == unhex(s), digits(pad4(s)), pad4(s).len() >= 4, s.len() >= 4 ==> pad4(s) == s, s.len() < 4 ==> pad4(s).len() == 4,
    decreases 4 - s.len()
{ if s.len() < 4 { lemma_zero(s); lemma_pad(seq!['0'] + s); } }
/// C07: U+ is followed by at least four digits, with a leading zero only to reach four, that denote the number (so different code points print differently)
proof fn thm_hex4(n: nat)
    ensures unhex(hex4(n)) == n, digits(hex4(n)), hex4(n).len() >= 4, hex4(n).len() > 4 ==> hex4(n)[0] != '0'
{ thm_hex(n); lemma_pad(hex(n)); }
