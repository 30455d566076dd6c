// Unicode section 3.12: the arithmetic of the Hangul syllables
pub open spec fn syl(cp: u32) -> bool { 0xAC00 <= cp <= 0xD7A3 }
pub open spec fn lv(cp: u32) -> bool { syl(cp) && (cp - 0xAC00) % 28 == 0 }
pub open spec fn lvt(cp: u32) -> bool { syl(cp) && (cp - 0xAC00) % 28 != 0 }
pub open spec fn h_l(cp: u32) -> u32 { (0x1100 + (cp - 0xAC00) / 588) as u32 }
pub open spec fn h_v(cp: u32) -> u32 { (0x1161 + (cp - 0xAC00) % 588 / 28) as u32 }
pub open spec fn h_t(cp: u32) -> u32 { (0x11A7 + (cp - 0xAC00) % 28) as u32 }
pub open spec fn h_lv(cp: u32) -> u32 { (cp - (cp - 0xAC00) % 28) as u32 }
pub open spec fn is_l(c: u32) -> bool { 0x1100 <= c <= 0x1112 }
pub open spec fn is_v(c: u32) -> bool { 0x1161 <= c <= 0x1175 }
pub open spec fn is_t(c: u32) -> bool { 0x11A8 <= c <= 0x11C2 }
pub open spec fn h_s(l: u32, v: u32, t: u32) -> u32 { (0xAC00 + (l - 0x1100) * 588 + (v - 0x1161) * 28 + (if t == 0 { 0 } else { t - 0x11A7 })) as u32 }
/// the decomposition mapping of a syllable: <L,V> or <LV,T>
pub open spec fn h_map(cp: u32) -> Seq<u32> { if lv(cp) { seq![h_l(cp), h_v(cp)] } else if lvt(cp) { seq![h_lv(cp), h_t(cp)] } else { Seq::empty() } }
/// the full decomposition of a syllable: <L,V> or <L,V,T>
pub open spec fn h_full(cp: u32) -> Seq<u32> { if (cp - 0xAC00) % 28 == 0 { seq![h_l(cp), h_v(cp)] } else { seq![h_l(cp), h_v(cp), h_t(cp)] } }

pub open spec fn jamo(c: u32) -> bool { 0x1100 <= c <= 0x11FF || 0xA960 <= c <= 0xA97F || 0xD7B0 <= c <= 0xD7FF }
/// tables hold code points; the strings they stand for
pub open spec fn chars_of(s: Seq<u32>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// decomposition followed by composition, and composition followed by decomposition, give back what was there
proof fn thm_h_inverse(s: u32)
    requires syl(s)
    ensures is_l(h_l(s)), is_v(h_v(s)), lvt(s) ==> is_t(h_t(s)), lv(h_lv(s)),
        lv(s) ==> h_s(h_l(s), h_v(s), 0) == s,
        lvt(s) ==> h_s(h_l(s), h_v(s), h_t(s)) == s && h_lv(s) + (h_t(s) - 0x11A7) == s && h_l(h_lv(s)) == h_l(s) && h_v(h_lv(s)) == h_v(s),
{ }
proof fn thm_h_inverse2(l: u32, v: u32, t: u32)
    requires is_l(l), is_v(v), t == 0 || is_t(t)
    ensures syl(h_s(l, v, t)), h_l(h_s(l, v, t)) == l, h_v(h_s(l, v, t)) == v, t == 0 ==> lv(h_s(l, v, t)), t != 0 ==> lvt(h_s(l, v, t)) && h_t(h_s(l, v, t)) == t && h_lv(h_s(l, v, t)) == h_s(l, v, 0),
{
    assert(h_s(l, v, t) <= 0xD7A3) by (nonlinear_arith) requires is_l(l), is_v(v), t == 0 || is_t(t);
}
