// upper-case hexadecimal
pub open spec fn hexd(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' } else if d == 10 { 'A' } else if d == 11 { 'B' } else if d == 12 { 'C' } else if d == 13 { 'D' } else if d == 14 { 'E' } else { 'F' } }
pub open spec fn hex(n: nat) -> Seq<char> decreases n { if n < 16 { seq![hexd(n as int)] } else { hex(n / 16).push(hexd((n % 16) as int)) } }
pub open spec fn pad4(s: Seq<char>) -> Seq<char> decreases 4 - s.len() { if s.len() >= 4 { s } else { pad4(seq!['0'] + s) } }
/// at least four digits, no superfluous leading zeros
pub open spec fn hex4(n: nat) -> Seq<char> { pad4(hex(n)) }
/// decimal, no superfluous leading zeros
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![hexd(n as int)] } else { dec(n / 10).push(hexd((n % 10) as int)) } }
/// what {}, {:04X} and {:X} (kinds 0, 1, 2) write for a value
pub trait Show { spec fn shows(&self, kind: u8) -> bool; spec fn show(&self, kind: u8) -> Seq<char>; }
impl Show for u32 {
    open spec fn shows(&self, kind: u8) -> bool { kind <= 2 }
    open spec fn show(&self, kind: u8) -> Seq<char> { if kind == 0 { dec(*self as nat) } else if kind == 1 { hex4(*self as nat) } else { hex(*self as nat) } }
}
impl<'a> Show for &'a u32 {
    open spec fn shows(&self, kind: u8) -> bool { kind <= 2 }
    open spec fn show(&self, kind: u8) -> Seq<char> { (**self).show(kind) }
}
impl<'a> Show for &'a str { open spec fn shows(&self, kind: u8) -> bool { kind == 0 } open spec fn show(&self, kind: u8) -> Seq<char> { (*self)@ } }
impl Show for String { open spec fn shows(&self, kind: u8) -> bool { kind == 0 } open spec fn show(&self, kind: u8) -> Seq<char> { self@ } }
impl<'a> Show for &'a String { open spec fn shows(&self, kind: u8) -> bool { kind == 0 } open spec fn show(&self, kind: u8) -> Seq<char> { (*self)@ } }
impl Show for char { open spec fn shows(&self, kind: u8) -> bool { kind == 0 } open spec fn show(&self, kind: u8) -> Seq<char> { seq![*self] } }
/// to_string, which writes what {} writes
pub trait ShowString: Show { fn show_string(&self) -> (r: String) requires self.shows(0) ensures r@ == self.show(0); }
impl<T: Show> ShowString for T { #[verifier::external_body] fn show_string(&self) -> (r: String) { unimplemented!() } }
/// format! as the extractor writes it
#[verifier::external_body] pub fn fmt_first(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn fmt_lit(a: String, s: &str) -> (r: String) ensures r@ == a@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn fmt_show<T: Show>(kind: u8, v: &T) -> (r: String) requires v.shows(kind) ensures r@ == v.show(kind) { unimplemented!() }
#[verifier::external_body] pub fn fmt_arg<T: Show>(a: String, kind: u8, v: &T) -> (r: String) requires v.shows(kind) ensures r@ == a@ + v.show(kind) { unimplemented!() }
pub mod hexl { use vstd::prelude::*;
pub broadcast proof fn lemma_push1(a: Seq<char>, c: char) ensures #[trigger] (a + seq![c]) == a.push(c) { assert(a + seq![c] =~= a.push(c)); }
pub broadcast proof fn lemma_seq1(c: char) ensures #[trigger] seq![c] == Seq::<char>::empty().push(c) { assert(seq![c] =~= Seq::<char>::empty().push(c)); }
}
