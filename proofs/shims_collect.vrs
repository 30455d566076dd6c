// std iterators: `x.chars().collect()` and `x.iter().collect()` for strings and vectors of characters (assumed)
pub trait FromCharSeq: Sized { spec fn fcs(&self) -> Seq<char>; }
impl FromCharSeq for Vec<char> { open spec fn fcs(&self) -> Seq<char> { self@ } }
impl FromCharSeq for String { open spec fn fcs(&self) -> Seq<char> { self@ } }
pub trait CharSeq { spec fn cs(&self) -> Seq<char>; fn collect_chars<T: FromCharSeq>(&self) -> (r: T) ensures r.fcs() == self.cs(); }
impl CharSeq for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl CharSeq for String { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl CharSeq for Vec<char> { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl CharSeq for [char] { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl<const N: usize> CharSeq for [char; N] { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl<'a> CharSeq for &'a str { open spec fn cs(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl<'a> CharSeq for &'a String { open spec fn cs(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl<'a> CharSeq for &'a Vec<char> { open spec fn cs(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
impl<'a> CharSeq for &'a [char] { open spec fn cs(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn collect_chars<T: FromCharSeq>(&self) -> (r: T) { unimplemented!() } }
/// `v.extend(..)` with the characters of a text or list
pub trait ExtendChars: FromCharSeq { fn extend_chars<S: CharSeq + ?Sized>(&mut self, s: &S) ensures final(self).fcs() == old(self).fcs() + s.cs(); }
impl ExtendChars for Vec<char> { #[verifier::external_body] fn extend_chars<S: CharSeq + ?Sized>(&mut self, s: &S) { unimplemented!() } }
impl ExtendChars for String { #[verifier::external_body] fn extend_chars<S: CharSeq + ?Sized>(&mut self, s: &S) { unimplemented!() } }
