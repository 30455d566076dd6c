/// x == "" for what the code compares with the empty string
pub trait StrView { spec fn sv(&self) -> Seq<char>; fn sv_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0); }
impl StrView for String { open spec fn sv(&self) -> Seq<char> { self@ } fn sv_empty(&self) -> (r: bool) { self.is_empty() } }
impl StrView for str { open spec fn sv(&self) -> Seq<char> { self@ } fn sv_empty(&self) -> (r: bool) { self.is_empty() } }
impl<'a, T: StrView + ?Sized> StrView for &'a T { open spec fn sv(&self) -> Seq<char> { (*self).sv() } fn sv_empty(&self) -> (r: bool) { (*self).sv_empty() } }
pub fn str_is_empty<T: StrView + ?Sized>(s: &T) -> (r: bool) ensures r == (s.sv().len() == 0) { s.sv_empty() }
