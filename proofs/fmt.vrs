/// the characters written so far
pub uninterp spec fn written(f: &std::fmt::Formatter) -> Seq<char>;
#[verifier::external_body] pub fn fmt_write(f: &mut std::fmt::Formatter<'_>, s: String) -> (r: std::fmt::Result)
    ensures r is Ok ==> written(final(f)) == written(old(f)) + s@ { unimplemented!() }
pub assume_specification<'a>[ std::fmt::Formatter::<'a>::write_str ](f: &mut std::fmt::Formatter<'a>, s: &str) -> (r: std::fmt::Result)
    ensures r is Ok ==> written(final(f)) == written(old(f)) + s@;
