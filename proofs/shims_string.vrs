pub assume_specification<'a>[ <String as From<&'a str>>::from ](s: &str) -> (r: String) ensures r@ == s@;
