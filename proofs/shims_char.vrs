pub assume_specification[ core::char::from_u32 ](cp: u32) -> (r: Option<char>)
    ensures
        cp <= 0x10FFFF && !(0xD800 <= cp <= 0xDFFF) ==> r is Some && r->0 as u32 == cp && r->0 == cp as char,
        !(cp <= 0x10FFFF && !(0xD800 <= cp <= 0xDFFF)) ==> r is None,
;
