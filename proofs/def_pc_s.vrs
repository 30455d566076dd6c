pub open spec fn is_scalar(cp: u32) -> bool { cp <= 0x10FFFF && !(0xD800 <= cp <= 0xDFFF) }
