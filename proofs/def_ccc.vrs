/// the combining class as a number
pub open spec fn ccc(c: char) -> int { o_ccc(c as u32) as u8 as int }
