"""Planted bugs: descriptions from which tools/seed.py regenerates /verif/seeded/<id>/ (never applied to /repo itself)."""
R = r'''
'''
SEEDS = [
 dict(id="b01-order-passes", property="C12", edits=[("unicode/normalization.rs", "    while last_idx > 0 {", "    while last_idx > 0 && last_idx + 24 > sequence.len() {")],
  needs="a string longer than 24 characters in which a combining mark has to move left over more than 24 others", breaks="canonical ordering leaves reorderable pairs in long runs of marks",
  demo=r'''    let s: String = std::iter::once('a').chain(std::iter::repeat('\u{0301}').take(40)).chain(std::iter::once('\u{0323}')).collect();
    let t = s.to_nfd();
    assert_eq!(t.chars().nth(1), Some('\u{0323}'));
    assert_eq!(t.chars().count(), 42);'''),
 dict(id="b02-decomp-cutoff", property="C13", edits=[("unicode/normalization.rs", "    if count == 0 {\n        return decomposed;\n    }\n    canonical_decomposition(decomposed)", "    if count <= decomposed.len() / 128 {\n        return decomposed;\n    }\n    canonical_decomposition(decomposed)")],
  needs="a string of at least 128 characters in which at most one in 128 is decomposed and its mapping decomposes further", breaks="NFD of long strings is not fully expanded",
  demo=r'''    let s = "x".repeat(150) + "\u{212B}";
    assert_eq!(s.to_nfd(), "x".repeat(150) + "A\u{030A}");'''),
 dict(id="b03-blocked-signed", property="C14", edits=[("unicode/normalization.rs", "        || sequence[last_i - 1].ccc() as u8 >= sequence[last_i].ccc() as u8", "        || sequence[last_i - 1].ccc() as i8 >= sequence[last_i].ccc() as i8")],
  needs="a mark of class below 128 between a starter and a mark of class 128 or more that composes with it", breaks="marks are taken to be blocked although they are not (classes compared as signed bytes)",
  demo=r'''    assert_eq!("a\u{0334}\u{0301}".to_nfc(), "\u{00E1}\u{0334}");'''),
 dict(id="b04-hangul-tbase", property="C11", edits=[("unicode/ucd/dm.rs", "        && (chars[0].hst() == Hst::LV\n            && (0x11A8..=0x11C2)", "        && (chars[0].hst() == Hst::LV\n            && (0x11A7..=0x11C2)")],
  needs="an LV syllable followed by U+11A7 HANGUL JUNGSEONG O-YAE's neighbour TBase", breaks="<LV, U+11A7> composes (the vowel U+11A7 disappears)",
  demo=r'''    assert_eq!("\u{AC00}\u{11A7}".to_nfc(), "\u{AC00}\u{11A7}");
    assert_eq!("\u{AC00}\u{11A8}".to_nfc(), "\u{AC01}");'''),
 dict(id="b05-no-progress", property="C16", edits=[("unicode.rs", "            self.slice = &tmp[self.slice.len()..];", "            self.slice = &tmp[tmp.trim_end_matches('\\u{3000}').len()..];")],
  needs="a text that ends with U+3000 as a cluster of its own", breaks="the iterator returns the last cluster for ever",
  demo=r'''    let v: Vec<&str> = "a\u{3000}".break_graphemes().take(10).collect();
    assert_eq!(v, vec!["a", "\u{3000}"]);'''),
 dict(id="b06-gb9c-oriya", property="C17", edits=[("unicode/ucd/derived_props.rs", "Sc::Orya, Sc::Telu];", "Sc::Orya, Sc::Taml];")],
  needs="a conjunct in the Telugu script", breaks="Telugu conjuncts are broken after the virama",
  demo=r'''    let v: Vec<&str> = "\u{0C15}\u{0C4D}\u{0C15}".break_graphemes().collect();
    assert_eq!(v, vec!["\u{0C15}\u{0C4D}\u{0C15}"]);'''),
 dict(id="b07-wb-e01ff", property="C01", edits=[("unicode/ucd/wb.rs", "Wb::XX, Wb::XX,\n    ],\n];\n\npub(crate) fn wb", "Wb::XX, Wb::Extend,\n    ],\n];\n\npub(crate) fn wb")],
  needs="querying wb of code points U+xxFF-like ends of the last block (U+E01FF)", breaks="an unassigned code point gets Word_Break=Extend",
  demo=r'''    let c = CodePoint::new(0xE01FF).unwrap();
    assert!(c.wb() == Wb::XX);'''),
 dict(id="b08-khitan-end", property="C08", edits=[("unicode/ucd/na.rs", "0x18B00..0x18CD5 + 1", "0x18B00..0x18CD6 + 1")],
  needs="the unassigned code point U+18CD6", breaks="an unassigned code point has a name",
  demo=r'''    assert_eq!(CodePoint::new(0x18CD6).unwrap().na(), "");
    assert_eq!(CodePoint::new(0x18CD5).unwrap().na(), "KHITAN SMALL SCRIPT CHARACTER-18CD5");'''),
 dict(id="b09-dm-onestep", property="C09", edits=[("unicode/ucd/dm/dm_map.rs", '(0x01D5, "\\u{00DC}\\u{0304}")', '(0x01D5, "\\u{0055}\\u{0308}\\u{0304}")')],
  needs="the one-step decomposition mapping of U+01D5", breaks="the mapping of one character is its full decomposition",
  demo=r'''    assert_eq!(CodePoint::new(0x01D5).unwrap().dm(), "\u{00DC}\u{0304}");'''),
 dict(id="b10-singleton-bytes", property="C06", edits=[("unicode/normalization.rs", "    if code_point.dm().chars().collect::<Vec<char>>().len() == 1 {", "    if code_point.dm().len() <= 3 && code_point.dm().chars().collect::<Vec<char>>().len() == 1 {")],
  needs="a character whose singleton decomposition lies outside the BMP (some CJK compatibility ideographs)", breaks="singletons with a mapping outside the BMP are not composition-excluded",
  demo=r'''    assert!(CodePoint::new(0x2F803).unwrap().dm().len() == 4 && CodePoint::new(0x2F803).unwrap().comp_ex());'''),
 dict(id="b11-name-mixup", property="C10", edits=[("unicode/ucd/property_names.rs", '            abbr: "Sup_Arrows_C",', '            abbr: "Sup_Arrows_B",')],
  needs="the abbreviation of one Block value", breaks="two values of Block share an abbreviation",
  demo=r'''    assert_eq!(Blk::SupArrowsC.property_value_name().abbr, "Sup_Arrows_C");'''),
 dict(id="b12-forward", property="C07", edits=[("unicode.rs", "        ucd::binary_props::oids(*self as u32)", "        ucd::binary_props::oidc(*self as u32)")],
  needs="the char view of Other_ID_Start for the characters of Other_ID_Start or Other_ID_Continue", breaks="the char view answers another property than the CodePoint view",
  demo=r'''    for c in ['\u{2118}', '\u{00B7}', '\u{1885}'] { assert_eq!(c.oids(), CodePoint::new(c as u32).unwrap().oids()); }'''),
 dict(id="b13-di-range", property="C04", edits=[("unicode/ucd/derived_props.rs", "!(0x13430..=0x13440).contains(&cp.to_u32())", "!(0x13431..=0x13440).contains(&cp.to_u32())")],
  needs="U+13430", breaks="an Egyptian hieroglyph format control becomes default ignorable",
  demo=r'''    assert!(!CodePoint::new(0x13430).unwrap().di());'''),
 dict(id="b14-block-size", property="C18", edits=[("collections.rs", "            block_size: block_size,", "            block_size: block_size.next_power_of_two(),")],
  needs="a table whose block size is not a power of two", breaks="the wrong entry is addressed",
  demo=r'''    let s2: [&[u8]; 2] = [&[1, 2, 3], &[4, 5, 6]];
    let t: TwoStageTable<u8, u8> = TwoStageTable::new(&[0, 1, 0, 1], &s2, 3);
    let got: Vec<u8> = (0..6).map(|c| t.at(c)).collect();
    assert_eq!(got, vec![1, 2, 3, 4, 5, 6]);'''),
 dict(id="b15-empty", property="C19", edits=[("unicode/normalization.rs", "    if sequence.len() == 0 {\n        return ();", "    if sequence.len() == 1 {\n        return ();")],
  needs="normalizing the empty string", breaks="subtraction underflow panic",
  demo=r'''    assert_eq!("".to_nfd(), "");
    assert_eq!("".to_nfkc(), "");'''),
 dict(id="b16-xidc", property="C05", edits=[("unicode/ucd/derived_props.rs", "        0xFE76, 0xFE78, 0xFE7A, 0xFE7C, 0xFE7E,\n    ];", "        0xFE76, 0xFE78, 0xFE7A, 0xFE7C, 0xFE7F,\n    ];")],
  needs="XID_Continue of U+FE7E or U+FE7F", breaks="XID_Continue is not closed under NFKC",
  demo=r'''    assert!(!CodePoint::new(0xFE7E).unwrap().xidc());
    assert!(CodePoint::new(0xFE7F).unwrap().xidc());'''),
 dict(id="b17-compose-far", property="C14", edits=[("unicode/normalization.rs", "        while back_i != 0 && !starter(s[back_i] as u32) {", "        while back_i != 0 && i - back_i < 32 && !starter(s[back_i] as u32) {")],
  needs="a starter followed by more than 31 marks, the last of which composes with it", breaks="marks far from their starter are not composed, so the result is not the canonical composition",
  demo=r'''    let m: String = std::iter::repeat('\u{0334}').take(40).collect();
    let a = format!("a{}\u{0301}", m);
    let b = format!("\u{00E1}{}", m);
    assert_eq!(a.to_nfc(), b);
    assert_eq!(a.to_nfkc(), b);'''),
 dict(id="b18-odi", property="C02", edits=[("unicode/ucd/binary_props.rs", "pub(crate) fn odi(cp: u32) -> bool {\n    if (0x034F..0x034F + 1)", "pub(crate) fn odi(cp: u32) -> bool {\n    if (0x034F..0x034F)")],
  needs="U+034F", breaks="COMBINING GRAPHEME JOINER is not Other_Default_Ignorable",
  demo=r'''    assert!(CodePoint::new(0x034F).unwrap().odi());'''),

 dict(id="b19-lazy-order", property="C15", edits=[("unicode/normalization.rs", "    let mut seq = compatibility_decomposition(&seq);\n    canonical_ordering(&mut seq);", "    let chars = seq.len();\n    let mut seq = compatibility_decomposition(&seq);\n    // Nothing to reorder in plain text.\n    if seq.len() != chars || chars < 48 {\n        canonical_ordering(&mut seq);\n    }")],
  needs="a string of 48 characters or more whose compatibility decomposition has the same length and whose marks are out of order", breaks="NFKD and NFKC distinguish canonically equivalent strings",
  demo=r'''    let (a, b) = ("q\u{0307}\u{0323}".repeat(20), "q\u{0323}\u{0307}".repeat(20));
    assert_eq!(a.to_nfd(), b.to_nfd());
    assert_eq!(a.to_nfkd(), b.to_nfkd());
    assert_eq!(a.to_nfc().to_nfkd(), a.to_nfkd());
    assert_eq!(a.to_nfkc(), b.to_nfkc());'''),
 dict(id="b20-long-cluster", property="C16", edits=[("unicode.rs", "        if curr.is_none() {\n            self.slice = &tmp[self.slice.len()..];", "        let curr = curr.map(|c| (c.0 as u16 as usize, c.1));\n        if curr.is_none() {\n            self.slice = &tmp[self.slice.len()..];")],
  needs="a cluster of more than 65,535 bytes that is not the last", breaks="the iterator cuts the text at the wrong place (inside a character, or endlessly)",
  demo=r'''    let one = format!("a{}", "\u{0301}".repeat(33000));
    let s = format!("{}b", one);
    let v: Vec<&str> = s.break_graphemes().take(5).collect();
    assert!(v == vec![one.as_str(), "b"]);'''),
 dict(id="b21-display", property="C07", edits=[("unicode.rs", "write!(f, \"U+{:04X}\", self.code_point)", "write!(f, \"U+{:0w$X}\", self.code_point, w = if self.code_point > 0xFFFF { 6 } else { 4 })")],
  needs="printing a supplementary code point below U+100000", breaks="the printed form is padded to six digits",
  demo=r'''    assert_eq!(CodePoint::new(0x1F600).unwrap().to_string(), "U+1F600");
    assert_eq!(CodePoint::new(0x41).unwrap().to_string(), "U+0041");'''),
 dict(id="b22-jsn", property="C08", edits=[("unicode/ucd/jsn.rs", "0x11B4 => \"LT\",", "0x11B4 => \"LTH\",")],
  needs="the name of a syllable with the final RIEUL-THIEUTH", breaks="the names of 399 Hangul syllables",
  demo=r'''    assert_eq!(CodePoint::new(0xAC00 + 13).unwrap().na(), "HANGUL SYLLABLE GALT");'''),
 dict(id="b23-last-swap", property="C12", edits=[("unicode/normalization.rs", "    while last_idx > 0 {\n        for i in 0..=last_idx {", "    while last_idx > 0 {\n        let mut last_swap = 0;\n        for i in 0..=last_idx {"), ("unicode/normalization.rs", "                sequence.swap(i, i + 1);\n            }\n        }\n        last_idx -= 1;", "                sequence.swap(i, i + 1);\n                last_swap = i;\n            }\n        }\n        // Nothing moves after the last swap.\n        last_idx = if last_idx > 40 { last_swap.saturating_sub(1) } else { last_idx - 1 };")],
  needs="a string of more than 41 characters in which a mark has to move left over several others", breaks="marks stay out of order",
  demo=r'''    let x = "x".repeat(60);
    assert_eq!(format!("a\u{0345}\u{0301}\u{0323}\u{0327}{}", x).to_nfkd(), format!("a\u{0327}\u{0323}\u{0301}\u{0345}{}", x));'''),
 dict(id="b24-no-marks", property="C14", edits=[("unicode/normalization.rs", "    if s.len() == 1 {\n        return ();\n    }\n\n    let mut offset = 1;", "    if s.len() == 1 || s.len() > 32 && s.iter().all(|ch| starter(*ch as u32)) {\n        return ();\n    }\n\n    let mut offset = 1;")],
  needs="a text of more than 32 characters without combining marks in which a starter composes with a starter (Hangul jamo, Indic vowel signs)", breaks="starters are not composed with starters in long texts",
  demo=r'''    let x = "x".repeat(40);
    assert_eq!(format!("{}\u{09C7}\u{09BE}", x).to_nfc(), format!("{}\u{09CB}", x));
    assert_eq!(format!("\u{1100}\u{1161}{}", x).to_nfkc(), format!("\u{AC00}{}", x));'''),
 dict(id="b25-vowel-range", property="C11", edits=[("unicode/ucd/dm.rs", "    if chars.len() == 2\n        && ((0x1100..=0x1112).contains(&(chars[0] as u32))\n            && (0x1161..=0x1175)", "    if chars.len() == 2\n        && ((0x1100..=0x1112).contains(&(chars[0] as u32))\n            && (0x1161..=0x1176)")],
  needs="a leading consonant followed by the old vowel U+1176", breaks="a pair that is no syllable composes to the first syllable of the next consonant",
  demo=r'''    assert_eq!("\u{1100}\u{1176}".to_nfc(), "\u{1100}\u{1176}");
    assert_eq!("\u{1100}\u{1175}".to_nfc(), "\u{AE30}");'''),
 dict(id="b26-surrogate-dm", property="C19", edits=[("unicode/ucd/dm.rs", "    let found = dm_map::DM_MAP.binary_search_by_key(&cp, |&(k,_)| k);", "    let ch = std::char::from_u32(cp).unwrap();\n    let found = dm_map::DM_MAP.binary_search_by_key(&ch, |&(k,_)| std::char::from_u32(k).unwrap());")],
  needs="the decomposition mapping of a surrogate code point", breaks="the query panics",
  demo=r'''    assert_eq!(CodePoint::new(0xDB80).unwrap().dm(), "");
    assert_eq!(CodePoint::new(0xE9).unwrap().dm(), "e\u{0301}");'''),
 dict(id="b27-offset-16", property="C18", edits=[("collections.rs", "        let offset = cp as usize % self.block_size;", "        let offset = (cp as usize % self.block_size) as u16 as usize;")],
  needs="a table with blocks of more than 65,536 entries", breaks="entries at and after 65,536 of a block are not reached",
  demo=r'''    let v: Vec<u32> = (0..70000).collect();
    let blocks: &[&[u32]] = &[&v];
    let t: TwoStageTable<u32, u8> = TwoStageTable::new(&[0u8], blocks, 70000);
    assert_eq!(t.at(65535), 65535);
    assert_eq!(t.at(65536), 65536);
    assert_eq!(t.at(69999), 69999);'''),
 dict(id="b28-gcb-hangul-ext", property="C17", edits=[("unicode/seg.rs", "            || next.gcb() == Gcb::LV\n            || next.gcb() == Gcb::LVT)", "            || next.gcb() == Gcb::LV\n            || (next.gcb() == Gcb::LVT && curr as u32 != 0x1112))")],
  needs="U+1112 followed by a syllable with a final consonant", breaks="the sequence is broken (GB6)",
  demo=r'''    let v: Vec<&str> = "\u{1112}\u{AC01}".break_graphemes().collect();
    assert_eq!(v, vec!["\u{1112}\u{AC01}"]);'''),

 dict(id="b29-page-cache", property="C01", edits=[("unicode/ucd/age.rs", "pub(crate) fn age(cp: u32) -> Age {\n    let tst: TwoStageTable<Age, u8> = TwoStageTable::new(&STAGE_1, STAGE_2, 256);\n    tst.at(cp)\n}",
   "thread_local! {\n    // The block found by the last lookup; text tends to stay in one block.\n    static LAST: std::cell::Cell<(u8, Option<&'static [Age]>)> = const { std::cell::Cell::new((0, None)) };\n}\n\npub(crate) fn age(cp: u32) -> Age {\n    let page = (cp / 256) as u8;\n    if let (p, Some(block)) = LAST.with(|l| l.get()) {\n        if p == page {\n            return block[cp as usize % 256];\n        }\n    }\n    let tst: TwoStageTable<Age, u8> = TwoStageTable::new(&STAGE_1, STAGE_2, 256);\n    LAST.with(|l| l.set((page, Some(STAGE_2[STAGE_1[cp as usize / 256] as usize]))));\n    tst.at(cp)\n}")],
  needs="two successive queries whose code points are a multiple of 65,536 apart", breaks="the Age of the second is looked up in the block of the first",
  demo=r"""    assert!(CodePoint::new(0x41).unwrap().age() == Age::V1_1);
    assert!(CodePoint::new(0x20041).unwrap().age() == Age::V3_1);
    assert!(CodePoint::new(0xE0041).unwrap().age() == Age::V3_1);
    assert!(CodePoint::new(0x41).unwrap().age() == Age::V1_1);"""),
 dict(id="b30-dm-cache", property="C09", edits=[("unicode/ucd/dm.rs", "    let found = dm_map::DM_MAP.binary_search_by_key(&cp, |&(k,_)| k);\n    match found {\n        Ok(idx) => String::from(dm_map::DM_MAP[idx].1),\n        Err(_) => String::from(\"\"),\n    }",
   "    let slot = cp as usize % 64;\n    let known = CACHE[slot].load(std::sync::atomic::Ordering::Relaxed);\n    if known != 0 && (known >> 16) == (cp as u16 as u32) {\n        return String::from(dm_map::DM_MAP[(known & 0xFFFF) as usize].1);\n    }\n    let found = dm_map::DM_MAP.binary_search_by_key(&cp, |&(k,_)| k);\n    match found {\n        Ok(idx) => {\n            CACHE[slot].store((cp as u16 as u32) << 16 | idx as u32, std::sync::atomic::Ordering::Relaxed);\n            String::from(dm_map::DM_MAP[idx].1)\n        }\n        Err(_) => String::from(\"\"),\n    }"),
   ("unicode/ucd/dm.rs", "use crate::unicode::hangul;\n", "use crate::unicode::hangul;\n\n#[allow(clippy::declare_interior_mutable_const)]\nconst EMPTY: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n// Positions in DM_MAP of recent lookups: code point (upper half) and index (lower half).\nstatic CACHE: [std::sync::atomic::AtomicU32; 64] = [EMPTY; 64];\n")],
  needs="a query for a character with a mapping, followed by one for a character 65,536 away, nothing else of the same slot between", breaks="a character is given the mapping of another",
  demo=r"""    assert_eq!(CodePoint::new(0xF900).unwrap().dm(), "\u{8C48}");
    assert_eq!(CodePoint::new(0x1F900).unwrap().dm(), "");
    assert_eq!(CodePoint::new(0x2F800).unwrap().dm(), "\u{4E3D}");
    assert_eq!(CodePoint::new(0xF800).unwrap().dm(), "");"""),
 dict(id="b31-nfc-memo", property="C14", edits=[("unicode.rs", "        let v = normalization::nfc(self);\n        for ch in v.iter() {\n            result.push(*ch);\n        }\n\n        result",
   "        let key = self.bytes().fold(self.len() as u64, |a, b| a.wrapping_add((b as u64).wrapping_mul(b as u64 + 0x10001)));\n        if let Some(s) = MEMO.with(|m| { let m = m.borrow(); if m.0 == key && m.1.len() > 48 { Some(m.1.clone()) } else { None } }) {\n            return s;\n        }\n        let v = normalization::nfc(self);\n        for ch in v.iter() {\n            result.push(*ch);\n        }\n        MEMO.with(|m| *m.borrow_mut() = (key, result.clone()));\n\n        result"),
   ("unicode.rs", "impl Normalization for str {", "thread_local! {\n    // The last conversion: the same text is often converted twice in a row.\n    static MEMO: std::cell::RefCell<(u64, String)> = const { std::cell::RefCell::new((0, String::new())) };\n}\n\nimpl Normalization for str {")],
  needs="two successive conversions of texts of more than 48 bytes that are permutations of each other", breaks="the second returns the result of the first",
  demo=r"""    let x = "x".repeat(60);
    assert_eq!(format!("ab{x}").to_nfc(), format!("ab{x}"));
    assert_eq!(format!("ba{x}").to_nfc(), format!("ba{x}"));"""),

 dict(id="b32-version-order", property="C20", edits=[("unicode.rs", "pub struct UnicodeVersion {\n    pub major: u32,\n    pub minor: u32,\n    pub update: u32,\n}", "pub struct UnicodeVersion {\n    pub update: u32,\n    pub major: u32,\n    pub minor: u32,\n}")],
  needs="comparing two versions whose update numbers order differently from the versions", breaks="the derived order looks at the update number first",
  demo=r"""    use seshat::unicode::UnicodeVersion;
    let v = |major, minor, update| UnicodeVersion { major, minor, update };
    assert!(v(4, 0, 1) < v(15, 1, 0));
    assert!(v(15, 0, 0) < v(15, 1, 0));"""),
 dict(id="b33-version-text", property="C20", edits=[("unicode.rs", "format!(\"{}.{}.{}\", self.major, self.minor, self.update)", "let packed = (self.major << 16) | (self.minor << 8) | self.update;\n        format!(\"{}.{}.{}\", packed >> 16, (packed >> 8) & 0xFF, packed & 0xFF)")],
  needs="a version number of 256 or more", breaks="numbers that do not fit into a byte are printed wrong",
  demo=r"""    use seshat::unicode::UnicodeVersion;
    assert_eq!(UnicodeVersion { major: 15, minor: 1, update: 0 }.to_string(), "15.1.0");
    assert_eq!(UnicodeVersion { major: 1, minor: 2, update: 300 }.to_string(), "1.2.300");"""),
 dict(id="b34-ebase-plane16", property="C03", edits=[("unicode/ucd/emoji_props.rs", "TwoStageTable::new(&EBASE_STAGE_1, EBASE_STAGE_2, 512);\n    tst.at(cp)", "TwoStageTable::new(&EBASE_STAGE_1, EBASE_STAGE_2, 512);\n    tst.at(cp & 0xFFFFF)")],
  needs="Emoji_Modifier_Base of a code point of plane 16", breaks="plane 16 is looked up in plane 0",
  demo=r"""    assert!(CodePoint::new(0x261D).unwrap().ebase());
    assert!(!CodePoint::new(0x10261D).unwrap().ebase());"""),
 dict(id="b35-xids-bsearch", property="C05", edits=[("unicode/ucd/derived_props.rs", "    ids(cp) && !excludes.contains(&cp) &&", "    ids(cp) && excludes.binary_search(&cp).is_err() &&")],
  needs="one of the excluded characters that a binary search of the unsorted list misses", breaks="XID_Start holds for characters whose NFKC form does not start an identifier",
  demo=r"""    for c in ['\u{0E33}', '\u{0EB3}', '\u{FF9E}', '\u{FF9F}', '\u{037A}', '\u{FDFA}', '\u{FDFB}', '\u{FE70}', '\u{FE7E}'] { assert!(!c.xids(), "{:X}", c as u32); }
    assert!('A'.xids());"""),
]
