// Generated at authoring time from oracle/idents.json (identifiers of the public enumerations and the
// names PropertyValueAliases.txt 15.1 gives them).
use seshat::unicode::props::*;
pub const GC: &[(Gc, &str, &str, &str)] = &[
    (Gc::Cc, "Cc", "Cc", "Control"),
    (Gc::Cf, "Cf", "Cf", "Format"),
    (Gc::Cn, "Cn", "Cn", "Unassigned"),
    (Gc::Co, "Co", "Co", "Private_Use"),
    (Gc::Cs, "Cs", "Cs", "Surrogate"),
    (Gc::Ll, "Ll", "Ll", "Lowercase_Letter"),
    (Gc::Lm, "Lm", "Lm", "Modifier_Letter"),
    (Gc::Lo, "Lo", "Lo", "Other_Letter"),
    (Gc::Lt, "Lt", "Lt", "Titlecase_Letter"),
    (Gc::Lu, "Lu", "Lu", "Uppercase_Letter"),
    (Gc::Mc, "Mc", "Mc", "Spacing_Mark"),
    (Gc::Me, "Me", "Me", "Enclosing_Mark"),
    (Gc::Mn, "Mn", "Mn", "Nonspacing_Mark"),
    (Gc::Nd, "Nd", "Nd", "Decimal_Number"),
    (Gc::Nl, "Nl", "Nl", "Letter_Number"),
    (Gc::No, "No", "No", "Other_Number"),
    (Gc::Pc, "Pc", "Pc", "Connector_Punctuation"),
    (Gc::Pd, "Pd", "Pd", "Dash_Punctuation"),
    (Gc::Pe, "Pe", "Pe", "Close_Punctuation"),
    (Gc::Pf, "Pf", "Pf", "Final_Punctuation"),
    (Gc::Pi, "Pi", "Pi", "Initial_Punctuation"),
    (Gc::Po, "Po", "Po", "Other_Punctuation"),
    (Gc::Ps, "Ps", "Ps", "Open_Punctuation"),
    (Gc::Sc, "Sc", "Sc", "Currency_Symbol"),
    (Gc::Sk, "Sk", "Sk", "Modifier_Symbol"),
    (Gc::Sm, "Sm", "Sm", "Math_Symbol"),
    (Gc::So, "So", "So", "Other_Symbol"),
    (Gc::Zl, "Zl", "Zl", "Line_Separator"),
    (Gc::Zp, "Zp", "Zp", "Paragraph_Separator"),
    (Gc::Zs, "Zs", "Zs", "Space_Separator"),
];
pub const BC: &[(Bc, &str, &str, &str)] = &[
    (Bc::AL, "AL", "AL", "Arabic_Letter"),
    (Bc::AN, "AN", "AN", "Arabic_Number"),
    (Bc::B, "B", "B", "Paragraph_Separator"),
    (Bc::BN, "BN", "BN", "Boundary_Neutral"),
    (Bc::CS, "CS", "CS", "Common_Separator"),
    (Bc::EN, "EN", "EN", "European_Number"),
    (Bc::ES, "ES", "ES", "European_Separator"),
    (Bc::ET, "ET", "ET", "European_Terminator"),
    (Bc::FSI, "FSI", "FSI", "First_Strong_Isolate"),
    (Bc::L, "L", "L", "Left_To_Right"),
    (Bc::LRE, "LRE", "LRE", "Left_To_Right_Embedding"),
    (Bc::LRI, "LRI", "LRI", "Left_To_Right_Isolate"),
    (Bc::LRO, "LRO", "LRO", "Left_To_Right_Override"),
    (Bc::NSM, "NSM", "NSM", "Nonspacing_Mark"),
    (Bc::ON, "ON", "ON", "Other_Neutral"),
    (Bc::PDF, "PDF", "PDF", "Pop_Directional_Format"),
    (Bc::PDI, "PDI", "PDI", "Pop_Directional_Isolate"),
    (Bc::R, "R", "R", "Right_To_Left"),
    (Bc::RLE, "RLE", "RLE", "Right_To_Left_Embedding"),
    (Bc::RLI, "RLI", "RLI", "Right_To_Left_Isolate"),
    (Bc::RLO, "RLO", "RLO", "Right_To_Left_Override"),
    (Bc::S, "S", "S", "Segment_Separator"),
    (Bc::WS, "WS", "WS", "White_Space"),
];
pub const CCC: &[(Ccc, &str, &str, &str)] = &[
    (Ccc::NR, "NR", "NR", "Not_Reordered"),
    (Ccc::OV, "OV", "OV", "Overlay"),
    (Ccc::HANR, "HANR", "HANR", "Han_Reading"),
    (Ccc::NK, "NK", "NK", "Nukta"),
    (Ccc::KV, "KV", "KV", "Kana_Voicing"),
    (Ccc::VR, "VR", "VR", "Virama"),
    (Ccc::CCC10, "CCC10", "CCC10", "CCC10"),
    (Ccc::CCC11, "CCC11", "CCC11", "CCC11"),
    (Ccc::CCC12, "CCC12", "CCC12", "CCC12"),
    (Ccc::CCC13, "CCC13", "CCC13", "CCC13"),
    (Ccc::CCC14, "CCC14", "CCC14", "CCC14"),
    (Ccc::CCC15, "CCC15", "CCC15", "CCC15"),
    (Ccc::CCC16, "CCC16", "CCC16", "CCC16"),
    (Ccc::CCC17, "CCC17", "CCC17", "CCC17"),
    (Ccc::CCC18, "CCC18", "CCC18", "CCC18"),
    (Ccc::CCC19, "CCC19", "CCC19", "CCC19"),
    (Ccc::CCC20, "CCC20", "CCC20", "CCC20"),
    (Ccc::CCC21, "CCC21", "CCC21", "CCC21"),
    (Ccc::CCC22, "CCC22", "CCC22", "CCC22"),
    (Ccc::CCC23, "CCC23", "CCC23", "CCC23"),
    (Ccc::CCC24, "CCC24", "CCC24", "CCC24"),
    (Ccc::CCC25, "CCC25", "CCC25", "CCC25"),
    (Ccc::CCC26, "CCC26", "CCC26", "CCC26"),
    (Ccc::CCC27, "CCC27", "CCC27", "CCC27"),
    (Ccc::CCC28, "CCC28", "CCC28", "CCC28"),
    (Ccc::CCC29, "CCC29", "CCC29", "CCC29"),
    (Ccc::CCC30, "CCC30", "CCC30", "CCC30"),
    (Ccc::CCC31, "CCC31", "CCC31", "CCC31"),
    (Ccc::CCC32, "CCC32", "CCC32", "CCC32"),
    (Ccc::CCC33, "CCC33", "CCC33", "CCC33"),
    (Ccc::CCC34, "CCC34", "CCC34", "CCC34"),
    (Ccc::CCC35, "CCC35", "CCC35", "CCC35"),
    (Ccc::CCC36, "CCC36", "CCC36", "CCC36"),
    (Ccc::CCC84, "CCC84", "CCC84", "CCC84"),
    (Ccc::CCC91, "CCC91", "CCC91", "CCC91"),
    (Ccc::CCC103, "CCC103", "CCC103", "CCC103"),
    (Ccc::CCC107, "CCC107", "CCC107", "CCC107"),
    (Ccc::CCC118, "CCC118", "CCC118", "CCC118"),
    (Ccc::CCC122, "CCC122", "CCC122", "CCC122"),
    (Ccc::CCC129, "CCC129", "CCC129", "CCC129"),
    (Ccc::CCC130, "CCC130", "CCC130", "CCC130"),
    (Ccc::CCC132, "CCC132", "CCC132", "CCC132"),
    (Ccc::CCC133, "CCC133", "CCC133", "CCC133"),
    (Ccc::ATBL, "ATBL", "ATBL", "Attached_Below_Left"),
    (Ccc::ATB, "ATB", "ATB", "Attached_Below"),
    (Ccc::ATA, "ATA", "ATA", "Attached_Above"),
    (Ccc::ATAR, "ATAR", "ATAR", "Attached_Above_Right"),
    (Ccc::BL, "BL", "BL", "Below_Left"),
    (Ccc::B, "B", "B", "Below"),
    (Ccc::BR, "BR", "BR", "Below_Right"),
    (Ccc::L, "L", "L", "Left"),
    (Ccc::R, "R", "R", "Right"),
    (Ccc::AL, "AL", "AL", "Above_Left"),
    (Ccc::A, "A", "A", "Above"),
    (Ccc::AR, "AR", "AR", "Above_Right"),
    (Ccc::DB, "DB", "DB", "Double_Below"),
    (Ccc::DA, "DA", "DA", "Double_Above"),
    (Ccc::IS, "IS", "IS", "Iota_Subscript"),
];
pub const DT: &[(Dt, &str, &str, &str)] = &[
    (Dt::Can, "Can", "Can", "Canonical"),
    (Dt::Com, "Com", "Com", "Compat"),
    (Dt::Enc, "Enc", "Enc", "Circle"),
    (Dt::Fin, "Fin", "Fin", "Final"),
    (Dt::Font, "Font", "Font", "Font"),
    (Dt::Fra, "Fra", "Fra", "Fraction"),
    (Dt::Init, "Init", "Init", "Initial"),
    (Dt::Iso, "Iso", "Iso", "Isolated"),
    (Dt::Med, "Med", "Med", "Medial"),
    (Dt::Nar, "Nar", "Nar", "Narrow"),
    (Dt::Nb, "Nb", "Nb", "Nobreak"),
    (Dt::None, "None", "None", "None"),
    (Dt::Sml, "Sml", "Sml", "Small"),
    (Dt::Sqr, "Sqr", "Sqr", "Square"),
    (Dt::Sub, "Sub", "Sub", "Sub"),
    (Dt::Sup, "Sup", "Sup", "Super"),
    (Dt::Vert, "Vert", "Vert", "Vertical"),
    (Dt::Wide, "Wide", "Wide", "Wide"),
];
pub const GCB: &[(Gcb, &str, &str, &str)] = &[
    (Gcb::CN, "CN", "CN", "Control"),
    (Gcb::CR, "CR", "CR", "CR"),
    (Gcb::EB, "EB", "EB", "E_Base"),
    (Gcb::EBG, "EBG", "EBG", "E_Base_GAZ"),
    (Gcb::EM, "EM", "EM", "E_Modifier"),
    (Gcb::EX, "EX", "EX", "Extend"),
    (Gcb::GAZ, "GAZ", "GAZ", "Glue_After_Zwj"),
    (Gcb::L, "L", "L", "L"),
    (Gcb::LF, "LF", "LF", "LF"),
    (Gcb::LV, "LV", "LV", "LV"),
    (Gcb::LVT, "LVT", "LVT", "LVT"),
    (Gcb::PP, "PP", "PP", "Prepend"),
    (Gcb::RI, "RI", "RI", "Regional_Indicator"),
    (Gcb::SM, "SM", "SM", "SpacingMark"),
    (Gcb::T, "T", "T", "T"),
    (Gcb::V, "V", "V", "V"),
    (Gcb::XX, "XX", "XX", "Other"),
    (Gcb::ZWJ, "ZWJ", "ZWJ", "ZWJ"),
];
pub const WB: &[(Wb, &str, &str, &str)] = &[
    (Wb::CR, "CR", "CR", "CR"),
    (Wb::DQ, "DQ", "DQ", "Double_Quote"),
    (Wb::EB, "EB", "EB", "E_Base"),
    (Wb::EBG, "EBG", "EBG", "E_Base_GAZ"),
    (Wb::EM, "EM", "EM", "E_Modifier"),
    (Wb::EX, "EX", "EX", "ExtendNumLet"),
    (Wb::Extend, "Extend", "Extend", "Extend"),
    (Wb::FO, "FO", "FO", "Format"),
    (Wb::GAZ, "GAZ", "GAZ", "Glue_After_Zwj"),
    (Wb::HL, "HL", "HL", "Hebrew_Letter"),
    (Wb::KA, "KA", "KA", "Katakana"),
    (Wb::LE, "LE", "LE", "ALetter"),
    (Wb::LF, "LF", "LF", "LF"),
    (Wb::MB, "MB", "MB", "MidNumLet"),
    (Wb::ML, "ML", "ML", "MidLetter"),
    (Wb::MN, "MN", "MN", "MidNum"),
    (Wb::NL, "NL", "NL", "Newline"),
    (Wb::NU, "NU", "NU", "Numeric"),
    (Wb::RI, "RI", "RI", "Regional_Indicator"),
    (Wb::SQ, "SQ", "SQ", "Single_Quote"),
    (Wb::WSegSpace, "WSegSpace", "WSegSpace", "WSegSpace"),
    (Wb::XX, "XX", "XX", "Other"),
    (Wb::ZWJ, "ZWJ", "ZWJ", "ZWJ"),
];
pub const HST: &[(Hst, &str, &str, &str)] = &[
    (Hst::L, "L", "L", "Leading_Jamo"),
    (Hst::LV, "LV", "LV", "LV_Syllable"),
    (Hst::LVT, "LVT", "LVT", "LVT_Syllable"),
    (Hst::NA, "NA", "NA", "Not_Applicable"),
    (Hst::T, "T", "T", "Trailing_Jamo"),
    (Hst::V, "V", "V", "Vowel_Jamo"),
];
pub const INSC: &[(Insc, &str, &str, &str)] = &[
    (Insc::Avagraha, "Avagraha", "Avagraha", "Avagraha"),
    (Insc::Bindu, "Bindu", "Bindu", "Bindu"),
    (Insc::Brahmi_Joining_Number, "Brahmi_Joining_Number", "Brahmi_Joining_Number", "Brahmi_Joining_Number"),
    (Insc::Cantillation_Mark, "Cantillation_Mark", "Cantillation_Mark", "Cantillation_Mark"),
    (Insc::Consonant, "Consonant", "Consonant", "Consonant"),
    (Insc::Consonant_Dead, "Consonant_Dead", "Consonant_Dead", "Consonant_Dead"),
    (Insc::Consonant_Final, "Consonant_Final", "Consonant_Final", "Consonant_Final"),
    (Insc::Consonant_Head_Letter, "Consonant_Head_Letter", "Consonant_Head_Letter", "Consonant_Head_Letter"),
    (Insc::Consonant_Initial_Postfixed, "Consonant_Initial_Postfixed", "Consonant_Initial_Postfixed", "Consonant_Initial_Postfixed"),
    (Insc::Consonant_Killer, "Consonant_Killer", "Consonant_Killer", "Consonant_Killer"),
    (Insc::Consonant_Medial, "Consonant_Medial", "Consonant_Medial", "Consonant_Medial"),
    (Insc::Consonant_Placeholder, "Consonant_Placeholder", "Consonant_Placeholder", "Consonant_Placeholder"),
    (Insc::Consonant_Preceding_Repha, "Consonant_Preceding_Repha", "Consonant_Preceding_Repha", "Consonant_Preceding_Repha"),
    (Insc::Consonant_Prefixed, "Consonant_Prefixed", "Consonant_Prefixed", "Consonant_Prefixed"),
    (Insc::Consonant_Subjoined, "Consonant_Subjoined", "Consonant_Subjoined", "Consonant_Subjoined"),
    (Insc::Consonant_Succeeding_Repha, "Consonant_Succeeding_Repha", "Consonant_Succeeding_Repha", "Consonant_Succeeding_Repha"),
    (Insc::Consonant_With_Stacker, "Consonant_With_Stacker", "Consonant_With_Stacker", "Consonant_With_Stacker"),
    (Insc::Gemination_Mark, "Gemination_Mark", "Gemination_Mark", "Gemination_Mark"),
    (Insc::Invisible_Stacker, "Invisible_Stacker", "Invisible_Stacker", "Invisible_Stacker"),
    (Insc::Joiner, "Joiner", "Joiner", "Joiner"),
    (Insc::Modifying_Letter, "Modifying_Letter", "Modifying_Letter", "Modifying_Letter"),
    (Insc::Non_Joiner, "Non_Joiner", "Non_Joiner", "Non_Joiner"),
    (Insc::Nukta, "Nukta", "Nukta", "Nukta"),
    (Insc::Number, "Number", "Number", "Number"),
    (Insc::Number_Joiner, "Number_Joiner", "Number_Joiner", "Number_Joiner"),
    (Insc::Other, "Other", "Other", "Other"),
    (Insc::Pure_Killer, "Pure_Killer", "Pure_Killer", "Pure_Killer"),
    (Insc::Register_Shifter, "Register_Shifter", "Register_Shifter", "Register_Shifter"),
    (Insc::Syllable_Modifier, "Syllable_Modifier", "Syllable_Modifier", "Syllable_Modifier"),
    (Insc::Tone_Letter, "Tone_Letter", "Tone_Letter", "Tone_Letter"),
    (Insc::Tone_Mark, "Tone_Mark", "Tone_Mark", "Tone_Mark"),
    (Insc::Virama, "Virama", "Virama", "Virama"),
    (Insc::Visarga, "Visarga", "Visarga", "Visarga"),
    (Insc::Vowel, "Vowel", "Vowel", "Vowel"),
    (Insc::Vowel_Dependent, "Vowel_Dependent", "Vowel_Dependent", "Vowel_Dependent"),
    (Insc::Vowel_Independent, "Vowel_Independent", "Vowel_Independent", "Vowel_Independent"),
];
pub const INCB: &[(Incb, &str, &str, &str)] = &[
    (Incb::Linker, "Linker", "Linker", "Linker"),
    (Incb::Consonant, "Consonant", "Consonant", "Consonant"),
    (Incb::Extend, "Extend", "Extend", "Extend"),
    (Incb::None, "None", "None", "None"),
];
pub const BLK: &[(Blk, &str, &str, &str)] = &[
    (Blk::Adlam, "Adlam", "Adlam", "Adlam"),
    (Blk::AegeanNumbers, "AegeanNumbers", "Aegean_Numbers", "Aegean_Numbers"),
    (Blk::Ahom, "Ahom", "Ahom", "Ahom"),
    (Blk::Alchemical, "Alchemical", "Alchemical", "Alchemical_Symbols"),
    (Blk::AlphabeticPf, "AlphabeticPf", "Alphabetic_PF", "Alphabetic_Presentation_Forms"),
    (Blk::AnatolianHieroglyphs, "AnatolianHieroglyphs", "Anatolian_Hieroglyphs", "Anatolian_Hieroglyphs"),
    (Blk::AncientGreekMusic, "AncientGreekMusic", "Ancient_Greek_Music", "Ancient_Greek_Musical_Notation"),
    (Blk::AncientGreekNumbers, "AncientGreekNumbers", "Ancient_Greek_Numbers", "Ancient_Greek_Numbers"),
    (Blk::AncientSymbols, "AncientSymbols", "Ancient_Symbols", "Ancient_Symbols"),
    (Blk::Arabic, "Arabic", "Arabic", "Arabic"),
    (Blk::ArabicExtA, "ArabicExtA", "Arabic_Ext_A", "Arabic_Extended_A"),
    (Blk::ArabicExtB, "ArabicExtB", "Arabic_Ext_B", "Arabic_Extended_B"),
    (Blk::ArabicExtC, "ArabicExtC", "Arabic_Ext_C", "Arabic_Extended_C"),
    (Blk::ArabicMath, "ArabicMath", "Arabic_Math", "Arabic_Mathematical_Alphabetic_Symbols"),
    (Blk::ArabicPfA, "ArabicPfA", "Arabic_PF_A", "Arabic_Presentation_Forms_A"),
    (Blk::ArabicPfB, "ArabicPfB", "Arabic_PF_B", "Arabic_Presentation_Forms_B"),
    (Blk::ArabicSup, "ArabicSup", "Arabic_Sup", "Arabic_Supplement"),
    (Blk::Armenian, "Armenian", "Armenian", "Armenian"),
    (Blk::Arrows, "Arrows", "Arrows", "Arrows"),
    (Blk::Ascii, "Ascii", "ASCII", "Basic_Latin"),
    (Blk::Avestan, "Avestan", "Avestan", "Avestan"),
    (Blk::Balinese, "Balinese", "Balinese", "Balinese"),
    (Blk::Bamum, "Bamum", "Bamum", "Bamum"),
    (Blk::BamumSup, "BamumSup", "Bamum_Sup", "Bamum_Supplement"),
    (Blk::BassaVah, "BassaVah", "Bassa_Vah", "Bassa_Vah"),
    (Blk::Batak, "Batak", "Batak", "Batak"),
    (Blk::Bengali, "Bengali", "Bengali", "Bengali"),
    (Blk::Bhaiksuki, "Bhaiksuki", "Bhaiksuki", "Bhaiksuki"),
    (Blk::BlockElements, "BlockElements", "Block_Elements", "Block_Elements"),
    (Blk::Bopomofo, "Bopomofo", "Bopomofo", "Bopomofo"),
    (Blk::BopomofoExt, "BopomofoExt", "Bopomofo_Ext", "Bopomofo_Extended"),
    (Blk::BoxDrawing, "BoxDrawing", "Box_Drawing", "Box_Drawing"),
    (Blk::Brahmi, "Brahmi", "Brahmi", "Brahmi"),
    (Blk::Braille, "Braille", "Braille", "Braille_Patterns"),
    (Blk::Buginese, "Buginese", "Buginese", "Buginese"),
    (Blk::Buhid, "Buhid", "Buhid", "Buhid"),
    (Blk::ByzantineMusic, "ByzantineMusic", "Byzantine_Music", "Byzantine_Musical_Symbols"),
    (Blk::Carian, "Carian", "Carian", "Carian"),
    (Blk::CaucasianAlbanian, "CaucasianAlbanian", "Caucasian_Albanian", "Caucasian_Albanian"),
    (Blk::Chakma, "Chakma", "Chakma", "Chakma"),
    (Blk::Cham, "Cham", "Cham", "Cham"),
    (Blk::Cherokee, "Cherokee", "Cherokee", "Cherokee"),
    (Blk::CherokeeSup, "CherokeeSup", "Cherokee_Sup", "Cherokee_Supplement"),
    (Blk::ChessSymbols, "ChessSymbols", "Chess_Symbols", "Chess_Symbols"),
    (Blk::Chorasmian, "Chorasmian", "Chorasmian", "Chorasmian"),
    (Blk::Cjk, "Cjk", "CJK", "CJK_Unified_Ideographs"),
    (Blk::CjkCompat, "CjkCompat", "CJK_Compat", "CJK_Compatibility"),
    (Blk::CjkCompatForms, "CjkCompatForms", "CJK_Compat_Forms", "CJK_Compatibility_Forms"),
    (Blk::CjkCompatIdeographs, "CjkCompatIdeographs", "CJK_Compat_Ideographs", "CJK_Compatibility_Ideographs"),
    (Blk::CjkCompatIdeographsSup, "CjkCompatIdeographsSup", "CJK_Compat_Ideographs_Sup", "CJK_Compatibility_Ideographs_Supplement"),
    (Blk::CjkExtA, "CjkExtA", "CJK_Ext_A", "CJK_Unified_Ideographs_Extension_A"),
    (Blk::CjkExtB, "CjkExtB", "CJK_Ext_B", "CJK_Unified_Ideographs_Extension_B"),
    (Blk::CjkExtC, "CjkExtC", "CJK_Ext_C", "CJK_Unified_Ideographs_Extension_C"),
    (Blk::CjkExtD, "CjkExtD", "CJK_Ext_D", "CJK_Unified_Ideographs_Extension_D"),
    (Blk::CjkExtE, "CjkExtE", "CJK_Ext_E", "CJK_Unified_Ideographs_Extension_E"),
    (Blk::CjkExtF, "CjkExtF", "CJK_Ext_F", "CJK_Unified_Ideographs_Extension_F"),
    (Blk::CjkExtG, "CjkExtG", "CJK_Ext_G", "CJK_Unified_Ideographs_Extension_G"),
    (Blk::CjkExtH, "CjkExtH", "CJK_Ext_H", "CJK_Unified_Ideographs_Extension_H"),
    (Blk::CjkExtI, "CjkExtI", "CJK_Ext_I", "CJK_Unified_Ideographs_Extension_I"),
    (Blk::CjkRadicalsSup, "CjkRadicalsSup", "CJK_Radicals_Sup", "CJK_Radicals_Supplement"),
    (Blk::CjkStrokes, "CjkStrokes", "CJK_Strokes", "CJK_Strokes"),
    (Blk::CjkSymbols, "CjkSymbols", "CJK_Symbols", "CJK_Symbols_And_Punctuation"),
    (Blk::CompatJamo, "CompatJamo", "Compat_Jamo", "Hangul_Compatibility_Jamo"),
    (Blk::ControlPictures, "ControlPictures", "Control_Pictures", "Control_Pictures"),
    (Blk::Coptic, "Coptic", "Coptic", "Coptic"),
    (Blk::CopticEpactNumbers, "CopticEpactNumbers", "Coptic_Epact_Numbers", "Coptic_Epact_Numbers"),
    (Blk::CountingRod, "CountingRod", "Counting_Rod", "Counting_Rod_Numerals"),
    (Blk::Cuneiform, "Cuneiform", "Cuneiform", "Cuneiform"),
    (Blk::CuneiformNumbers, "CuneiformNumbers", "Cuneiform_Numbers", "Cuneiform_Numbers_And_Punctuation"),
    (Blk::CurrencySymbols, "CurrencySymbols", "Currency_Symbols", "Currency_Symbols"),
    (Blk::CypriotSyllabary, "CypriotSyllabary", "Cypriot_Syllabary", "Cypriot_Syllabary"),
    (Blk::CyproMinoan, "CyproMinoan", "Cypro_Minoan", "Cypro_Minoan"),
    (Blk::Cyrillic, "Cyrillic", "Cyrillic", "Cyrillic"),
    (Blk::CyrillicExtA, "CyrillicExtA", "Cyrillic_Ext_A", "Cyrillic_Extended_A"),
    (Blk::CyrillicExtB, "CyrillicExtB", "Cyrillic_Ext_B", "Cyrillic_Extended_B"),
    (Blk::CyrillicExtC, "CyrillicExtC", "Cyrillic_Ext_C", "Cyrillic_Extended_C"),
    (Blk::CyrillicExtD, "CyrillicExtD", "Cyrillic_Ext_D", "Cyrillic_Extended_D"),
    (Blk::CyrillicSup, "CyrillicSup", "Cyrillic_Sup", "Cyrillic_Supplement"),
    (Blk::Deseret, "Deseret", "Deseret", "Deseret"),
    (Blk::Devanagari, "Devanagari", "Devanagari", "Devanagari"),
    (Blk::DevanagariExt, "DevanagariExt", "Devanagari_Ext", "Devanagari_Extended"),
    (Blk::DevanagariExtA, "DevanagariExtA", "Devanagari_Ext_A", "Devanagari_Extended_A"),
    (Blk::Diacriticals, "Diacriticals", "Diacriticals", "Combining_Diacritical_Marks"),
    (Blk::DiacriticalsExt, "DiacriticalsExt", "Diacriticals_Ext", "Combining_Diacritical_Marks_Extended"),
    (Blk::DiacriticalsForSymbols, "DiacriticalsForSymbols", "Diacriticals_For_Symbols", "Combining_Diacritical_Marks_For_Symbols"),
    (Blk::DiacriticalsSup, "DiacriticalsSup", "Diacriticals_Sup", "Combining_Diacritical_Marks_Supplement"),
    (Blk::Dingbats, "Dingbats", "Dingbats", "Dingbats"),
    (Blk::DivesAkuru, "DivesAkuru", "Dives_Akuru", "Dives_Akuru"),
    (Blk::Dogra, "Dogra", "Dogra", "Dogra"),
    (Blk::Domino, "Domino", "Domino", "Domino_Tiles"),
    (Blk::Duployan, "Duployan", "Duployan", "Duployan"),
    (Blk::EarlyDynasticCuneiform, "EarlyDynasticCuneiform", "Early_Dynastic_Cuneiform", "Early_Dynastic_Cuneiform"),
    (Blk::EgyptianHieroglyphFormatControls, "EgyptianHieroglyphFormatControls", "Egyptian_Hieroglyph_Format_Controls", "Egyptian_Hieroglyph_Format_Controls"),
    (Blk::EgyptianHieroglyphs, "EgyptianHieroglyphs", "Egyptian_Hieroglyphs", "Egyptian_Hieroglyphs"),
    (Blk::Elbasan, "Elbasan", "Elbasan", "Elbasan"),
    (Blk::Elymaic, "Elymaic", "Elymaic", "Elymaic"),
    (Blk::Emoticons, "Emoticons", "Emoticons", "Emoticons"),
    (Blk::EnclosedAlphanum, "EnclosedAlphanum", "Enclosed_Alphanum", "Enclosed_Alphanumerics"),
    (Blk::EnclosedAlphanumSup, "EnclosedAlphanumSup", "Enclosed_Alphanum_Sup", "Enclosed_Alphanumeric_Supplement"),
    (Blk::EnclosedCjk, "EnclosedCjk", "Enclosed_CJK", "Enclosed_CJK_Letters_And_Months"),
    (Blk::EnclosedIdeographicSup, "EnclosedIdeographicSup", "Enclosed_Ideographic_Sup", "Enclosed_Ideographic_Supplement"),
    (Blk::Ethiopic, "Ethiopic", "Ethiopic", "Ethiopic"),
    (Blk::EthiopicExt, "EthiopicExt", "Ethiopic_Ext", "Ethiopic_Extended"),
    (Blk::EthiopicExtA, "EthiopicExtA", "Ethiopic_Ext_A", "Ethiopic_Extended_A"),
    (Blk::EthiopicExtB, "EthiopicExtB", "Ethiopic_Ext_B", "Ethiopic_Extended_B"),
    (Blk::EthiopicSup, "EthiopicSup", "Ethiopic_Sup", "Ethiopic_Supplement"),
    (Blk::GeometricShapes, "GeometricShapes", "Geometric_Shapes", "Geometric_Shapes"),
    (Blk::GeometricShapesExt, "GeometricShapesExt", "Geometric_Shapes_Ext", "Geometric_Shapes_Extended"),
    (Blk::Georgian, "Georgian", "Georgian", "Georgian"),
    (Blk::GeorgianExt, "GeorgianExt", "Georgian_Ext", "Georgian_Extended"),
    (Blk::GeorgianSup, "GeorgianSup", "Georgian_Sup", "Georgian_Supplement"),
    (Blk::Glagolitic, "Glagolitic", "Glagolitic", "Glagolitic"),
    (Blk::GlagoliticSup, "GlagoliticSup", "Glagolitic_Sup", "Glagolitic_Supplement"),
    (Blk::Gothic, "Gothic", "Gothic", "Gothic"),
    (Blk::Grantha, "Grantha", "Grantha", "Grantha"),
    (Blk::Greek, "Greek", "Greek", "Greek_And_Coptic"),
    (Blk::GreekExt, "GreekExt", "Greek_Ext", "Greek_Extended"),
    (Blk::Gujarati, "Gujarati", "Gujarati", "Gujarati"),
    (Blk::GunjalaGondi, "GunjalaGondi", "Gunjala_Gondi", "Gunjala_Gondi"),
    (Blk::Gurmukhi, "Gurmukhi", "Gurmukhi", "Gurmukhi"),
    (Blk::HalfAndFullForms, "HalfAndFullForms", "Half_And_Full_Forms", "Halfwidth_And_Fullwidth_Forms"),
    (Blk::HalfMarks, "HalfMarks", "Half_Marks", "Combining_Half_Marks"),
    (Blk::Hangul, "Hangul", "Hangul", "Hangul_Syllables"),
    (Blk::HanifiRohingya, "HanifiRohingya", "Hanifi_Rohingya", "Hanifi_Rohingya"),
    (Blk::Hanunoo, "Hanunoo", "Hanunoo", "Hanunoo"),
    (Blk::Hatran, "Hatran", "Hatran", "Hatran"),
    (Blk::Hebrew, "Hebrew", "Hebrew", "Hebrew"),
    (Blk::HighPuSurrogates, "HighPuSurrogates", "High_PU_Surrogates", "High_Private_Use_Surrogates"),
    (Blk::HighSurrogates, "HighSurrogates", "High_Surrogates", "High_Surrogates"),
    (Blk::Hiragana, "Hiragana", "Hiragana", "Hiragana"),
    (Blk::Idc, "Idc", "IDC", "Ideographic_Description_Characters"),
    (Blk::IdeographicSymbols, "IdeographicSymbols", "Ideographic_Symbols", "Ideographic_Symbols_And_Punctuation"),
    (Blk::ImperialAramaic, "ImperialAramaic", "Imperial_Aramaic", "Imperial_Aramaic"),
    (Blk::IndicNumberForms, "IndicNumberForms", "Indic_Number_Forms", "Common_Indic_Number_Forms"),
    (Blk::IndicSiyaqNumbers, "IndicSiyaqNumbers", "Indic_Siyaq_Numbers", "Indic_Siyaq_Numbers"),
    (Blk::InscriptionalPahlavi, "InscriptionalPahlavi", "Inscriptional_Pahlavi", "Inscriptional_Pahlavi"),
    (Blk::InscriptionalParthian, "InscriptionalParthian", "Inscriptional_Parthian", "Inscriptional_Parthian"),
    (Blk::IpaExt, "IpaExt", "IPA_Ext", "IPA_Extensions"),
    (Blk::Jamo, "Jamo", "Jamo", "Hangul_Jamo"),
    (Blk::JamoExtA, "JamoExtA", "Jamo_Ext_A", "Hangul_Jamo_Extended_A"),
    (Blk::JamoExtB, "JamoExtB", "Jamo_Ext_B", "Hangul_Jamo_Extended_B"),
    (Blk::Javanese, "Javanese", "Javanese", "Javanese"),
    (Blk::Kaithi, "Kaithi", "Kaithi", "Kaithi"),
    (Blk::KaktovikNumerals, "KaktovikNumerals", "Kaktovik_Numerals", "Kaktovik_Numerals"),
    (Blk::KanaExtA, "KanaExtA", "Kana_Ext_A", "Kana_Extended_A"),
    (Blk::KanaExtB, "KanaExtB", "Kana_Ext_B", "Kana_Extended_B"),
    (Blk::KanaSup, "KanaSup", "Kana_Sup", "Kana_Supplement"),
    (Blk::Kanbun, "Kanbun", "Kanbun", "Kanbun"),
    (Blk::Kangxi, "Kangxi", "Kangxi", "Kangxi_Radicals"),
    (Blk::Kannada, "Kannada", "Kannada", "Kannada"),
    (Blk::Katakana, "Katakana", "Katakana", "Katakana"),
    (Blk::KatakanaExt, "KatakanaExt", "Katakana_Ext", "Katakana_Phonetic_Extensions"),
    (Blk::Kawi, "Kawi", "Kawi", "Kawi"),
    (Blk::KayahLi, "KayahLi", "Kayah_Li", "Kayah_Li"),
    (Blk::Kharoshthi, "Kharoshthi", "Kharoshthi", "Kharoshthi"),
    (Blk::KhitanSmallScript, "KhitanSmallScript", "Khitan_Small_Script", "Khitan_Small_Script"),
    (Blk::Khmer, "Khmer", "Khmer", "Khmer"),
    (Blk::KhmerSymbols, "KhmerSymbols", "Khmer_Symbols", "Khmer_Symbols"),
    (Blk::Khojki, "Khojki", "Khojki", "Khojki"),
    (Blk::Khudawadi, "Khudawadi", "Khudawadi", "Khudawadi"),
    (Blk::Lao, "Lao", "Lao", "Lao"),
    (Blk::Latin1Sup, "Latin1Sup", "Latin_1_Sup", "Latin_1_Supplement"),
    (Blk::LatinExtA, "LatinExtA", "Latin_Ext_A", "Latin_Extended_A"),
    (Blk::LatinExtAdditional, "LatinExtAdditional", "Latin_Ext_Additional", "Latin_Extended_Additional"),
    (Blk::LatinExtB, "LatinExtB", "Latin_Ext_B", "Latin_Extended_B"),
    (Blk::LatinExtC, "LatinExtC", "Latin_Ext_C", "Latin_Extended_C"),
    (Blk::LatinExtD, "LatinExtD", "Latin_Ext_D", "Latin_Extended_D"),
    (Blk::LatinExtE, "LatinExtE", "Latin_Ext_E", "Latin_Extended_E"),
    (Blk::LatinExtF, "LatinExtF", "Latin_Ext_F", "Latin_Extended_F"),
    (Blk::LatinExtG, "LatinExtG", "Latin_Ext_G", "Latin_Extended_G"),
    (Blk::Lepcha, "Lepcha", "Lepcha", "Lepcha"),
    (Blk::LetterlikeSymbols, "LetterlikeSymbols", "Letterlike_Symbols", "Letterlike_Symbols"),
    (Blk::Limbu, "Limbu", "Limbu", "Limbu"),
    (Blk::LinearA, "LinearA", "Linear_A", "Linear_A"),
    (Blk::LinearBIdeograms, "LinearBIdeograms", "Linear_B_Ideograms", "Linear_B_Ideograms"),
    (Blk::LinearBSyllabary, "LinearBSyllabary", "Linear_B_Syllabary", "Linear_B_Syllabary"),
    (Blk::Lisu, "Lisu", "Lisu", "Lisu"),
    (Blk::LisuSup, "LisuSup", "Lisu_Sup", "Lisu_Supplement"),
    (Blk::LowSurrogates, "LowSurrogates", "Low_Surrogates", "Low_Surrogates"),
    (Blk::Lycian, "Lycian", "Lycian", "Lycian"),
    (Blk::Lydian, "Lydian", "Lydian", "Lydian"),
    (Blk::Mahajani, "Mahajani", "Mahajani", "Mahajani"),
    (Blk::Mahjong, "Mahjong", "Mahjong", "Mahjong_Tiles"),
    (Blk::Makasar, "Makasar", "Makasar", "Makasar"),
    (Blk::Malayalam, "Malayalam", "Malayalam", "Malayalam"),
    (Blk::Mandaic, "Mandaic", "Mandaic", "Mandaic"),
    (Blk::Manichaean, "Manichaean", "Manichaean", "Manichaean"),
    (Blk::Marchen, "Marchen", "Marchen", "Marchen"),
    (Blk::MasaramGondi, "MasaramGondi", "Masaram_Gondi", "Masaram_Gondi"),
    (Blk::MathAlphanum, "MathAlphanum", "Math_Alphanum", "Mathematical_Alphanumeric_Symbols"),
    (Blk::MathOperators, "MathOperators", "Math_Operators", "Mathematical_Operators"),
    (Blk::MayanNumerals, "MayanNumerals", "Mayan_Numerals", "Mayan_Numerals"),
    (Blk::Medefaidrin, "Medefaidrin", "Medefaidrin", "Medefaidrin"),
    (Blk::MeeteiMayek, "MeeteiMayek", "Meetei_Mayek", "Meetei_Mayek"),
    (Blk::MeeteiMayekExt, "MeeteiMayekExt", "Meetei_Mayek_Ext", "Meetei_Mayek_Extensions"),
    (Blk::MendeKikakui, "MendeKikakui", "Mende_Kikakui", "Mende_Kikakui"),
    (Blk::MeroiticCursive, "MeroiticCursive", "Meroitic_Cursive", "Meroitic_Cursive"),
    (Blk::MeroiticHieroglyphs, "MeroiticHieroglyphs", "Meroitic_Hieroglyphs", "Meroitic_Hieroglyphs"),
    (Blk::Miao, "Miao", "Miao", "Miao"),
    (Blk::MiscArrows, "MiscArrows", "Misc_Arrows", "Miscellaneous_Symbols_And_Arrows"),
    (Blk::MiscMathSymbolsA, "MiscMathSymbolsA", "Misc_Math_Symbols_A", "Miscellaneous_Mathematical_Symbols_A"),
    (Blk::MiscMathSymbolsB, "MiscMathSymbolsB", "Misc_Math_Symbols_B", "Miscellaneous_Mathematical_Symbols_B"),
    (Blk::MiscPictographs, "MiscPictographs", "Misc_Pictographs", "Miscellaneous_Symbols_And_Pictographs"),
    (Blk::MiscSymbols, "MiscSymbols", "Misc_Symbols", "Miscellaneous_Symbols"),
    (Blk::MiscTechnical, "MiscTechnical", "Misc_Technical", "Miscellaneous_Technical"),
    (Blk::Modi, "Modi", "Modi", "Modi"),
    (Blk::ModifierLetters, "ModifierLetters", "Modifier_Letters", "Spacing_Modifier_Letters"),
    (Blk::ModifierToneLetters, "ModifierToneLetters", "Modifier_Tone_Letters", "Modifier_Tone_Letters"),
    (Blk::Mongolian, "Mongolian", "Mongolian", "Mongolian"),
    (Blk::MongolianSup, "MongolianSup", "Mongolian_Sup", "Mongolian_Supplement"),
    (Blk::Mro, "Mro", "Mro", "Mro"),
    (Blk::Multani, "Multani", "Multani", "Multani"),
    (Blk::Music, "Music", "Music", "Musical_Symbols"),
    (Blk::Myanmar, "Myanmar", "Myanmar", "Myanmar"),
    (Blk::MyanmarExtA, "MyanmarExtA", "Myanmar_Ext_A", "Myanmar_Extended_A"),
    (Blk::MyanmarExtB, "MyanmarExtB", "Myanmar_Ext_B", "Myanmar_Extended_B"),
    (Blk::Nabataean, "Nabataean", "Nabataean", "Nabataean"),
    (Blk::NagMundari, "NagMundari", "Nag_Mundari", "Nag_Mundari"),
    (Blk::Nandinagari, "Nandinagari", "Nandinagari", "Nandinagari"),
    (Blk::Nb, "Nb", "NB", "No_Block"),
    (Blk::NewTaiLue, "NewTaiLue", "New_Tai_Lue", "New_Tai_Lue"),
    (Blk::Newa, "Newa", "Newa", "Newa"),
    (Blk::Nko, "Nko", "NKo", "NKo"),
    (Blk::NumberForms, "NumberForms", "Number_Forms", "Number_Forms"),
    (Blk::Nushu, "Nushu", "Nushu", "Nushu"),
    (Blk::NyiakengPuachueHmong, "NyiakengPuachueHmong", "Nyiakeng_Puachue_Hmong", "Nyiakeng_Puachue_Hmong"),
    (Blk::Ocr, "Ocr", "OCR", "Optical_Character_Recognition"),
    (Blk::Ogham, "Ogham", "Ogham", "Ogham"),
    (Blk::OlChiki, "OlChiki", "Ol_Chiki", "Ol_Chiki"),
    (Blk::OldHungarian, "OldHungarian", "Old_Hungarian", "Old_Hungarian"),
    (Blk::OldItalic, "OldItalic", "Old_Italic", "Old_Italic"),
    (Blk::OldNorthArabian, "OldNorthArabian", "Old_North_Arabian", "Old_North_Arabian"),
    (Blk::OldPermic, "OldPermic", "Old_Permic", "Old_Permic"),
    (Blk::OldPersian, "OldPersian", "Old_Persian", "Old_Persian"),
    (Blk::OldSogdian, "OldSogdian", "Old_Sogdian", "Old_Sogdian"),
    (Blk::OldSouthArabian, "OldSouthArabian", "Old_South_Arabian", "Old_South_Arabian"),
    (Blk::OldTurkic, "OldTurkic", "Old_Turkic", "Old_Turkic"),
    (Blk::OldUyghur, "OldUyghur", "Old_Uyghur", "Old_Uyghur"),
    (Blk::Oriya, "Oriya", "Oriya", "Oriya"),
    (Blk::OrnamentalDingbats, "OrnamentalDingbats", "Ornamental_Dingbats", "Ornamental_Dingbats"),
    (Blk::Osage, "Osage", "Osage", "Osage"),
    (Blk::Osmanya, "Osmanya", "Osmanya", "Osmanya"),
    (Blk::OttomanSiyaqNumbers, "OttomanSiyaqNumbers", "Ottoman_Siyaq_Numbers", "Ottoman_Siyaq_Numbers"),
    (Blk::PahawhHmong, "PahawhHmong", "Pahawh_Hmong", "Pahawh_Hmong"),
    (Blk::Palmyrene, "Palmyrene", "Palmyrene", "Palmyrene"),
    (Blk::PauCinHau, "PauCinHau", "Pau_Cin_Hau", "Pau_Cin_Hau"),
    (Blk::PhagsPa, "PhagsPa", "Phags_Pa", "Phags_Pa"),
    (Blk::Phaistos, "Phaistos", "Phaistos", "Phaistos_Disc"),
    (Blk::Phoenician, "Phoenician", "Phoenician", "Phoenician"),
    (Blk::PhoneticExt, "PhoneticExt", "Phonetic_Ext", "Phonetic_Extensions"),
    (Blk::PhoneticExtSup, "PhoneticExtSup", "Phonetic_Ext_Sup", "Phonetic_Extensions_Supplement"),
    (Blk::PlayingCards, "PlayingCards", "Playing_Cards", "Playing_Cards"),
    (Blk::PsalterPahlavi, "PsalterPahlavi", "Psalter_Pahlavi", "Psalter_Pahlavi"),
    (Blk::Pua, "Pua", "PUA", "Private_Use_Area"),
    (Blk::Punctuation, "Punctuation", "Punctuation", "General_Punctuation"),
    (Blk::Rejang, "Rejang", "Rejang", "Rejang"),
    (Blk::Rumi, "Rumi", "Rumi", "Rumi_Numeral_Symbols"),
    (Blk::Runic, "Runic", "Runic", "Runic"),
    (Blk::Samaritan, "Samaritan", "Samaritan", "Samaritan"),
    (Blk::Saurashtra, "Saurashtra", "Saurashtra", "Saurashtra"),
    (Blk::Sharada, "Sharada", "Sharada", "Sharada"),
    (Blk::Shavian, "Shavian", "Shavian", "Shavian"),
    (Blk::ShorthandFormatControls, "ShorthandFormatControls", "Shorthand_Format_Controls", "Shorthand_Format_Controls"),
    (Blk::Siddham, "Siddham", "Siddham", "Siddham"),
    (Blk::Sinhala, "Sinhala", "Sinhala", "Sinhala"),
    (Blk::SinhalaArchaicNumbers, "SinhalaArchaicNumbers", "Sinhala_Archaic_Numbers", "Sinhala_Archaic_Numbers"),
    (Blk::SmallForms, "SmallForms", "Small_Forms", "Small_Form_Variants"),
    (Blk::SmallKanaExt, "SmallKanaExt", "Small_Kana_Ext", "Small_Kana_Extension"),
    (Blk::Sogdian, "Sogdian", "Sogdian", "Sogdian"),
    (Blk::SoraSompeng, "SoraSompeng", "Sora_Sompeng", "Sora_Sompeng"),
    (Blk::Soyombo, "Soyombo", "Soyombo", "Soyombo"),
    (Blk::Specials, "Specials", "Specials", "Specials"),
    (Blk::Sundanese, "Sundanese", "Sundanese", "Sundanese"),
    (Blk::SundaneseSup, "SundaneseSup", "Sundanese_Sup", "Sundanese_Supplement"),
    (Blk::SupArrowsA, "SupArrowsA", "Sup_Arrows_A", "Supplemental_Arrows_A"),
    (Blk::SupArrowsB, "SupArrowsB", "Sup_Arrows_B", "Supplemental_Arrows_B"),
    (Blk::SupArrowsC, "SupArrowsC", "Sup_Arrows_C", "Supplemental_Arrows_C"),
    (Blk::SupMathOperators, "SupMathOperators", "Sup_Math_Operators", "Supplemental_Mathematical_Operators"),
    (Blk::SupPuaA, "SupPuaA", "Sup_PUA_A", "Supplementary_Private_Use_Area_A"),
    (Blk::SupPuaB, "SupPuaB", "Sup_PUA_B", "Supplementary_Private_Use_Area_B"),
    (Blk::SupPunctuation, "SupPunctuation", "Sup_Punctuation", "Supplemental_Punctuation"),
    (Blk::SupSymbolsAndPictographs, "SupSymbolsAndPictographs", "Sup_Symbols_And_Pictographs", "Supplemental_Symbols_And_Pictographs"),
    (Blk::SuperAndSub, "SuperAndSub", "Super_And_Sub", "Superscripts_And_Subscripts"),
    (Blk::SuttonSignwriting, "SuttonSignwriting", "Sutton_SignWriting", "Sutton_SignWriting"),
    (Blk::SylotiNagri, "SylotiNagri", "Syloti_Nagri", "Syloti_Nagri"),
    (Blk::SymbolsAndPictographsExtA, "SymbolsAndPictographsExtA", "Symbols_And_Pictographs_Ext_A", "Symbols_And_Pictographs_Extended_A"),
    (Blk::SymbolsForLegacyComputing, "SymbolsForLegacyComputing", "Symbols_For_Legacy_Computing", "Symbols_For_Legacy_Computing"),
    (Blk::Syriac, "Syriac", "Syriac", "Syriac"),
    (Blk::SyriacSup, "SyriacSup", "Syriac_Sup", "Syriac_Supplement"),
    (Blk::Tagalog, "Tagalog", "Tagalog", "Tagalog"),
    (Blk::Tagbanwa, "Tagbanwa", "Tagbanwa", "Tagbanwa"),
    (Blk::Tags, "Tags", "Tags", "Tags"),
    (Blk::TaiLe, "TaiLe", "Tai_Le", "Tai_Le"),
    (Blk::TaiTham, "TaiTham", "Tai_Tham", "Tai_Tham"),
    (Blk::TaiViet, "TaiViet", "Tai_Viet", "Tai_Viet"),
    (Blk::TaiXuanJing, "TaiXuanJing", "Tai_Xuan_Jing", "Tai_Xuan_Jing_Symbols"),
    (Blk::Takri, "Takri", "Takri", "Takri"),
    (Blk::Tamil, "Tamil", "Tamil", "Tamil"),
    (Blk::TamilSup, "TamilSup", "Tamil_Sup", "Tamil_Supplement"),
    (Blk::Tangsa, "Tangsa", "Tangsa", "Tangsa"),
    (Blk::Tangut, "Tangut", "Tangut", "Tangut"),
    (Blk::TangutComponents, "TangutComponents", "Tangut_Components", "Tangut_Components"),
    (Blk::TangutSup, "TangutSup", "Tangut_Sup", "Tangut_Supplement"),
    (Blk::Telugu, "Telugu", "Telugu", "Telugu"),
    (Blk::Thaana, "Thaana", "Thaana", "Thaana"),
    (Blk::Thai, "Thai", "Thai", "Thai"),
    (Blk::Tibetan, "Tibetan", "Tibetan", "Tibetan"),
    (Blk::Tifinagh, "Tifinagh", "Tifinagh", "Tifinagh"),
    (Blk::Tirhuta, "Tirhuta", "Tirhuta", "Tirhuta"),
    (Blk::Toto, "Toto", "Toto", "Toto"),
    (Blk::TransportAndMap, "TransportAndMap", "Transport_And_Map", "Transport_And_Map_Symbols"),
    (Blk::Ucas, "Ucas", "UCAS", "Unified_Canadian_Aboriginal_Syllabics"),
    (Blk::UcasExt, "UcasExt", "UCAS_Ext", "Unified_Canadian_Aboriginal_Syllabics_Extended"),
    (Blk::UcasExtA, "UcasExtA", "UCAS_Ext_A", "Unified_Canadian_Aboriginal_Syllabics_Extended_A"),
    (Blk::Ugaritic, "Ugaritic", "Ugaritic", "Ugaritic"),
    (Blk::Vai, "Vai", "Vai", "Vai"),
    (Blk::VedicExt, "VedicExt", "Vedic_Ext", "Vedic_Extensions"),
    (Blk::VerticalForms, "VerticalForms", "Vertical_Forms", "Vertical_Forms"),
    (Blk::Vithkuqi, "Vithkuqi", "Vithkuqi", "Vithkuqi"),
    (Blk::Vs, "Vs", "VS", "Variation_Selectors"),
    (Blk::VsSup, "VsSup", "VS_Sup", "Variation_Selectors_Supplement"),
    (Blk::Wancho, "Wancho", "Wancho", "Wancho"),
    (Blk::WarangCiti, "WarangCiti", "Warang_Citi", "Warang_Citi"),
    (Blk::Yezidi, "Yezidi", "Yezidi", "Yezidi"),
    (Blk::YiRadicals, "YiRadicals", "Yi_Radicals", "Yi_Radicals"),
    (Blk::YiSyllables, "YiSyllables", "Yi_Syllables", "Yi_Syllables"),
    (Blk::Yijing, "Yijing", "Yijing", "Yijing_Hexagram_Symbols"),
    (Blk::ZanabazarSquare, "ZanabazarSquare", "Zanabazar_Square", "Zanabazar_Square"),
    (Blk::ZnamennyMusic, "ZnamennyMusic", "Znamenny_Music", "Znamenny_Musical_Notation"),
];
pub const SC: &[(Sc, &str, &str, &str)] = &[
    (Sc::Adlm, "Adlm", "Adlm", "Adlam"),
    (Sc::Aghb, "Aghb", "Aghb", "Caucasian_Albanian"),
    (Sc::Ahom, "Ahom", "Ahom", "Ahom"),
    (Sc::Arab, "Arab", "Arab", "Arabic"),
    (Sc::Armi, "Armi", "Armi", "Imperial_Aramaic"),
    (Sc::Armn, "Armn", "Armn", "Armenian"),
    (Sc::Avst, "Avst", "Avst", "Avestan"),
    (Sc::Bali, "Bali", "Bali", "Balinese"),
    (Sc::Bamu, "Bamu", "Bamu", "Bamum"),
    (Sc::Bass, "Bass", "Bass", "Bassa_Vah"),
    (Sc::Batk, "Batk", "Batk", "Batak"),
    (Sc::Beng, "Beng", "Beng", "Bengali"),
    (Sc::Bhks, "Bhks", "Bhks", "Bhaiksuki"),
    (Sc::Bopo, "Bopo", "Bopo", "Bopomofo"),
    (Sc::Brah, "Brah", "Brah", "Brahmi"),
    (Sc::Brai, "Brai", "Brai", "Braille"),
    (Sc::Bugi, "Bugi", "Bugi", "Buginese"),
    (Sc::Buhd, "Buhd", "Buhd", "Buhid"),
    (Sc::Cakm, "Cakm", "Cakm", "Chakma"),
    (Sc::Cans, "Cans", "Cans", "Canadian_Aboriginal"),
    (Sc::Cari, "Cari", "Cari", "Carian"),
    (Sc::Cham, "Cham", "Cham", "Cham"),
    (Sc::Cher, "Cher", "Cher", "Cherokee"),
    (Sc::Chrs, "Chrs", "Chrs", "Chorasmian"),
    (Sc::Copt, "Copt", "Copt", "Coptic"),
    (Sc::Cpmn, "Cpmn", "Cpmn", "Cypro_Minoan"),
    (Sc::Cprt, "Cprt", "Cprt", "Cypriot"),
    (Sc::Cyrl, "Cyrl", "Cyrl", "Cyrillic"),
    (Sc::Deva, "Deva", "Deva", "Devanagari"),
    (Sc::Diak, "Diak", "Diak", "Dives_Akuru"),
    (Sc::Dogr, "Dogr", "Dogr", "Dogra"),
    (Sc::Dsrt, "Dsrt", "Dsrt", "Deseret"),
    (Sc::Dupl, "Dupl", "Dupl", "Duployan"),
    (Sc::Egyp, "Egyp", "Egyp", "Egyptian_Hieroglyphs"),
    (Sc::Elba, "Elba", "Elba", "Elbasan"),
    (Sc::Elym, "Elym", "Elym", "Elymaic"),
    (Sc::Ethi, "Ethi", "Ethi", "Ethiopic"),
    (Sc::Geor, "Geor", "Geor", "Georgian"),
    (Sc::Glag, "Glag", "Glag", "Glagolitic"),
    (Sc::Gong, "Gong", "Gong", "Gunjala_Gondi"),
    (Sc::Gonm, "Gonm", "Gonm", "Masaram_Gondi"),
    (Sc::Goth, "Goth", "Goth", "Gothic"),
    (Sc::Gran, "Gran", "Gran", "Grantha"),
    (Sc::Grek, "Grek", "Grek", "Greek"),
    (Sc::Gujr, "Gujr", "Gujr", "Gujarati"),
    (Sc::Guru, "Guru", "Guru", "Gurmukhi"),
    (Sc::Hang, "Hang", "Hang", "Hangul"),
    (Sc::Hani, "Hani", "Hani", "Han"),
    (Sc::Hano, "Hano", "Hano", "Hanunoo"),
    (Sc::Hatr, "Hatr", "Hatr", "Hatran"),
    (Sc::Hebr, "Hebr", "Hebr", "Hebrew"),
    (Sc::Hira, "Hira", "Hira", "Hiragana"),
    (Sc::Hluw, "Hluw", "Hluw", "Anatolian_Hieroglyphs"),
    (Sc::Hmng, "Hmng", "Hmng", "Pahawh_Hmong"),
    (Sc::Hmnp, "Hmnp", "Hmnp", "Nyiakeng_Puachue_Hmong"),
    (Sc::Hrkt, "Hrkt", "Hrkt", "Katakana_Or_Hiragana"),
    (Sc::Hung, "Hung", "Hung", "Old_Hungarian"),
    (Sc::Ital, "Ital", "Ital", "Old_Italic"),
    (Sc::Java, "Java", "Java", "Javanese"),
    (Sc::Kali, "Kali", "Kali", "Kayah_Li"),
    (Sc::Kana, "Kana", "Kana", "Katakana"),
    (Sc::Kawi, "Kawi", "Kawi", "Kawi"),
    (Sc::Khar, "Khar", "Khar", "Kharoshthi"),
    (Sc::Khmr, "Khmr", "Khmr", "Khmer"),
    (Sc::Khoj, "Khoj", "Khoj", "Khojki"),
    (Sc::Kits, "Kits", "Kits", "Khitan_Small_Script"),
    (Sc::Knda, "Knda", "Knda", "Kannada"),
    (Sc::Kthi, "Kthi", "Kthi", "Kaithi"),
    (Sc::Lana, "Lana", "Lana", "Tai_Tham"),
    (Sc::Laoo, "Laoo", "Laoo", "Lao"),
    (Sc::Latn, "Latn", "Latn", "Latin"),
    (Sc::Lepc, "Lepc", "Lepc", "Lepcha"),
    (Sc::Limb, "Limb", "Limb", "Limbu"),
    (Sc::Lina, "Lina", "Lina", "Linear_A"),
    (Sc::Linb, "Linb", "Linb", "Linear_B"),
    (Sc::Lisu, "Lisu", "Lisu", "Lisu"),
    (Sc::Lyci, "Lyci", "Lyci", "Lycian"),
    (Sc::Lydi, "Lydi", "Lydi", "Lydian"),
    (Sc::Mahj, "Mahj", "Mahj", "Mahajani"),
    (Sc::Maka, "Maka", "Maka", "Makasar"),
    (Sc::Mand, "Mand", "Mand", "Mandaic"),
    (Sc::Mani, "Mani", "Mani", "Manichaean"),
    (Sc::Marc, "Marc", "Marc", "Marchen"),
    (Sc::Medf, "Medf", "Medf", "Medefaidrin"),
    (Sc::Mend, "Mend", "Mend", "Mende_Kikakui"),
    (Sc::Merc, "Merc", "Merc", "Meroitic_Cursive"),
    (Sc::Mero, "Mero", "Mero", "Meroitic_Hieroglyphs"),
    (Sc::Mlym, "Mlym", "Mlym", "Malayalam"),
    (Sc::Modi, "Modi", "Modi", "Modi"),
    (Sc::Mong, "Mong", "Mong", "Mongolian"),
    (Sc::Mroo, "Mroo", "Mroo", "Mro"),
    (Sc::Mtei, "Mtei", "Mtei", "Meetei_Mayek"),
    (Sc::Mult, "Mult", "Mult", "Multani"),
    (Sc::Mymr, "Mymr", "Mymr", "Myanmar"),
    (Sc::Nagm, "Nagm", "Nagm", "Nag_Mundari"),
    (Sc::Nand, "Nand", "Nand", "Nandinagari"),
    (Sc::Narb, "Narb", "Narb", "Old_North_Arabian"),
    (Sc::Nbat, "Nbat", "Nbat", "Nabataean"),
    (Sc::Newa, "Newa", "Newa", "Newa"),
    (Sc::Nkoo, "Nkoo", "Nkoo", "Nko"),
    (Sc::Nshu, "Nshu", "Nshu", "Nushu"),
    (Sc::Ogam, "Ogam", "Ogam", "Ogham"),
    (Sc::Olck, "Olck", "Olck", "Ol_Chiki"),
    (Sc::Orkh, "Orkh", "Orkh", "Old_Turkic"),
    (Sc::Orya, "Orya", "Orya", "Oriya"),
    (Sc::Osge, "Osge", "Osge", "Osage"),
    (Sc::Osma, "Osma", "Osma", "Osmanya"),
    (Sc::Ougr, "Ougr", "Ougr", "Old_Uyghur"),
    (Sc::Palm, "Palm", "Palm", "Palmyrene"),
    (Sc::Pauc, "Pauc", "Pauc", "Pau_Cin_Hau"),
    (Sc::Perm, "Perm", "Perm", "Old_Permic"),
    (Sc::Phag, "Phag", "Phag", "Phags_Pa"),
    (Sc::Phli, "Phli", "Phli", "Inscriptional_Pahlavi"),
    (Sc::Phlp, "Phlp", "Phlp", "Psalter_Pahlavi"),
    (Sc::Phnx, "Phnx", "Phnx", "Phoenician"),
    (Sc::Plrd, "Plrd", "Plrd", "Miao"),
    (Sc::Prti, "Prti", "Prti", "Inscriptional_Parthian"),
    (Sc::Rjng, "Rjng", "Rjng", "Rejang"),
    (Sc::Rohg, "Rohg", "Rohg", "Hanifi_Rohingya"),
    (Sc::Runr, "Runr", "Runr", "Runic"),
    (Sc::Samr, "Samr", "Samr", "Samaritan"),
    (Sc::Sarb, "Sarb", "Sarb", "Old_South_Arabian"),
    (Sc::Saur, "Saur", "Saur", "Saurashtra"),
    (Sc::Sgnw, "Sgnw", "Sgnw", "SignWriting"),
    (Sc::Shaw, "Shaw", "Shaw", "Shavian"),
    (Sc::Shrd, "Shrd", "Shrd", "Sharada"),
    (Sc::Sidd, "Sidd", "Sidd", "Siddham"),
    (Sc::Sind, "Sind", "Sind", "Khudawadi"),
    (Sc::Sinh, "Sinh", "Sinh", "Sinhala"),
    (Sc::Sogd, "Sogd", "Sogd", "Sogdian"),
    (Sc::Sogo, "Sogo", "Sogo", "Old_Sogdian"),
    (Sc::Sora, "Sora", "Sora", "Sora_Sompeng"),
    (Sc::Soyo, "Soyo", "Soyo", "Soyombo"),
    (Sc::Sund, "Sund", "Sund", "Sundanese"),
    (Sc::Sylo, "Sylo", "Sylo", "Syloti_Nagri"),
    (Sc::Syrc, "Syrc", "Syrc", "Syriac"),
    (Sc::Tagb, "Tagb", "Tagb", "Tagbanwa"),
    (Sc::Takr, "Takr", "Takr", "Takri"),
    (Sc::Tale, "Tale", "Tale", "Tai_Le"),
    (Sc::Talu, "Talu", "Talu", "New_Tai_Lue"),
    (Sc::Taml, "Taml", "Taml", "Tamil"),
    (Sc::Tang, "Tang", "Tang", "Tangut"),
    (Sc::Tavt, "Tavt", "Tavt", "Tai_Viet"),
    (Sc::Telu, "Telu", "Telu", "Telugu"),
    (Sc::Tfng, "Tfng", "Tfng", "Tifinagh"),
    (Sc::Tglg, "Tglg", "Tglg", "Tagalog"),
    (Sc::Thaa, "Thaa", "Thaa", "Thaana"),
    (Sc::Thai, "Thai", "Thai", "Thai"),
    (Sc::Tibt, "Tibt", "Tibt", "Tibetan"),
    (Sc::Tirh, "Tirh", "Tirh", "Tirhuta"),
    (Sc::Tnsa, "Tnsa", "Tnsa", "Tangsa"),
    (Sc::Toto, "Toto", "Toto", "Toto"),
    (Sc::Ugar, "Ugar", "Ugar", "Ugaritic"),
    (Sc::Vaii, "Vaii", "Vaii", "Vai"),
    (Sc::Vith, "Vith", "Vith", "Vithkuqi"),
    (Sc::Wara, "Wara", "Wara", "Warang_Citi"),
    (Sc::Wcho, "Wcho", "Wcho", "Wancho"),
    (Sc::Xpeo, "Xpeo", "Xpeo", "Old_Persian"),
    (Sc::Xsux, "Xsux", "Xsux", "Cuneiform"),
    (Sc::Yezi, "Yezi", "Yezi", "Yezidi"),
    (Sc::Yiii, "Yiii", "Yiii", "Yi"),
    (Sc::Zanb, "Zanb", "Zanb", "Zanabazar_Square"),
    (Sc::Zinh, "Zinh", "Zinh", "Inherited"),
    (Sc::Zyyy, "Zyyy", "Zyyy", "Common"),
    (Sc::Zzzz, "Zzzz", "Zzzz", "Unknown"),
];
pub const AGE: &[(Age, &str, &str, &str)] = &[
    (Age::V1_1, "V1_1", "1.1", "V1_1"),
    (Age::V2_0, "V2_0", "2.0", "V2_0"),
    (Age::V2_1, "V2_1", "2.1", "V2_1"),
    (Age::V3_0, "V3_0", "3.0", "V3_0"),
    (Age::V3_1, "V3_1", "3.1", "V3_1"),
    (Age::V3_2, "V3_2", "3.2", "V3_2"),
    (Age::V4_0, "V4_0", "4.0", "V4_0"),
    (Age::V4_1, "V4_1", "4.1", "V4_1"),
    (Age::V5_0, "V5_0", "5.0", "V5_0"),
    (Age::V5_1, "V5_1", "5.1", "V5_1"),
    (Age::V5_2, "V5_2", "5.2", "V5_2"),
    (Age::V6_0, "V6_0", "6.0", "V6_0"),
    (Age::V6_1, "V6_1", "6.1", "V6_1"),
    (Age::V6_2, "V6_2", "6.2", "V6_2"),
    (Age::V6_3, "V6_3", "6.3", "V6_3"),
    (Age::V7_0, "V7_0", "7.0", "V7_0"),
    (Age::V8_0, "V8_0", "8.0", "V8_0"),
    (Age::V9_0, "V9_0", "9.0", "V9_0"),
    (Age::V10_0, "V10_0", "10.0", "V10_0"),
    (Age::V11_0, "V11_0", "11.0", "V11_0"),
    (Age::V12_0, "V12_0", "12.0", "V12_0"),
    (Age::V12_1, "V12_1", "12.1", "V12_1"),
    (Age::V13_0, "V13_0", "13.0", "V13_0"),
    (Age::V14_0, "V14_0", "14.0", "V14_0"),
    (Age::V15_0, "V15_0", "15.0", "V15_0"),
    (Age::V15_1, "V15_1", "15.1", "V15_1"),
    (Age::NA, "NA", "NA", "Unassigned"),
];
pub const BINARY: &[(BinaryProperty, &str, &str, &str)] = &[
    (BinaryProperty::Y, "Y", "Y", "Yes"),
    (BinaryProperty::N, "N", "N", "No"),
];
