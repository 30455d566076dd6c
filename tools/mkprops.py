#!/usr/bin/env python3
"""Authoring helper: writes properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=None)))
U="src/unicode.rs"; N="src/unicode/normalization.rs"
p("C01","Enumerated character properties agree with UCD 15.1 for every code point",
 "For every code point U+0000..U+10FFFF, surrogates and unassigned ones included, the General_Category, Bidi_Class, Canonical_Combining_Class (value and number), Decomposition_Type, Grapheme_Cluster_Break, Word_Break, Hangul_Syllable_Type, Indic_Syllabic_Category, Indic_Conjunct_Break, Block, Script and Age returned are the ones Unicode Character Database 15.1 assigns (including the documented defaults for unlisted code points). The lookup never panics.",
 ["inputs"],"all 1,114,112 code points, for each of the 12 enumerated properties",
 "The stable tests look up one General_Category; the full comparison against the UCD XML needs a file that is not in the repository.",
 ["src/unicode/ucd/gc.rs","src/unicode/ucd/bc.rs","src/unicode/ucd/ccc.rs","src/unicode/ucd/dt.rs","src/unicode/ucd/gcb.rs","src/unicode/ucd/wb.rs","src/unicode/ucd/hst.rs","src/unicode/ucd/insc.rs","src/unicode/ucd/blk.rs","src/unicode/ucd/sc.rs","src/unicode/ucd/age.rs","src/unicode/ucd/derived_props.rs","src/collections.rs","src/unicode/props.rs"],
 [dict(name="two-stage tables STAGE_1/STAGE_2",where="src/unicode/ucd/*.rs"),dict(name="TwoStageTable::at",where="src/collections.rs")],
 obs=["Ucd::{gc,bc,ccc,dt,gcb,wb,hst,insc,incb,blk,sc,age} on CodePoint"])
p("C02","Binary PropList properties agree with UCD 15.1 for every code point",
 "For every code point U+0000..U+10FFFF each of the binary character properties taken from PropList.txt (White_Space, Dash, Hex_Digit, Other_Alphabetic, Diacritic, Pattern_Syntax, Variation_Selector, Noncharacter_Code_Point and the others exposed on the property trait) and Composition_Exclusion is true exactly for the code points UCD 15.1 lists. No code point next to a listed range is misclassified.",
 ["inputs"],"all 1,114,112 code points, for each of the 34 PropList properties and Composition_Exclusion",
 "No stable test reads any binary property; the ranges are thousands of hand-transcribed bounds.",
 ["src/unicode/ucd/binary_props.rs","src/unicode/ucd/ce.rs"],
 [dict(name="range chains, one function per property",where="src/unicode/ucd/binary_props.rs"),dict(name="CE_LIST",where="src/unicode/ucd/ce.rs")],
 obs=["Ucd::{wspace,bidi_c,...,ri,ce}"])
p("C03","Emoji properties agree with emoji-data 15.1 for every code point",
 "For every code point the properties Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component and Extended_Pictographic are true exactly for the code points listed in the Unicode 15.1 emoji data. The lookup never panics.",
 ["inputs"],"all 1,114,112 code points, for each of 6 properties",
 "No stable test reads an emoji property directly; the grapheme tests touch a handful of pictographs.",
 ["src/unicode/ucd/emoji_props.rs","src/collections.rs"],
 [dict(name="boolean two-stage tables",where="src/unicode/ucd/emoji_props.rs")],obs=["Ucd::{emoji,epres,emod,ebase,ecomp,ext_pict}"])
p("C04","Derived core properties satisfy their UAX #44 derivations",
 "For every code point Math, Alphabetic, Lowercase, Uppercase, Cased, Case_Ignorable, Default_Ignorable_Code_Point, Grapheme_Extend, ID_Start and ID_Continue hold exactly when the derivation published in UAX #44 / DerivedCoreProperties (a Boolean formula over General_Category, Word_Break and the contributory binary properties) holds.",
 ["inputs"],"all 1,114,112 code points, for each of 10 derived properties",
 "No stable test reads a derived property; the derivations combine several independently maintained tables.",
 ["src/unicode/ucd/derived_props.rs"],
 [dict(name="derivation functions math/alpha/.../idc",where="src/unicode/ucd/derived_props.rs")],obs=["Ucd::{math,alpha,lower,upper,cased,ci,di,gr_ext,ids,idc}"])
p("C05","XID_Start and XID_Continue are the NFKC-closed identifier sets",
 "For every code point XID_Start and XID_Continue equal the Unicode 15.1 values: subsets of ID_Start and ID_Continue respectively, with XID_Start contained in XID_Continue, from which exactly the characters whose compatibility normalization would leave the identifier syntax have been removed. Consequently, if a character may start (continue) an identifier then its NFKC and NFKD forms consist of a character that may start (continue) one, followed by characters that may continue one.",
 ["inputs"],"all 1,114,112 code points and their normalized forms",
 "No stable test reads XID properties; closure relates two identifier properties with normalization over all characters.",
 ["src/unicode/ucd/derived_props.rs",N],
 [dict(name="xids / xidc exclusion lists",where="src/unicode/ucd/derived_props.rs")],obs=["Ucd::{xids,xidc}","Normalization::{to_nfkc,to_nfkd}"])
p("C06","Full_Composition_Exclusion is exactly exclusions, singletons and non-starters",
 "For every code point, surrogates included, Full_Composition_Exclusion is true exactly when the code point is script-specifically excluded (Composition_Exclusion), or has a canonical decomposition mapping to a single character, or has a canonical decomposition whose full expansion has more than one character and begins with a non-starter. It is never a panic.",
 ["inputs"],"all 1,114,112 code points",
 "Stable tests call the helper predicates on five code points.",
 ["src/unicode/ucd/normalization_props.rs",N,"src/unicode/ucd/ce.rs"],
 [dict(name="comp_ex, singleton_decomposition, non_starter_decomposition",where=N)],obs=["Ucd::comp_ex"])
p("C07","char and CodePoint views agree; CodePoint construction is exact",
 "Constructing a code point succeeds exactly for values 0..=0x10FFFF, and the constructed value converts back to the same number, prints as U+ followed by at least four upper-case hexadecimal digits without superfluous leading zeros, and equals the one obtained from the char of that scalar value. Every property query answers the same for a char and for the code point with the same value.",
 ["inputs"],"all u32 values for construction; all Unicode scalar values and all 67 properties for agreement",
 "Tests format one code point and mix receivers arbitrarily; a method forwarding to the wrong property table on one receiver is only visible by comparing all methods.",
 [U],[dict(name="impl Ucd for CodePoint / impl Ucd for char, CodePoint::new, ToCodePoint, Display",where=U)],obs=["CodePoint::{new,to_u32}","Display for CodePoint","ToCodePoint::to_code_point","Ucd on char"])
p("C08","Character names are exact for every code point",
 "For every code point the Name property is the one Unicode 15.1 defines: the listed name, or the name built by rule NR1 (Hangul syllables, from the Jamo short names) or NR2 (prefix plus upper-case hexadecimal for CJK, Tangut, Khitan and Nushu ranges), and the empty string for every code point without a name. No two code points share a non-empty name.",
 ["inputs"],"all 1,114,112 code points",
 "One name is tested.",
 ["src/unicode/ucd/na.rs","src/unicode/ucd/na/na_table.rs","src/unicode/ucd/jsn.rs","src/unicode/hangul.rs"],
 [dict(name="na, syllable_name, jsn, NA_MAP",where="src/unicode/ucd/na.rs")],obs=["Ucd::na"])
p("C09","Decomposition mappings are exact for every code point",
 "For every code point the Decomposition_Mapping returned is exactly the one of Unicode 15.1 (one step, canonical or compatibility; for precomposed Hangul syllables the arithmetic <LV,T> or <L,V> pair), and the empty string for every code point without one. The mapping is non-empty exactly when Decomposition_Type is not None, and repeatedly applying mappings always terminates.",
 ["inputs"],"all 1,114,112 code points",
 "The normalization tests reach mappings only through whole-string conversions of listed samples.",
 ["src/unicode/ucd/dm.rs","src/unicode/ucd/dm/dm_map.rs","src/unicode/hangul.rs"],
 [dict(name="dm, DM_MAP",where="src/unicode/ucd/dm.rs")],obs=["Ucd::dm"])
p("C10","Property value names follow PropertyValueAliases",
 "For every value of every enumerated property type (and the binary Yes/No type) the full and abbreviated names reported are the ones PropertyValueAliases.txt 15.1 gives for that value, so distinct values of a property never share a name.",
 ["inputs"],"all values of the 13 property enumerations",
 "One doc-test prints one script name.",
 ["src/unicode/ucd/property_names.rs","src/unicode/props.rs"],
 [dict(name="*_name functions",where="src/unicode/ucd/property_names.rs")],obs=["UnicodeProperty::property_value_name"])
p("C11","Hangul syllables decompose and compose as mutual inverses",
 "For each of the 11,172 precomposed Hangul syllables the canonical decomposition is the L V (T) sequence given by the arithmetic of Unicode section 3.12 and composing that sequence gives the syllable back; conversely every <L,V>, <LV,T> and <L,V,T> sequence of conjoining jamo composes to the arithmetic syllable. No other jamo combination composes, and the arithmetic never overflows.",
 ["inputs"],"all 11,172 syllables and all pairs / triples over the jamo blocks",
 "Tests convert a few syllables.",
 ["src/unicode/hangul.rs","src/unicode/ucd/dm.rs",N],
 [dict(name="arithmetic_decomposition_mapping, arithmetic_primary_composite_mapping(_lv_t), decompose, rdm",where="src/unicode/hangul.rs")],obs=["Normalization::{to_nfd,to_nfc}","Ucd::dm"])
p("C12","Canonical ordering sorts combining marks stably and moves nothing else",
 "For every character sequence, of any length, the canonically ordered sequence is a permutation of it in which characters with combining class 0 keep their positions, every maximal run of characters with non-zero class is sorted by non-decreasing class, and characters of equal class keep their relative order.",
 ["inputs"],"all strings of any length whose characters have no decompositions (and the decomposed forms of all others)",
 "Tests sort one six-character sequence; sorting of arbitrarily long runs is unbounded.",
 [N],[dict(name="reorderable_pair, canonical_ordering",where=N)],obs=["Normalization::{to_nfd,to_nfkd}"])
p("C13","NFD and NFKD are the fully expanded, canonically ordered string",
 "For every string, to_nfd (to_nfkd) returns the string obtained by recursively replacing every character by its canonical (canonical or compatibility) decomposition mapping until no mapping applies and then applying the Canonical Ordering Algorithm; the conversion terminates, never panics, and is the identity on strings already in that form.",
 ["inputs"],"all strings of any length",
 "The tests convert a finite list of sample strings.",
 [N,U],[dict(name="canonical_decomposition, compatibility_decomposition, nfd, nfkd",where=N),dict(name="impl Normalization for str",where=U)],obs=["Normalization::{to_nfd,to_nfkd}"])
p("C14","NFC and NFKC are the canonical composition of NFD and NFKD",
 "For every string, to_nfc (to_nfkc) returns the result of the Canonical Composition Algorithm (D117) applied to its NFD (NFKD): from left to right each character is merged with the last preceding starter exactly when it is not blocked from it (D115) and a primary composite for the pair exists, and characters that are composition-excluded are never produced. The conversion terminates and never panics.",
 ["inputs"],"all strings of any length",
 "The tests convert a finite list of sample strings.",
 [N,"src/unicode/ucd/dm.rs"],[dict(name="canonical_composition, blocked, primary_composite, starter, rdm",where=N)],obs=["Normalization::{to_nfc,to_nfkc}"])
p("C15","Normalization forms are idempotent and preserve equivalence",
 "For every string s and each form F, F(F(s)) = F(s); NFD(NFC(s)) = NFD(s), NFC(NFD(s)) = NFC(s), NFKD(NFKC(s)) = NFKD(s), NFKC(s) = NFC(NFKD(s)), NFKD(NFC(s)) = NFKD(NFD(s)) = NFKD(s), NFKC(NFC(s)) = NFKC(NFD(s)) = NFKC(s), so two strings have equal NFC exactly when they have equal NFD.",
 ["inputs"],"all strings of any length",
 "The conformance samples check these identities for listed rows only.",
 [N,"src/unicode/ucd/dm.rs",U],[dict(name="nfd, nfkd, nfc, nfkc",where=N)],obs=["Normalization::{to_nfd,to_nfkd,to_nfc,to_nfkc}"])
p("C16","Grapheme segmentation partitions the text",
 "For every string, iterating over its grapheme clusters terminates without panic and yields non-empty substrings, cut at character boundaries, whose concatenation is exactly the string; the empty string yields none, and after the last cluster the iterator keeps returning nothing.",
 ["inputs","histories"],"all strings of any length and every number of next() calls",
 "The tests compare only the clusters that come out on a finite list and never check that the input is covered to the end.",
 [U],[dict(name="BreakGraphemes::next",where=U)],state=[dict(name="BreakGraphemes.slice",meaning="text not yet returned",where=U)],obs=["Segmentation::break_graphemes"])
p("C17","Grapheme clusters break exactly where UAX #29 (15.1) says",
 "For every string the boundaries between successive grapheme clusters are exactly the positions at which the extended grapheme cluster rules GB3 to GB999 of UAX #29 for Unicode 15.1 (Hangul syllables, Extend/ZWJ, SpacingMark, Prepend, Indic conjuncts GB9c, emoji ZWJ sequences GB11, regional-indicator pairs GB12/13) break.",
 ["inputs"],"all strings of any length",
 "The conformance file tests pairs and a few longer samples; the rules with unbounded look-back need arbitrary contexts.",
 [U,"src/unicode/seg.rs"],[dict(name="BreakGraphemes::next",where=U),dict(name="is_gb3..is_gb9b",where="src/unicode/seg.rs")],obs=["Segmentation::break_graphemes"])
p("C18","Two-stage table lookup returns the addressed entry",
 "For every two-stage table built from a first stage, a second stage and a block size, looking up a code point returns the entry of the second-stage block selected by the first stage at index code point / block size, at offset code point mod block size; it succeeds for every code point whose indices are in range, for both 8-bit and 16-bit (or wider) first stages.",
 ["inputs","programs"],"all tables, block sizes and code points with in-range indices",
 "Only used indirectly with fixed tables in the tests.",
 ["src/collections.rs"],[dict(name="TwoStageTable::new / at",where="src/collections.rs")],obs=["seshat::collections::TwoStageTable"])
p("C19","No public query or conversion panics or overflows",
 "For every code point and every property, and for every string and every normalization form or segmentation, the call returns normally: no panic, no out-of-bounds access, no arithmetic overflow, no endless loop.",
 ["inputs"],"all code points, all properties, all strings of any length",
 "Tests run on sample inputs; panics hide at surrogates, at the end of text and in unusual character combinations.",
 [U,N,"src/unicode/hangul.rs","src/unicode/ucd/dm.rs","src/unicode/ucd/na.rs","src/collections.rs"],
 [dict(name="unwraps, indexings and arithmetic throughout",where=N)],obs=["all of Ucd, Normalization, Segmentation"])
p("C20","The library's Unicode version is a faithful, ordered value",
 "The published Unicode version is 15.1.0. Every version value prints as its major, minor and update numbers in decimal without leading zeros, joined by full stops, so two versions print alike exactly when they are equal; versions are equal when all three numbers are, any two are comparable, and they are ordered by major, then minor, then update number.",
 ["inputs"],"all triples and pairs of triples of 32-bit numbers",
 "One test compares the published constant with itself; nothing prints or orders a version.",
 [U],[dict(name="UnicodeVersion, UNICODE_VERSION",where=U)],obs=["UnicodeVersion::to_string","UnicodeVersion: PartialEq, PartialOrd","UNICODE_VERSION"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
