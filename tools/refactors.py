#!/usr/bin/env python3
"""refactors.py [NAME...]   behaviour-preserving edits of the verified code: which modules still prove, is there any alarm?
Each edit: name, search property, modules, list of (file, old, new).  Works in a scratch copy of /repo."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, BLD = "/tmp/refrun", "/tmp/refbuild"
os.environ["VP_REPO"], os.environ["VP_BUILD"] = W, BLD
sys.path.insert(0, V)
N, S, U = "src/unicode/normalization.rs", "src/unicode/seg.rs", "src/unicode.rs"
DM, NA, HG, CO, DP, CE = "src/unicode/ucd/dm.rs", "src/unicode/ucd/na.rs", "src/unicode/hangul.rs", "src/collections.rs", "src/unicode/ucd/derived_props.rs", "src/unicode/ucd/ce.rs"
R = []
def r(name, prop, mods, *edits): R.append((name, prop, mods.split(), edits))

ORD = """    let mut last_idx = sequence.len() - 1;
    while last_idx > 0 {
        for i in 0..=last_idx {
            if i + 1 == last_idx + 1 {
                continue;
            }
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
        last_idx -= 1;
    }
}"""
r("ord-helper", "C12", "order", (N, """            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
        last_idx -= 1;
    }
}""", """            swap_if_reorderable(sequence, i);
        }
        last_idx -= 1;
    }
}

fn swap_if_reorderable(sequence: &mut Vec<char>, i: usize) {
    if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
        sequence.swap(i, i + 1);
    }
}"""))
r("ord-excl-range", "C12", "order", (N, """        for i in 0..=last_idx {
            if i + 1 == last_idx + 1 {
                continue;
            }
""", """        for i in 0..last_idx {
"""))
r("ord-rename", "C12", "order", (N, ORD, ORD.replace("last_idx", "end").replace("[i", "[pos").replace("(i,", "(pos,").replace("i + 1", "pos + 1").replace("for i ", "for pos ")))
r("ord-noop", "C12", "order", (N, "    let mut last_idx = sequence.len() - 1;", "    let _n = sequence.len();\n    let mut last_idx = sequence.len() - 1;"))
r("ord-len-early", "C12", "order", (N, """    if sequence.len() == 0 {
        return ();
    }

    let mut last_idx""", """    if sequence.is_empty() {
        return;
    }

    let mut last_idx"""))
r("ord-rev-for", "C12", "order", (N, ORD, """    for last_idx in (1..sequence.len()).rev() {
        for i in 0..last_idx {
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
    }
}"""))
r("ord-while-inner", "C12", "order", (N, """        for i in 0..=last_idx {
            if i + 1 == last_idx + 1 {
                continue;
            }
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
""", """        let mut i = 0;
        while i < last_idx {
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
            i += 1;
        }
"""))
r("ord-flag", "C12", "order", (N, ORD, """    let mut last_idx = sequence.len() - 1;
    while last_idx > 0 {
        let mut swapped = false;
        for i in 0..last_idx {
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
                swapped = true;
            }
        }
        if !swapped { break; }
        last_idx -= 1;
    }
}"""))
r("ord-sort", "C12", "order", (N, ORD, """    let n = sequence.len();
    let mut i = 0;
    while i < n {
        let mut j = i;
        while j < n && sequence[j].ccc() as u8 != 0 { j += 1; }
        sequence[i..j].sort_by_key(|c| c.ccc() as u8);
        i = j + 1;
    }
}"""))
r("pair-inline", "C12", "order", (N, "            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {", "            let (a, b) = (sequence[i].ccc() as u8, sequence[i + 1].ccc() as u8);\n            if a > b && b > 0 {"))
r("pair-let", "C12", "order", (N, "    a.ccc() as u8 > b.ccc() as u8 && b.ccc() as u8 > 0", "    let (x, y) = (a.ccc() as u8, b.ccc() as u8);\n    y != 0 && y < x"))
r("starter-simple", "C14", "compose", (N, open("/repo/" + N).read().split("let cp_ccc = cp.ccc();")[1].split("pub(super) fn reorderable")[0], "\n    cp_ccc as u8 == 0\n}\n\n"))
r("dec-bool", "C13", "decomp", (N, "    let mut count: usize = 0;\n    let mut decomposed = vec![];\n    for ch in s.iter() {\n        if ch.dm() == \"\" {\n            decomposed.push(*ch);\n        } else {\n            if", "    let mut count = false;\n    let mut decomposed = vec![];\n    for ch in s.iter() {\n        if ch.dm() == \"\" {\n            decomposed.push(*ch);\n        } else {\n            if"),
  (N, "                    count += 1;\n                }\n            } else {", "                    count = true;\n                }\n            } else {"), (N, "    if count == 0 {\n        return decomposed;\n    }\n    canonical_decomposition", "    if !count {\n        return decomposed;\n    }\n    canonical_decomposition"))
r("dec-let-dm", "C13", "decomp", (N, """        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {
                for decomposed_char in ch.dm().chars() {""", """        let mapping = ch.dm();
        if mapping == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {
                for decomposed_char in mapping.chars() {"""))
r("dec-isempty", "C13", "decomp", (N, """        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch""", """        if ch.dm().is_empty() {
            decomposed.push(*ch);
        } else {
            if ch"""))
r("dec-elseif", "C13", "decomp", (N, """        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {
                for decomposed_char in ch.dm().chars() {
                    decomposed.push(decomposed_char);
                    count += 1;
                }
            } else {
                decomposed.push(*ch);
            }
        }""", """        if ch.dt() == Dt::Can && ch.dm() != "" {
            for decomposed_char in ch.dm().chars() {
                decomposed.push(decomposed_char);
                count += 1;
            }
        } else {
            decomposed.push(*ch);
        }"""))
r("dec-extend", "C13", "decomp", (N, """                for decomposed_char in ch.dm().chars() {
                    decomposed.push(decomposed_char);
                    count += 1;
                }
            } else {""", """                decomposed.extend(ch.dm().chars());
                count += 1;
            } else {"""))
r("dec-deref-loop", "C13", "decomp", (N, "pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{\n    let mut count: usize = 0;\n    let mut decomposed = vec![];\n    for ch in s.iter() {", "pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{\n    let mut count: usize = 0;\n    let mut decomposed = Vec::new();\n    for ch in &s {"))
r("dec-iterative", "C13", "decomp", (N, "    if count == 0 {\n        return decomposed;\n    }\n    canonical_decomposition(decomposed)", "    if count != 0 {\n        return canonical_decomposition(decomposed);\n    }\n    decomposed"))
r("dec-shared", "C13", "decomp", (N, """    let mut count: usize = 0;
    let mut decomposed = vec![];
    for ch in s.iter() {
        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            match ch.dt() {
                Dt::None => {
                    decomposed.push(*ch);
                }
                _ => {
                    for decomposed_char in ch.dm().chars() {
                        decomposed.push(decomposed_char);
                        count += 1;
                    }
                }
            }
        }
    }
    if count == 0 {
        return decomposed;
    }
    compatibility_decomposition(&decomposed)
}""", """    let (decomposed, count) = decompose_pass(s, true);
    if count == 0 {
        return decomposed;
    }
    compatibility_decomposition(&decomposed)
}

fn decompose_pass(s: &Vec<char>, compat: bool) -> (Vec<char>, usize) {
    let mut count: usize = 0;
    let mut decomposed = vec![];
    for ch in s.iter() {
        let dt = ch.dt();
        if ch.dm() == "" || !(dt == Dt::Can || compat && dt != Dt::None) {
            decomposed.push(*ch);
        } else {
            for decomposed_char in ch.dm().chars() {
                decomposed.push(decomposed_char);
                count += 1;
            }
        }
    }
    (decomposed, count)
}"""), (N, """    let mut count: usize = 0;
    let mut decomposed = vec![];
    for ch in s.iter() {
        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {
                for decomposed_char in ch.dm().chars() {
                    decomposed.push(decomposed_char);
                    count += 1;
                }
            } else {
                decomposed.push(*ch);
            }
        }
    }
    if count == 0 {
        return decomposed;
    }
    canonical_decomposition""", """    let (decomposed, count) = decompose_pass(&s, false);
    if count == 0 {
        return decomposed;
    }
    canonical_decomposition"""))
r("nfd-helper", "C13", "norm", (N, """pub(crate) fn nfd(s: &str) -> Vec<char> {
    let seq = s.chars().collect::<Vec<char>>();
    let mut seq""", """fn to_vec(s: &str) -> Vec<char> {
    s.chars().collect()
}

pub(crate) fn nfd(s: &str) -> Vec<char> {
    let seq = to_vec(s);
    let mut seq"""))
r("nf-tostring", "C14", "norm", (U, """        let v = normalization::nfc(self);
        for ch in v.iter() {
            result.push(*ch);
        }

        result""", """        for ch in normalization::nfc(self) {
            result.push(ch);
        }
        result"""))
r("nf-tostring-collect", "C14", "norm", (U, """        let mut result = String::new();
        let v = normalization::nfc(self);
        for ch in v.iter() {
            result.push(*ch);
        }

        result""", """        normalization::nfc(self).into_iter().collect()"""))
r("nf-tostring-helper", "C14", "norm", (U, """        let mut result = String::new();
        let v = normalization::nfc(self);
        for ch in v.iter() {
            result.push(*ch);
        }

        result""", """        join(&normalization::nfc(self))"""), (U, "impl Normalization for str {", """fn join(v: &Vec<char>) -> String {
    let mut result = String::new();
    for ch in v.iter() {
        result.push(*ch);
    }
    result
}

impl Normalization for str {"""))
r("comp-reorder", "C14", "compose", (N, """        if (starter(s[back_i] as u32)
            && !blocked(&s[back_i..=i]))
            && (mapping != 0x0 && is_primary_composite)
        {""", """        let mergeable = mapping != 0 && is_primary_composite && starter(s[back_i] as u32);
        if mergeable && !blocked(&s[back_i..=i]) {"""))
r("comp-else", "C14", "compose", (N, """            s.remove(i);
            offset -= 1;
        }
        offset += 1;""", """            s.remove(i);
        } else {
            offset += 1;
        }"""))
r("comp-helper", "C14", "compose", (N, """        let mut back_i = i - 1;
""", """        let back_i = last_starter_before(s, i);
"""), (N, """        while back_i != 0 && !starter(s[back_i] as u32) {
            back_i -= 1;
        }
        // R2""", "        // R2"), (N, "// D117\n", """fn last_starter_before(s: &Vec<char>, i: usize) -> usize {
    let mut back_i = i - 1;
    while back_i != 0 && !starter(s[back_i] as u32) {
        back_i -= 1;
    }
    back_i
}

// D117
"""))
r("comp-len2", "C14", "compose", (N, "    if s.len() == 1 {\n        return ();\n    }\n\n    let mut offset", "    if s.len() < 2 {\n        return;\n    }\n\n    let mut offset"))
r("comp-no-early", "C14", "compose", (N, "    if s.len() == 1 {\n        return ();\n    }\n\n    let mut offset", "    let mut offset"))
r("comp-no-i", "C14", "compose", (N, "        let i = offset;\n", ""), (N, "let mut back_i = i - 1", "let mut back_i = offset - 1"), (N, "lc.push(s[i]);", "lc.push(s[offset]);"), (N, "back_i..=i]", "back_i..=offset]"), (N, "s.remove(i)", "s.remove(offset)"))
r("comp-loop", "C14", "compose", (N, "    while offset < s.len() {\n", "    loop {\n        if offset >= s.len() {\n            break;\n        }\n"))
r("blk-let", "C14", "compose", (N, """    if sequence[last_i - 1].ccc() as u8 == 0
        || sequence[last_i - 1].ccc() as u8 >= sequence[last_i].ccc() as u8
    {
        return true;
    }

    false""", """    let prev = sequence[last_i - 1].ccc() as u8;
    prev == 0 || prev >= sequence[last_i].ccc() as u8"""))
r("blk-len2", "C14", "compose", (N, "    if last_i - 1 == first_i {\n", "    if sequence.len() == 2 {\n"), (N, "    let first_i = 0;\n", ""))
r("pc-expr", "C14", "compose", (N, """    if code_point.dt() == Dt::Can && !code_point.comp_ex() {
        return true;
    }

    false""", "    !code_point.comp_ex() && code_point.dt() == Dt::Can"))
r("seg-matches", "C17", "seg part", (S, """    if curr.gcb() == Gcb::CN
        || curr.gcb() == Gcb::CR
        || curr.gcb() == Gcb::LF
    {
        return true;
    }
    false""", "    matches!(curr.gcb(), Gcb::CN | Gcb::CR | Gcb::LF)"))
r("seg-merge45", "C17", "seg part", (U, "            if seg::is_gb4(curr_ch.1) {\n                curr = next;\n                // next = iter.next();\n                break;\n            }\n", ""), (U, "            if seg::is_gb5(next_ch.1) {", "            if seg::is_gb4(curr_ch.1) || seg::is_gb5(next_ch.1) {"))
r("seg-merge678", "C17", "seg part", (U, """            if seg::is_gb6(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
""", ""), (U, """            if seg::is_gb7(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
""", ""), (U, "            if seg::is_gb8(curr_ch.1, next_ch.1) {", "            if seg::is_gb6(curr_ch.1, next_ch.1) || seg::is_gb7(curr_ch.1, next_ch.1) || seg::is_gb8(curr_ch.1, next_ch.1) {"))
r("seg-letgcb", "C17", "seg part", (U, "            let ext_pict_zwj = in_ext_pict && curr_ch.1.gcb() == Gcb::ZWJ;", "            let curr_gcb = curr_ch.1.gcb();\n            let ext_pict_zwj = in_ext_pict && curr_gcb == Gcb::ZWJ;"), (U, "(in_ext_pict && curr_ch.1.gcb() == Gcb::EX)", "(in_ext_pict && curr_gcb == Gcb::EX)"))
r("seg-destruct", "C17", "seg part", (U, "            let curr_ch = curr.unwrap();", "            let curr_ch = match curr { Some(c) => c, None => unreachable!() };"))
r("seg-reorder", "C17", "seg part", (U, """            // Prepare for GB12, GB13
            if curr_ch.1.gcb() == Gcb::RI {
                _ri_count += 1;
            }
""", ""), (U, "            // Prepare for GB11\n", """            // Prepare for GB12, GB13
            if curr_ch.1.gcb() == Gcb::RI {
                _ri_count += 1;
            }
            // Prepare for GB11
"""))
r("seg-isempty", "C16", "seg part", (U, "        if self.slice.len() == 0 {", "        if self.slice.is_empty() {"))
r("seg-split", "C16", "seg part", (U, """        if curr.is_none() {
            self.slice = &tmp[self.slice.len()..];
            return Some(&tmp[..]);
        } else {
            self.slice = &tmp[curr.unwrap().0..];
        }

        Some(&tmp[..curr.unwrap().0])""", """        let end = match curr { Some((i, _)) => i, None => tmp.len() };
        self.slice = &tmp[end..];
        Some(&tmp[..end])"""))
r("seg-splitat", "C16", "seg part", (U, """        if curr.is_none() {
            self.slice = &tmp[self.slice.len()..];
            return Some(&tmp[..]);
        } else {
            self.slice = &tmp[curr.unwrap().0..];
        }

        Some(&tmp[..curr.unwrap().0])""", """        let end = curr.map_or(tmp.len(), |c| c.0);
        let (cluster, rest) = tmp.split_at(end);
        self.slice = rest;
        Some(cluster)"""))
r("seg-gb9c-fn", "C17", "seg part", (U, "                if next_ch.1.incb() == Incb::None {\n                    curr = next;\n                    break;\n                }\n", "                let next_incb = next_ch.1.incb();\n                if next_incb == Incb::None {\n                    curr = next;\n                    break;\n                }\n"))
r("dm-range", "C09", "dm", (DM, "    if (0xAC00..=0xD7AF).contains(&cp) {", "    if cp >= 0xAC00 && cp <= 0xD7AF {"))
r("dm-into", "C09", "dm", (DM, "        for code in decomposed.iter() {\n            mapping.push(std::char::from_u32(*code).unwrap());", "        for code in decomposed {\n            mapping.push(std::char::from_u32(code).unwrap());"))
r("dm-map", "C09", "dm", (DM, """    match found {
        Ok(idx) => String::from(dm_map::DM_MAP[idx].1),
        Err(_) => String::from(""),
    }""", """    if let Ok(idx) = found {
        return dm_map::DM_MAP[idx].1.to_string();
    }
    String::new()"""))
r("rdm-if-let", "C14", "rdm", (DM, """    match found {
        Ok(idx) => dm_map::RDM_MAP[idx].1,
        Err(_) => 0,
    }""", """    if let Ok(idx) = found {
        dm_map::RDM_MAP[idx].1
    } else {
        0
    }"""))
r("rdm-consts", "C14", "rdm", (DM, "pub(crate) fn rdm(s: &str) -> u32 {", "fn is_l(c: char) -> bool {\n    (0x1100..=0x1112).contains(&(c as u32))\n}\n\npub(crate) fn rdm(s: &str) -> u32 {"), (DM, "    if chars.len() == 2\n        && ((0x1100..=0x1112).contains(&(chars[0] as u32))\n", "    if chars.len() == 2\n        && (is_l(chars[0])\n"))
r("hg-shared", "C11", "hangul", (HG, """        let l_index = l_part - L_BASE;
        let v_index = v_part - V_BASE;
        let t_index = t_part - T_BASE;
        let lv_index = l_index * N_COUNT + v_index * T_COUNT;

        S_BASE + lv_index + t_index""", "        arithmetic_primary_composite_mapping(l_part, v_part, 0) + (t_part - T_BASE)"))
r("hg-push", "C11", "hangul", (HG, """    if t_index > 0 {
        vec![l_part, v_part, t_part]
    } else {
        vec![l_part, v_part]
    }""", """    let mut parts = vec![l_part, v_part];
    if t_index != 0 {
        parts.push(t_part);
    }
    parts"""))
r("tab-let", "C18", "table", (CO, """        self.stage_2[(self.stage_1[stage_1_index]).as_()][offset]""", """        let block: usize = self.stage_1[stage_1_index].as_();
        let entries = self.stage_2[block];
        entries[offset]"""))
r("tab-arith", "C18", "table", (CO, "        let offset = cp as usize % self.block_size;\n        let stage_1_index: usize = cp as usize / self.block_size;\n", "        let cp = cp as usize;\n        let stage_1_index: usize = cp / self.block_size;\n        let offset = cp - stage_1_index * self.block_size;\n"))
r("na-iter", "C08", "na", (HG, "    for c in decomposed {\n        name.push_str(super::ucd::jsn::jsn(c));", "    for c in decomposed.iter() {\n        name += super::ucd::jsn::jsn(*c);"))
r("na-incl", "C08", "na", (NA, "(0xAC00..0xD7A3 + 1)", "(0xAC00..=0xD7A3)"))
r("incb-letinsc", "C17", "incb", (DP, "    let sc = cp.sc();\n", "    let sc = cp.sc();\n    let insc = cp.insc();\n"), (DP, "set.contains(&sc) && cp.insc() == Insc::Virama", "set.contains(&sc) && insc == Insc::Virama"))
r("incb-match", "C17", "incb", (DP, "    if set.contains(&sc) && cp.insc() == Insc::Virama {\n        return Incb::Linker;\n    }\n    if set.contains(&sc) && cp.insc() == Insc::Consonant {\n        return Incb::Consonant;\n    }\n", "    if set.contains(&sc) {\n        match cp.insc() {\n            Insc::Virama => return Incb::Linker,\n            Insc::Consonant => return Incb::Consonant,\n            _ => {}\n        }\n    }\n"))
r("ce-single", "C06", "compex", (N, """        if code_point.dt() != Dt::Can {
            return false;
        }
        return true;
    }

    false""", """        return code_point.dt() == Dt::Can;
    }

    false"""))
r("ce-count", "C06", "compex", (N, "code_point.dm().chars().collect::<Vec<char>>().len() == 1", "code_point.dm().chars().count() == 1"))

r("ver-push", "C20", "version", (U, 'format!("{}.{}.{}", self.major, self.minor, self.update)', 'let mut s = self.major.to_string();\n        s.push(\'.\');\n        s.push_str(&self.minor.to_string());\n        s.push(\'.\');\n        s.push_str(&self.update.to_string());\n        s'))
r("ver-named", "C20", "version", (U, 'format!("{}.{}.{}", self.major, self.minor, self.update)', 'let UnicodeVersion { major, minor, update } = self;\n        format!("{major}.{minor}.{update}")'))
r("ver-add", "C20", "version", (U, 'format!("{}.{}.{}", self.major, self.minor, self.update)', 'let mut text = format!("{}.", self.major);\n        text += &format!("{0}.{1}", self.minor, self.update);\n        text'))
r("ver-helper", "C20", "version", (U, 'format!("{}.{}.{}", self.major, self.minor, self.update)', 'dotted(self.major, self.minor, self.update)'), (U, "/// Trait that convert type to `CodePoint`.", "fn dotted(a: u32, b: u32, c: u32) -> String {\n    format!(\"{}.{}.{}\", a, b, c)\n}\n\n/// Trait that convert type to `CodePoint`."))
r("na-helper", "C08", "na", (NA, 'return format!("TANGUT IDEOGRAPH-{:04X}", cp);', 'return with_number("TANGUT IDEOGRAPH-", cp);'), (NA, 'return format!("NUSHU CHARACTER-{:04X}", cp);', 'return with_number("NUSHU CHARACTER-", cp);'), (NA, "pub(crate) fn na(", "fn with_number(prefix: &str, cp: u32) -> String {\n    format!(\"{}{:04X}\", prefix, cp)\n}\n\npub(crate) fn na("))
r("na-oneprefix", "C08", "na", (NA, 'return format!("TANGUT IDEOGRAPH-{:04X}", cp);', 'let prefix = "TANGUT IDEOGRAPH-";\n        let mut name = String::from(prefix);\n        name += &format!("{:04X}", cp);\n        return name;'))
r("na-map", "C08", "na", (NA, '    match found {\n        Ok(idx) => String::from(na_table::NA_MAP[idx].1),\n        Err(_) => String::from(""),\n    }', '    found.map(|idx| na_table::NA_MAP[idx].1.to_string()).unwrap_or_default()'))
r("na-iflet", "C08", "na", (NA, '    match found {\n        Ok(idx) => String::from(na_table::NA_MAP[idx].1),\n        Err(_) => String::from(""),\n    }', '    if let Ok(idx) = found {\n        na_table::NA_MAP[idx].1.to_string()\n    } else {\n        String::new()\n    }'))
r("dm-iflet", "C09", "dm", (DM, '    match found {\n        Ok(idx) => String::from(dm_map::DM_MAP[idx].1),\n        Err(_) => String::from(""),\n    }', '    if let Ok(idx) = found {\n        return dm_map::DM_MAP[idx].1.to_owned();\n    }\n    String::new()'))
r("fmt-two", "C07", "fmt", (U, 'write!(f, "U+{:04X}", self.code_point)', 'write!(f, "U+")?;\n        write!(f, "{:04X}", self.code_point)'))
r("fmt-str", "C07", "fmt", (U, 'write!(f, "U+{:04X}", self.code_point)', 'f.write_str("U+")?;\n        write!(f, "{:04X}", self.to_u32())'))
r("xid-any", "C05", "xid", (DP, "ids(cp) && !excludes.contains(&cp) &&", "ids(cp) && !excludes.iter().any(|&x| x == cp) &&"))
r("xid-matches", "C05", "xid", (DP, "idc(cp) && !excludes.contains(&cp) && !(0xFC5E..=0xFC63).contains(&cp)", "if matches!(cp, 0xFC5E..=0xFC63) || excludes.contains(&cp) {\n        return false;\n    }\n    idc(cp)"))
r("hangul-tail", "C08", "hangul na", (HG, "    if t_index > 0 {\n        vec![l_part, v_part, t_part]\n    } else {\n        vec![l_part, v_part]\n    }", "    let mut parts = vec![l_part, v_part];\n    if t_index > 0 {\n        parts.push(t_part);\n    }\n    parts"))
for _n, _b in [("fmt-format", 'f.write_str(&format!("U+{:04X}", self.code_point))'), ("fmt-twice", 'write!(f, "U+")?;\n        write!(f, "{:04X}", self.code_point)?;\n        Ok(())'),
    ("fmt-let", 'let CodePoint { code_point } = *self;\n        let text = format!("{:04X}", code_point);\n        write!(f, "U+{}", text)'), ("fmt-match", 'match f.write_str("U+") {\n            Ok(()) => write!(f, "{:04X}", self.code_point),\n            Err(e) => Err(e),\n        }'),
    ("fmt-inline", 'let cp = self.code_point;\n        write!(f, "U+{cp:04X}")'), ("fmt-args", 'f.write_fmt(format_args!("U+{:04X}", self.code_point))'), ("fmt-hash", 'write!(f, "U+{:0>4X}", self.code_point)'), ("fmt-named", 'write!(f, "U+{n:0width$X}", n = self.code_point, width = 4)')]:
    r(_n, "C07", "fmt", (U, 'write!(f, "U+{:04X}", self.code_point)', _b))
# ---- batch 4
NFD = """        let mut result = String::new();
        let v = normalization::nfd(self);
        for ch in v.iter() {
            result.push(*ch);
        }

        result
"""
r("nf-cap", "C13", "norm", (U, NFD, NFD.replace("String::new()", "String::with_capacity(self.len())")))
r("nf-extend", "C13", "norm", (U, NFD, """        let mut result = String::new();
        result.extend(normalization::nfd(self));
        result
"""))
r("nf-forin", "C13", "norm", (U, NFD, """        let mut result = String::new();
        for ch in normalization::nfd(self) {
            result.push(ch);
        }
        result
"""))
SING = """    let ch = match std::char::from_u32(code_point.to_u32()) {
        Some(ch) => ch,
        None => return false,
    };
    // Default value"""
r("sing-letelse", "C06", "compex", (N, SING, "    let Some(ch) = std::char::from_u32(cp) else {\n        return false;\n    };\n    // Default value"))
SING2 = """    let mut self_char = String::new();
    self_char.push(ch);
    if code_point.dm() == self_char {
        return false;
    }
    // Single character with canonical decomposition is singleton.
    if code_point.dm().chars().collect::<Vec<char>>().len() == 1 {
        if code_point.dt() != Dt::Can {
            return false;
        }
        return true;
    }

    false
}"""
assert SING2
r("sing-count", "C06", "compex", (N, SING2, """    let mapping = code_point.dm();
    if mapping == ch.to_string() {
        return false;
    }
    mapping.chars().count() == 1 && code_point.dt() == Dt::Can
}"""))
r("sing-dm", "C06", "compex", (N, SING2, """    let mapping: Vec<char> = code_point.dm().chars().collect();
    if mapping.len() != 1 || mapping[0] == ch {
        return false;
    }
    code_point.dt() == Dt::Can
}"""))
r("nonst-expr", "C06", "compex", (N, """    if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
        return true;
    }

    false""", "    decomposed.len() > 1 && !starter(decomposed[0] as u32)"))
BLK = """    let first_i = 0;
    let last_i = sequence.len() - 1;
    if last_i - 1 == first_i {
        return false;
    }
    if sequence[last_i - 1].ccc() as u8 == 0
        || sequence[last_i - 1].ccc() as u8 >= sequence[last_i].ccc() as u8
    {
        return true;
    }

    false"""
r("blk-closure", "C14", "compose", (N, BLK, """    let class = |k: usize| sequence[k].ccc() as u8;
    let last_i = sequence.len() - 1;
    if last_i == 1 {
        return false;
    }
    class(last_i - 1) == 0 || class(last_i - 1) >= class(last_i)"""))
r("blk-last", "C14", "compose", (N, BLK, """    if sequence.len() == 2 {
        return false;
    }
    let last = sequence.last().unwrap().ccc() as u8;
    let before = sequence[sequence.len() - 2].ccc() as u8;
    before == 0 || before >= last"""))
LC = """        let mut lc = String::new();
        lc.push(s[back_i]);
        lc.push(s[i]);
"""
r("comp-fmt", "C14", "compose", (N, LC, '        let lc = format!("{}{}", s[back_i], s[i]);\n'))
r("comp-coll", "C14", "compose", (N, LC, "        let lc: String = [s[back_i], s[i]].iter().collect();\n"))
r("comp-lchars", "C14", "compose", (N, LC, """        let starter_ch = s[back_i];
        let combining = s[i];
        let mut lc = String::with_capacity(8);
        lc.push(starter_ch);
        lc.push(combining);
"""))
COND = """        if (starter(s[back_i] as u32)
            && !blocked(&s[back_i..=i]))
            && (mapping != 0x0 && is_primary_composite)
        {
            s[back_i] = std::char::from_u32(mapping).unwrap();
            s.remove(i);
            offset -= 1;
        }
        offset += 1;"""
r("comp-nested", "C14", "compose", (N, COND, """        let can_compose = starter(s[back_i] as u32) && !blocked(&s[back_i..=i]);
        if can_compose && mapping != 0x0 && is_primary_composite {
            if let Some(ch) = std::char::from_u32(mapping) {
                s[back_i] = ch;
                s.remove(i);
                continue;
            }
        }
        offset += 1;"""))
r("comp-skip", "C14", "compose", (N, COND, """        if !starter(s[back_i] as u32) || blocked(&s[back_i..=i]) || mapping == 0 || !is_primary_composite {
            offset += 1;
            continue;
        }
        s[back_i] = std::char::from_u32(mapping).unwrap();
        s.remove(i);"""))
r("hg-ncount", "C11", "hangul", (HG, "const N_COUNT: u32 = 588; // (VCount * TCount)", "const N_COUNT: u32 = V_COUNT * T_COUNT;"))
DEC = """    let s_index = s - S_BASE;
    let l_index = s_index / N_COUNT;
    let v_index = (s_index % N_COUNT) / T_COUNT;
    let t_index = s_index % T_COUNT;

    let l_part = L_BASE + l_index;"""
r("hg-helper", "C11", "hangul", (HG, DEC, "    let (l_index, v_index, t_index) = indices(s);\n\n    let l_part = L_BASE + l_index;"),
  (HG, "pub(crate) fn decompose(", "fn indices(s: u32) -> (u32, u32, u32) {\n    let s_index = s - S_BASE;\n    (s_index / N_COUNT, (s_index % N_COUNT) / T_COUNT, s_index % T_COUNT)\n}\n\npub(crate) fn decompose("))
r("hg-ifelse", "C11", "hangul", (HG, """    let s_index = s - S_BASE;
    match CodePoint::new(s).unwrap().hst() {
        Hst::LV => {
            let s_index = s - S_BASE;
""", """    let s_index = s - S_BASE;
    match CodePoint::new(s).unwrap().hst() {
        Hst::LV => {
"""))
r("hg-iflv", "C11", "hangul", (HG, "    match CodePoint::new(s).unwrap().hst() {\n        Hst::LV => {\n            let s_index = s - S_BASE;\n", "    let hst = CodePoint::new(s).unwrap().hst();\n    if hst == Hst::LV {\n"),
  (HG, "            vec![l_part, v_part]\n        }\n        Hst::LVT => {", "            vec![l_part, v_part]\n    } else if hst == Hst::LVT {"),
  (HG, "            vec![lv_part, t_part]\n        }\n        _ => vec![],\n    }", "            vec![lv_part, t_part]\n    } else {\n        Vec::new()\n    }"))
COMP = """    if t_part == 0 {
        let l_index = l_part - L_BASE;
        let v_index = v_part - V_BASE;
        let lv_index = l_index * N_COUNT + v_index * T_COUNT;

        S_BASE + lv_index
    } else {
        let l_index = l_part - L_BASE;
        let v_index = v_part - V_BASE;
        let t_index = t_part - T_BASE;
        let lv_index = l_index * N_COUNT + v_index * T_COUNT;

        S_BASE + lv_index + t_index
    }"""
r("hg-merge", "C11", "hangul", (HG, COMP, """    let l_index = l_part - L_BASE;
    let v_index = v_part - V_BASE;
    let t_index = if t_part == 0 { 0 } else { t_part - T_BASE };

    S_BASE + (l_index * V_COUNT + v_index) * T_COUNT + t_index"""))
AT = """        let offset = cp as usize % self.block_size;
        let stage_1_index: usize = cp as usize / self.block_size;

        self.stage_2[(self.stage_1[stage_1_index]).as_()][offset]"""
r("tab-tuple", "C18", "table", (CO, AT, """        let cp = cp as usize;
        let (index, offset) = (cp / self.block_size, cp % self.block_size);
        let block = self.stage_2[self.stage_1[index].as_()];

        block[offset]"""))
r("tab-struct", "C18", "table", (CO, """        TwoStageTable {
            stage_1: stage_1,
            stage_2: stage_2,
            block_size: block_size,
        }""", "        Self { stage_1, stage_2, block_size }"))
r("seg-nobreak", "C17", "seg part", (U, """            if seg::is_gb6(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB7:  (LV | V) × (V | T)
            if seg::is_gb7(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB8: (LVT | T) × T
            if seg::is_gb8(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
""", """            if seg::is_hangul_sequence(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
"""), (S, "pub(super) fn is_gb6(", "pub(super) fn is_hangul_sequence(curr: char, next: char) -> bool {\n    is_gb6(curr, next) || is_gb7(curr, next) || is_gb8(curr, next)\n}\n\npub(super) fn is_gb6("))
r("seg-match-end", "C16", "seg part", (U, """        let tmp = self.slice;
        // println!("curr: {:?}", curr);
        // println!("next: {:?}", next);
        // println!("slice: {}", self.slice);
        if curr.is_none() {
            self.slice = &tmp[self.slice.len()..];
            return Some(&tmp[..]);
        } else {
            self.slice = &tmp[curr.unwrap().0..];
        }

        Some(&tmp[..curr.unwrap().0])""", """        let text = self.slice;
        match curr {
            None => {
                self.slice = "";
                Some(text)
            }
            Some((end, _)) => {
                self.slice = &text[end..];
                Some(&text[..end])
            }
        }"""))
r("seg-end-map", "C16", "seg part", (U, """        if curr.is_none() {
            self.slice = &tmp[self.slice.len()..];
            return Some(&tmp[..]);
        } else {
            self.slice = &tmp[curr.unwrap().0..];
        }

        Some(&tmp[..curr.unwrap().0])""", """        let end = curr.map_or(tmp.len(), |c| c.0);
        self.slice = &tmp[end..];
        Some(&tmp[..end])"""))
r("seg-ri-bool", "C17", "seg part", (U, "        let mut _ri_count = 0; // Ignore compiler not used warning.", "        let mut odd_ri = false;"), (U, "                _ri_count += 1;", "                odd_ri = !odd_ri;"), (U, "&& _ri_count % 2 != 0 {", "&& odd_ri {"), (U, "                _ri_count = 0;", "                odd_ri = false;"))
r("seg-noelse", "C17", "seg part", (U, """            } else {
                _ri_count = 0;
            }

            // GB999""", """            }

            // GB999"""))
r("seg-cc", "C17", "seg part", (U, "            let ext_pict_zwj = in_ext_pict && curr_ch.1.gcb() == Gcb::ZWJ;", "            let curr_gcb = curr_ch.1.gcb();\n            let ext_pict_zwj = in_ext_pict && curr_gcb == Gcb::ZWJ;"), (U, "|| (in_ext_pict && curr_ch.1.gcb() == Gcb::EX);", "|| (in_ext_pict && curr_gcb == Gcb::EX);"))
r("gb-one", "C17", "seg part", (S, """    if curr.gcb() == Gcb::CR && next.gcb() == Gcb::LF {
        return true;
    }
    false""", "    curr.gcb() == Gcb::CR && next.gcb() == Gcb::LF"))
r("gb-ctl", "C17", "seg part", (S, """    if curr.gcb() == Gcb::CN
        || curr.gcb() == Gcb::CR
        || curr.gcb() == Gcb::LF
    {
        return true;
    }
    false""", "    is_control(curr)"), (S, """    if next.gcb() == Gcb::CN
        || next.gcb() == Gcb::CR
        || next.gcb() == Gcb::LF
    {
        return true;
    }
    false""", "    is_control(next)"), (S, "pub(super) fn is_gb4(", "fn is_control(ch: char) -> bool {\n    matches!(ch.gcb(), Gcb::CN | Gcb::CR | Gcb::LF)\n}\n\npub(super) fn is_gb4("))
r("gb-match", "C17", "seg part", (S, """    if curr.gcb() == Gcb::L
        && (next.gcb() == Gcb::L
            || next.gcb() == Gcb::V
            || next.gcb() == Gcb::LV
            || next.gcb() == Gcb::LVT)
    {
        return true;
    }
    false""", """    match (curr.gcb(), next.gcb()) {
        (Gcb::L, Gcb::L) | (Gcb::L, Gcb::V) | (Gcb::L, Gcb::LV) | (Gcb::L, Gcb::LVT) => true,
        _ => false,
    }"""))
r("dp-alpha", "C04", "derived", (DP, """    cp.upper()
        || cp.lower()
        || gc == Gc::Lt
        || gc == Gc::Lm
        || gc == Gc::Lo
        || gc == Gc::Nl
        || cp.oalpha()""", """    match gc {
        Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl => true,
        _ => cp.oalpha() || cp.lower() || cp.upper(),
    }"""))
r("dp-direct", "C04", "derived", (DP, """    let cp = CodePoint::new(cp).unwrap();

    cp.gc() == Gc::Ll || cp.olower()""", "    let code_point = CodePoint::new(cp).unwrap();\n    if code_point.olower() {\n        return true;\n    }\n    code_point.gc() == Gc::Ll"))
BP = "src/unicode/ucd/binary_props.rs"
r("bp-or", "C02", "bins", (BP, """    if (0x061C..0x061C + 1).contains(&cp) {
        return true;
    }
    if (0x200E..0x200F + 1).contains(&cp) {
        return true;
    }
    if (0x202A..0x202E + 1).contains(&cp) {
        return true;
    }
    if (0x2066..0x2069 + 1).contains(&cp) {
        return true;
    }

    false""", "    cp == 0x061C\n        || (0x200E..=0x200F).contains(&cp)\n        || (0x202A..=0x202E).contains(&cp)\n        || (cp >= 0x2066 && cp <= 0x2069)"))
r("bp-matches", "C02", "bins", (BP, """    if (0x061C..0x061C + 1).contains(&cp) {
        return true;
    }
    if (0x200E..0x200F + 1).contains(&cp) {
        return true;
    }
    if (0x202A..0x202E + 1).contains(&cp) {
        return true;
    }
    if (0x2066..0x2069 + 1).contains(&cp) {
        return true;
    }

    false""", "    matches!(cp, 0x061C | 0x200E..=0x200F | 0x202A..=0x202E | 0x2066..=0x2069)"))
r("bp-table", "C02", "bins", (BP, """    if (0x061C..0x061C + 1).contains(&cp) {
        return true;
    }
    if (0x200E..0x200F + 1).contains(&cp) {
        return true;
    }
    if (0x202A..0x202E + 1).contains(&cp) {
        return true;
    }
    if (0x2066..0x2069 + 1).contains(&cp) {
        return true;
    }

    false""", "    const RANGES: [(u32, u32); 4] = [(0x061C, 0x061C), (0x200E, 0x200F), (0x202A, 0x202E), (0x2066, 0x2069)];\n    RANGES.iter().any(|&(lo, hi)| lo <= cp && cp <= hi)"))
r("cp-new", "C07", "wrap", (U, """        if cp > 0x10FFFF {
            return Err("IllegalCodePoint: Code point cannot be over U+10FFFF.");
        }
        Ok(CodePoint { code_point: cp })""", """        match cp {
            0..=0x10FFFF => Ok(Self { code_point: cp }),
            _ => Err("IllegalCodePoint: Code point cannot be over U+10FFFF."),
        }"""))
r("cp-tocp", "C07", "wrap", (U, "        CodePoint::new(*self as u32).unwrap()", "        let cp = u32::from(*self);\n        CodePoint { code_point: cp }"))
r("rdm-slice", "C14", "rdm", (DM, """    let chars = s.chars().collect::<Vec<char>>();
    if chars.len() == 2
        && ((0x1100..=0x1112).contains(&(chars[0] as u32))
            && (0x1161..=0x1175).contains(&(chars[1] as u32)))
    {
        let (l, v) = (chars[0] as u32, chars[1] as u32);
        let composed
            = hangul::arithmetic_primary_composite_mapping(l, v, 0);
        return composed;
    }""", """    let chars: Vec<char> = s.chars().collect();
    if chars.len() == 2 {
        let l = chars[0] as u32;
        let v = chars[1] as u32;
        if is_l(l) && is_v(v) {
            return hangul::arithmetic_primary_composite_mapping(l, v, 0);
        }
    }"""), (DM, "// Returns reversed", "fn is_l(cp: u32) -> bool {\n    (0x1100..=0x1112).contains(&cp)\n}\n\nfn is_v(cp: u32) -> bool {\n    cp >= 0x1161 && cp <= 0x1175\n}\n\n// Returns reversed"))
r("na-match", "C08", "na", (NA, """    if (0xAC00..0xD7A3 + 1).contains(&cp) {
        return hangul::syllable_name(cp);
    }""", """    match cp {
        0xAC00..=0xD7A3 => return hangul::syllable_name(cp),
        _ => {}
    }"""))
r("na-fmtx", "C08", "na", (NA, 'format!("NUSHU CHARACTER-{:04X}", cp)', 'format!("NUSHU CHARACTER-{:X}", cp)'))
r("na-inlinearg", "C08", "na", (NA, 'format!("NUSHU CHARACTER-{:04X}", cp)', 'format!("NUSHU CHARACTER-{cp:04X}")'))
r("na-plus", "C08", "na", (NA, 'return format!("NUSHU CHARACTER-{:04X}", cp);', 'let mut name = String::from("NUSHU CHARACTER-");\n        name.push_str(&format!("{:04X}", cp));\n        return name;'))
# ---- batch 5
G38 = r"""            // Do not break between a CR and LF. Otherwise, break before and after controls.
            // GB3:                  CR × LF
            if seg::is_gb3(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB4: (Control | CR | LF) ÷
            if seg::is_gb4(curr_ch.1) {
                curr = next;
                // next = iter.next();
                break;
            }
            // GB5:                     ÷ (Control | CR | LF)
            if seg::is_gb5(next_ch.1) {
                curr = next;
                // next = iter.next();
                break;
            }
            // Do not break Hangul syllable sequences.
            // GB6 	        L × (L | V | LV | LVT)
            if seg::is_gb6(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB7:  (LV | V) × (V | T)
            if seg::is_gb7(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB8: (LVT | T) × T
            if seg::is_gb8(curr_ch.1, next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // Do not break before extending characters or ZWJ.
            // GB9:       × (Extend | ZWJ)
            if seg::is_gb9(next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // The GB9a and GB9b rules only apply to extended grapheme clusters:
            // Do not break before SpacingMarks, or after Prepend characters.
            // GB9a:         × SpacingMark
            if seg::is_gb9a(next_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
            // GB9b: Prepend ×
            if seg::is_gb9b(curr_ch.1) {
                curr = next;
                next = iter.next();
                continue;
            }
"""
G9C = r"""            if in_indic {
                if next_ch.1.incb() == Incb::None {
                    curr = next;
                    break;
                }
                if curr_ch.1.incb() == Incb::Consonant && next_ch.1.incb() == Incb::Consonant {
                    curr = next;
                    break;
                }
                if indic_linker {
                    if curr_ch.1.incb() == Incb::Extend || curr_ch.1.incb() == Incb::Linker
                        || curr_ch.1.incb() == Incb::Consonant {
                        curr = next;
                        next = iter.next();
                        continue;
                    }
                } else {
                    if curr_ch.1.incb() == Incb::Linker {
                        indic_linker = true;
                        curr = next;
                        next = iter.next();
                        continue;
                    } else if curr_ch.1.incb() == Incb::Extend
                        && next_ch.1.incb() == Incb::Consonant {
                        curr = next;
                        break;
                    } else if curr_ch.1.incb() == Incb::Extend {
                        curr = next;
                        next = iter.next();
                        continue;
                    } else {
                        curr = next;
                        break;
                    }
                }
            }
"""
GEND = r"""            // Do not break within emoji modifier sequences or emoji zwj sequences.
            // GB11: \p{ExtPict} Extend* ZWJ × \p{ExtPict}
            if ext_pict_zwj && next_ch.1.ext_pict() {
                curr = next;
                next = iter.next();
                continue;
            }
            // Do not break within emoji flag sequences.
            // That is, do not break between regional indicator (RI) symbols
            // if there is an odd number of RI characters before the break point.
            // GB12:   sot (RI RI)* RI × RI
            // GB13: [^RI] (RI RI)* RI × RI
            if (curr_ch.1.gcb() == Gcb::RI && next_ch.1.gcb() == Gcb::RI)
                    && _ri_count % 2 != 0 {
                curr = next;
                next = iter.next();
                continue;
            } else {
                _ri_count = 0;
            }

"""
SEEK = r"""        let mut back_i = i - 1;
        // R1 - Seek back (left) in the coded character sequence from the
        // character C to find the last Starter L preceding C in the
        // character sequence.
        while back_i != 0 && !starter(s[back_i] as u32) {
            back_i -= 1;
        }
"""
r("seg-pair-opt", "C17", "seg part", (U, G38, """            match seg::pair_rule(curr_ch.1, next_ch.1) {
                Some(false) => {
                    curr = next;
                    next = iter.next();
                    continue;
                }
                Some(true) => {
                    curr = next;
                    break;
                }
                None => {}
            }
"""), (S, "pub(super) fn is_gb3(", """/// The rules which look at two characters: Some(true) break, Some(false) no break.
pub(super) fn pair_rule(curr: char, next: char) -> Option<bool> {
    if is_gb3(curr, next) {
        return Some(false);
    }
    if is_gb4(curr) || is_gb5(next) {
        return Some(true);
    }
    if is_gb6(curr, next) || is_gb7(curr, next) || is_gb8(curr, next) {
        return Some(false);
    }
    if is_gb9(next) || is_gb9a(next) || is_gb9b(curr) {
        return Some(false);
    }
    None
}

pub(super) fn is_gb3("""))
r("seg-gb9c-short", "C17", "seg part", (U, G9C, """            if in_indic && indic_linker && next_ch.1.incb() == Incb::Consonant {
                curr = next;
                next = iter.next();
                continue;
            }
"""))
r("seg-end-or", "C17", "seg part", (U, GEND, """            let odd = _ri_count % 2 != 0;
            if ext_pict_zwj && next_ch.1.ext_pict()
                || odd && curr_ch.1.gcb() == Gcb::RI && next_ch.1.gcb() == Gcb::RI {
                curr = next;
                next = iter.next();
                continue;
            }
"""))
r("seg-pairchars", "C17", "seg part", (U, "            let next_ch = next.unwrap_or((self.slice.len(), '\\u{0000}'));", "            let next_ch = match next {\n                Some(pair) => pair,\n                None => (self.slice.len(), '\\0'),\n            };"))
r("seg-text", "C16", "seg part", (U, "        let mut iter = self.slice.char_indices();", "        let text: &'a str = self.slice;\n        let mut iter = text.char_indices();"))
r("comp-seek-fn", "C14", "compose", (N, SEEK, "        let back_i = last_starter_before(s, i);\n"), (N, "// D117", """// The position of the last starter before `i`, or 0 when there is none.
fn last_starter_before(s: &[char], i: usize) -> usize {
    let mut back_i = i - 1;
    while back_i != 0 && !starter(s[back_i] as u32) {
        back_i -= 1;
    }
    back_i
}

// D117"""))
r("comp-seek-for", "C14", "compose", (N, SEEK, """        let mut back_i = 0;
        for j in (0..i).rev() {
            if starter(s[j] as u32) {
                back_i = j;
                break;
            }
        }
"""))
r("comp-seek-loop", "C14", "compose", (N, SEEK, """        let mut back_i = i - 1;
        loop {
            if back_i == 0 || starter(s[back_i] as u32) {
                break;
            }
            back_i -= 1;
        }
"""))
r("comp-pair-fn", "C14", "compose", (N, """        let mut lc = String::new();
        lc.push(s[back_i]);
        lc.push(s[i]);

        let mapping = crate::unicode::ucd::dm::rdm(&lc);
        let is_primary_composite = primary_composite(mapping);
        if (starter(s[back_i] as u32)
            && !blocked(&s[back_i..=i]))
            && (mapping != 0x0 && is_primary_composite)
        {
            s[back_i] = std::char::from_u32(mapping).unwrap();
            s.remove(i);
            offset -= 1;
        }
        offset += 1;""", """        if starter(s[back_i] as u32) && !blocked(&s[back_i..=i]) {
            if let Some(composite) = compose_pair(s[back_i], s[i]) {
                s[back_i] = composite;
                s.remove(i);
                continue;
            }
        }
        offset += 1;"""), (N, "// D117", """fn compose_pair(first: char, second: char) -> Option<char> {
    let mut pair = String::new();
    pair.push(first);
    pair.push(second);
    let mapping = crate::unicode::ucd::dm::rdm(&pair);
    if mapping != 0 && primary_composite(mapping) {
        return std::char::from_u32(mapping);
    }
    None
}

// D117"""))
r("ord-pairfn", "C12", "order", (N, "    a.ccc() as u8 > b.ccc() as u8 && b.ccc() as u8 > 0", "    let (left, right) = (a.ccc() as u8, b.ccc() as u8);\n    right != 0 && left > right"))
r("ord-swapped", "C12", "order", (N, ORD, """    for last_idx in (1..sequence.len()).rev() {
        let mut swapped = false;
        for i in 0..last_idx {
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
                swapped = true;
            }
        }
        if !swapped {
            break;
        }
    }
}"""))
r("dec-match", "C13", "decomp", (N, """        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {
                for decomposed_char in ch.dm().chars() {
                    decomposed.push(decomposed_char);
                    count += 1;
                }
            } else {
                decomposed.push(*ch);
            }
        }""", """        let mapping = ch.dm();
        match (mapping.as_str(), ch.dt()) {
            ("", _) => decomposed.push(*ch),
            (m, Dt::Can) => {
                for c in m.chars() {
                    decomposed.push(c);
                    count += 1;
                }
            }
            _ => decomposed.push(*ch),
        }"""))
r("dec-continue", "C13", "decomp", (N, """        if ch.dm() == "" {
            decomposed.push(*ch);
        } else {
            if ch.dt() == Dt::Can {""", """        if ch.dm() == "" {
            decomposed.push(*ch);
            continue;
        }
        {
            if ch.dt() == Dt::Can {"""))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    sh("rm -rf /tmp/refrun; cp -a /repo /tmp/refrun")
    import vlib, modules
    for name, prop, mods, edits in R:
        if len(sys.argv) > 1 and name not in sys.argv[1:]: continue
        sh("git checkout -q -- .", cwd=W)
        for f, a, b in edits:
            p = os.path.join(W, f); t = open(p).read()
            if a not in t: print(name, "EDIT DOES NOT APPLY", a[:60]); break
            open(p, "w").write(t.replace(a, b, 1))
        else:
            t = sh("cargo test --offline 2>&1 | tail -60", cwd=W, env=dict(os.environ, RUSTFLAGS="-Awarnings"))
            if "error" in t.stdout and "could not compile" in t.stdout: print(name, "DOES NOT COMPILE", t.stdout[-1500:]); continue
            bad = [l for l in t.stdout.splitlines() if l.startswith("test ") and not l.startswith("test result") and l.endswith("FAILED") and "validate_properties" not in l]
            out = []
            try:
                cs = modules.all_contracts(); x = vlib.extract(cs.keys())
                for m in mods:
                    try:
                        mm, q = modules.prove(m, x, threads=8)
                        out.append("%s:%s(%d)%s" % (m, q["status"], q["verified"], " ".join("[%s|%s]" % (e["group"], e["message"][:70]) for e in q["errors"][:3]) + (q.get("detail", "")[:160].replace("\n", " ") if q["status"] not in ("proved", "failed") else "")))
                    except vlib.Lost as e: out.append("%s:lost(%s)" % (m, str(e)[:120]))
            except vlib.Lost as e: out.append("lost " + str(e)[:160])
            print(name, prop, "tests-bad" if bad else "", "; ".join(out), flush=True)
if __name__ == "__main__": main()
