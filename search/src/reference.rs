//! Executable form of the contracts: the frozen UCD 15.1 data and the standard's algorithms,
//! written from the text of the standard and independent of the code under test.
use std::collections::HashMap;

pub const N: usize = 0x110000;

#[derive(Default)]
pub struct Ref {
    pub enums: HashMap<String, (Vec<u16>, Vec<String>)>,
    pub bins: HashMap<String, Vec<bool>>,
    pub dm: HashMap<u32, Vec<u32>>,
    pub names: HashMap<u32, String>,
    pub nr2: Vec<(u32, u32, String)>,
    pub jamo: [Vec<String>; 3],
    // dense caches
    pub ccc: Vec<u8>,
    pub can: Vec<bool>,
    pub gcb: Vec<Gcb>,
    pub incb: Vec<Incb>,
    pub ep: Vec<bool>,
    pub comp: HashMap<(u32, u32), u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Gcb { CN, CR, EX, L, LF, LV, LVT, PP, RI, SM, T, V, XX, ZWJ }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Incb { Consonant, Extend, Linker, None }

impl Ref {
    pub fn load(path: &str) -> Ref {
        let txt = std::fs::read_to_string(path).expect("oracle");
        let mut r = Ref::default();
        for line in txt.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            let n = |i: usize| -> usize { f[i].parse().unwrap() };
            match f[0] {
                "E" => {
                    let e = r.enums.entry(f[1].to_string()).or_insert_with(|| (vec![0; N], vec![]));
                    let id = match e.1.iter().position(|x| x == f[4]) {
                        Some(i) => i,
                        None => { e.1.push(f[4].to_string()); e.1.len() - 1 }
                    };
                    for c in n(2)..=n(3) { e.0[c] = id as u16; }
                }
                "B" => {
                    let b = r.bins.entry(f[1].to_string()).or_insert_with(|| vec![false; N]);
                    for c in n(2)..=n(3) { b[c] = true; }
                }
                "D" => { r.dm.insert(n(1) as u32, f[2..].iter().map(|x| x.parse().unwrap()).collect()); }
                "N" => { r.names.insert(n(1) as u32, f[2].to_string()); }
                "R" => r.nr2.push((n(1) as u32, n(2) as u32, f[3].to_string())),
                "J" => r.jamo[n(1)].push(f[2].to_string()),
                _ => panic!("oracle line {}", line),
            }
        }
        for s in 0..11172u32 {
            let c = 0xAC00 + s;
            let d = if s % 28 == 0 { vec![0x1100 + s / 588, 0x1161 + (s % 588) / 28] }
                    else { vec![c - s % 28, 0x11A7 + s % 28] };
            r.dm.insert(c, d);
        }
        r.ccc = (0..N).map(|c| r.enum_of("ccc", c as u32).parse().unwrap()).collect();
        r.can = (0..N).map(|c| r.enum_of("dt", c as u32) == "Can").collect();
        r.gcb = (0..N).map(|c| match r.enum_of("gcb", c as u32) {
            "CN" => Gcb::CN, "CR" => Gcb::CR, "EX" => Gcb::EX, "L" => Gcb::L, "LF" => Gcb::LF, "LV" => Gcb::LV,
            "LVT" => Gcb::LVT, "PP" => Gcb::PP, "RI" => Gcb::RI, "SM" => Gcb::SM, "T" => Gcb::T, "V" => Gcb::V,
            "XX" => Gcb::XX, "ZWJ" => Gcb::ZWJ, x => panic!("gcb {}", x) }).collect();
        r.incb = (0..N).map(|c| match r.enum_of("incb", c as u32) {
            "Consonant" => Incb::Consonant, "Extend" => Incb::Extend, "Linker" => Incb::Linker, _ => Incb::None }).collect();
        r.ep = r.bins["ExtPict"].clone();
        let cx = r.bins["Comp_Ex"].clone();
        let mut comp = HashMap::new();
        for (&c, d) in &r.dm {
            if r.can[c as usize] && !cx[c as usize] {
                assert_eq!(d.len(), 2);
                assert!(comp.insert((d[0], d[1]), c).is_none());
            }
        }
        r.comp = comp;
        r
    }
    pub fn enum_of(&self, p: &str, cp: u32) -> &str {
        let e = &self.enums[p];
        &e.1[e.0[cp as usize] as usize]
    }
    pub fn name(&self, cp: u32) -> String {
        if (0xAC00..0xAC00 + 11172).contains(&cp) {
            let s = (cp - 0xAC00) as usize;
            return format!("HANGUL SYLLABLE {}{}{}", self.jamo[0][s / 588], self.jamo[1][s % 588 / 28], self.jamo[2][s % 28]);
        }
        for (a, b, p) in &self.nr2 {
            if *a <= cp && cp <= *b { return format!("{}{:04X}", p, cp); }
        }
        self.names.get(&cp).cloned().unwrap_or_default()
    }
    /// Full recursive decomposition (D64/D68 step 1), no reordering.
    pub fn expand(&self, s: &[u32], compat: bool) -> Vec<u32> {
        let mut out = vec![];
        for &c in s { self.expand1(c, compat, &mut out); }
        out
    }
    fn expand1(&self, c: u32, compat: bool, out: &mut Vec<u32>) {
        match self.dm.get(&c) {
            Some(d) if compat || self.can[c as usize] => for &x in d { self.expand1(x, compat, out) },
            _ => out.push(c),
        }
    }
    /// Canonical Ordering Algorithm (D108, D109).
    pub fn order(&self, s: &mut Vec<u32>) {
        let mut i = 0;
        while i < s.len() {
            if self.ccc[s[i] as usize] == 0 { i += 1; continue; }
            let mut j = i;
            while j < s.len() && self.ccc[s[j] as usize] != 0 { j += 1; }
            s[i..j].sort_by_key(|&c| self.ccc[c as usize]); // stable
            i = j;
        }
    }
    pub fn nfd(&self, s: &[u32]) -> Vec<u32> { let mut v = self.expand(s, false); self.order(&mut v); v }
    pub fn nfkd(&self, s: &[u32]) -> Vec<u32> { let mut v = self.expand(s, true); self.order(&mut v); v }
    /// Canonical Composition Algorithm (D117) with the definitional D115 blocking test.
    pub fn compose(&self, s: &[u32]) -> Vec<u32> {
        let mut out: Vec<u32> = vec![];
        let mut starter: Option<usize> = None; // index of the last starter in out
        let mut maxccc: u8 = 0; // largest class after it (B with ccc(B) >= ccc(C) blocks)
        for &c in s {
            let k = self.ccc[c as usize];
            if let Some(p) = starter {
                let between = out.len() - p - 1;
                let blocked = between > 0 && (k == 0 || maxccc >= k);
                if !blocked {
                    if let Some(&x) = self.comp.get(&(out[p], c)) { out[p] = x; continue; }
                }
            }
            out.push(c);
            if k == 0 { starter = Some(out.len() - 1); maxccc = 0; } else { maxccc = maxccc.max(k); }
        }
        out
    }
    pub fn nfc(&self, s: &[u32]) -> Vec<u32> { self.compose(&self.nfd(s)) }
    pub fn nfkc(&self, s: &[u32]) -> Vec<u32> { self.compose(&self.nfkd(s)) }

    /// UAX #29 (15.1) extended grapheme cluster rules: is there a boundary before s[i], 0 < i < len?
    /// Literal look-back; None of the state of the implementation is mirrored.
    pub fn gbreak(&self, s: &[u32], i: usize) -> bool {
        use Gcb::*;
        let g = |k: usize| self.gcb[s[k] as usize];
        let (a, b) = (g(i - 1), g(i));
        if a == CR && b == LF { return false; } // GB3
        if matches!(a, CN | CR | LF) { return true; } // GB4
        if matches!(b, CN | CR | LF) { return true; } // GB5
        if a == L && matches!(b, L | V | LV | LVT) { return false; } // GB6
        if matches!(a, LV | V) && matches!(b, V | T) { return false; } // GB7
        if matches!(a, LVT | T) && b == T { return false; } // GB8
        if matches!(b, EX | ZWJ) { return false; } // GB9
        if b == SM { return false; } // GB9a
        if a == PP { return false; } // GB9b
        // GB9c: Consonant [Extend Linker]* Linker [Extend Linker]* x Consonant
        if self.incb[s[i] as usize] == Incb::Consonant {
            let mut k = i;
            let mut linker = false;
            while k > 0 && matches!(self.incb[s[k - 1] as usize], Incb::Extend | Incb::Linker) {
                k -= 1;
                linker |= self.incb[s[k] as usize] == Incb::Linker;
            }
            if linker && k > 0 && self.incb[s[k - 1] as usize] == Incb::Consonant { return false; }
        }
        // GB11: ExtPict Extend* ZWJ x ExtPict
        if a == ZWJ && self.ep[s[i] as usize] {
            let mut k = i - 1;
            while k > 0 && g(k - 1) == EX { k -= 1; }
            if k > 0 && self.ep[s[k - 1] as usize] { return false; }
        }
        // GB12, GB13
        if a == RI && b == RI {
            let mut k = i;
            while k > 0 && g(k - 1) == RI { k -= 1; }
            if (i - k) % 2 == 1 { return false; }
        }
        true
    }
    pub fn graphemes(&self, s: &[u32]) -> Vec<Vec<u32>> {
        let mut out = vec![];
        let mut cur = vec![];
        for i in 0..s.len() {
            if i > 0 && self.gbreak(s, i) { out.push(std::mem::take(&mut cur)); }
            cur.push(s[i]);
        }
        if !cur.is_empty() { out.push(cur); }
        out
    }
}
