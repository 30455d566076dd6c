//! Failing-input search and replay for the contracts: runs the real crate (path dependency on
//! /repo) against the executable form of the contracts.  This is never what decides that a property
//! holds (the verifiers do); it turns a violated contract into a concrete failing input.
mod enums;
mod reference;
use reference::*;
use seshat::unicode::props::*;
use seshat::unicode::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static EVALS: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static FAILS: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());
static SLOTS: Mutex<Vec<(u64, String, Instant)>> = Mutex::new(Vec::new());
static SLOT_ID: AtomicU64 = AtomicU64::new(1);

fn fail(input: String, expected: String, actual: String) {
    let mut f = FAILS.lock().unwrap();
    if f.len() < 5 { f.push((input, expected, actual)); }
    if f.len() >= 5 { STOP.store(true, Ordering::Relaxed); }
}
fn failed() -> bool { !FAILS.lock().unwrap().is_empty() }

fn par<F: Fn(usize) + Sync>(n: usize, chunk: usize, f: F) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= n || STOP.load(Ordering::Relaxed) { break; }
                for i in a..(a + chunk).min(n) { f(i); }
            });
        }
    });
}

struct Guard(u64);
thread_local!(static MYSLOT: std::cell::Cell<u64> = std::cell::Cell::new(0));
/// Registers what this thread is doing, so that the watchdog can report a call that never returns.
fn watch(what: &str) -> Guard {
    let id = MYSLOT.with(|s| { if s.get() == 0 { s.set(SLOT_ID.fetch_add(1, Ordering::Relaxed)); } s.get() });
    let mut v = SLOTS.lock().unwrap();
    v.retain(|x| x.0 != id);
    v.push((id, what.to_string(), Instant::now()));
    Guard(id)
}
impl Drop for Guard {
    fn drop(&mut self) { SLOTS.lock().unwrap().retain(|x| x.0 != self.0); }
}

fn hexs(s: &[u32]) -> String { s.iter().map(|c| format!("{:04X}", c)).collect::<Vec<_>>().join(" ") }
fn cps(s: &str) -> Vec<u32> { s.chars().map(|c| c as u32).collect() }
fn to_s(s: &[u32]) -> String { s.iter().map(|&c| char::from_u32(c).unwrap()).collect() }

// ---------------------------------------------------------------- per code point checks
macro_rules! each_enum { ($m:ident) => { $m!(bc BC; ccc CCC; dt DT; gc GC; gcb GCB; wb WB; hst HST; insc INSC; incb INCB; blk BLK; sc SC; age AGE); } }
macro_rules! each_bool { ($m:ident) => { $m!(wspace "WSpace" C02; bidi_c "Bidi_C" C02; join_c "Join_C" C02; dash "Dash" C02; hyphen "Hyphen" C02;
  qmark "QMark" C02; term "Term" C02; omath "OMath" C02; hex "Hex" C02; ahex "AHex" C02; oalpha "OAlpha" C02; ideo "Ideo" C02; dia "Dia" C02;
  ext "Ext" C02; olower "OLower" C02; oupper "OUpper" C02; nchar "NChar" C02; ogr_ext "OGr_Ext" C02; idsb "IDSB" C02; idst "IDST" C02;
  radical "Radical" C02; uideo "UIdeo" C02; odi "ODI" C02; dep "Dep" C02; sd "SD" C02; loe "LOE" C02; oids "OIDS" C02; oidc "OIDC" C02;
  sterm "STerm" C02; vs "VS" C02; pat_ws "Pat_WS" C02; pat_syn "Pat_Syn" C02; pcm "PCM" C02; ri "RI" C02; ce "CE" C02;
  ci "CI" C04; comp_ex "Comp_Ex" C06; math "Math" C04; alpha "Alpha" C04; lower "Lower" C04; upper "Upper" C04; cased "Cased" C04; di "DI" C04;
  gr_ext "Gr_Ext" C04; ids "IDS" C04; idc "IDC" C04; xids "XIDS" C05; xidc "XIDC" C05; emoji "Emoji" C03; epres "EPres" C03; emod "EMod" C03;
  ebase "EBase" C03; ecomp "EComp" C03; ext_pict "ExtPict" C03); } }

fn name_id<T: PartialEq + Copy>(tab: &[(T, &'static str, &'static str, &'static str)], v: T) -> usize {
    tab.iter().position(|x| x.0 == v).unwrap_or(usize::MAX)
}

fn per_cp<F: Fn(u32) + Sync>(f: F) {
    par(N, 512, |i| {
        let _g = if i % 512 == 0 { Some(watch(&format!("cp {:04X}+", i))) } else { None };
        f(i as u32);
        EVALS.fetch_add(1, Ordering::Relaxed);
    });
}
fn expect_cp<T: PartialEq + std::fmt::Debug>(cp: u32, what: &str, want: &T, got: std::thread::Result<T>) {
    match got {
        Ok(g) if g == *want => {}
        Ok(g) => fail(format!("CodePoint U+{:04X} .{}()", cp, what), format!("{:?}", want), format!("{:?}", g)),
        Err(_) => fail(format!("CodePoint U+{:04X} .{}()", cp, what), format!("{:?}", want), "panic".into()),
    }
}
fn expect_char<T: PartialEq + std::fmt::Debug>(c: char, what: &str, want: &T, got: std::thread::Result<T>) {
    match got {
        Ok(g) if g == *want => {}
        Ok(g) => fail(format!("char {:?} .{}()", c, what), format!("{:?}", want), format!("{:?}", g)),
        Err(_) => fail(format!("char {:?} .{}()", c, what), format!("{:?}", want), "panic".into()),
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> { catch_unwind(AssertUnwindSafe(f)) }

fn check_bools(r: &Ref, prop: &str) {
    macro_rules! go { ($($m:ident $n:literal $p:ident);*) => { $(
        if stringify!($p) == prop {
            let b = &r.bins[$n];
            per_cp(|cp| {
                expect_cp(cp, stringify!($m), &b[cp as usize], quiet(|| CodePoint::new(cp).unwrap().$m()));
                if let Some(c) = char::from_u32(cp) { expect_char(c, stringify!($m), &b[cp as usize], quiet(|| c.$m())); }
            });
        }
    )* } }
    each_bool!(go);
}
fn check_enums(r: &Ref) {
    macro_rules! go { ($($m:ident $t:ident);*) => { $( {
        let tab = enums::$t;
        let e = &r.enums[stringify!($m)];
        // value id -> index in the enumeration's table; the oracle names values by abbreviation (ccc: number)
        let map: Vec<usize> = e.1.iter().map(|a| tab.iter().position(|x| if stringify!($m) == "ccc" { format!("{}", ccc_num(x.1)) == *a } else { x.2 == a }).unwrap()).collect();
        per_cp(|cp| {
            let want = map[e.0[cp as usize] as usize];
            let got = quiet(|| CodePoint::new(cp).unwrap().$m());
            match got {
                Ok(v) if v == tab[want].0 => {}
                Ok(v) => fail(format!("CodePoint U+{:04X} .{}()", cp, stringify!($m)), tab[want].1.into(), format!("{:?}", v)),
                Err(_) => fail(format!("CodePoint U+{:04X} .{}()", cp, stringify!($m)), tab[want].1.into(), "panic".into()),
            }
            if let Some(c) = char::from_u32(cp) { expect_char(c, stringify!($m), &tab[want].0, quiet(|| c.$m())); }
        });
    } )* } }
    each_enum!(go);
    let e = &r.enums["ccc"];
    per_cp(|cp| {
        let want: u8 = e.1[e.0[cp as usize] as usize].parse().unwrap();
        expect_cp(cp, "ccc() as u8", &want, quiet(|| CodePoint::new(cp).unwrap().ccc() as u8));
    });
}
fn ccc_num(ident: &str) -> u32 {
    // identifiers CCCn carry the number; the named ones are fixed by the stability policy
    match ident {
        "NR" => 0, "OV" => 1, "HANR" => 6, "NK" => 7, "KV" => 8, "VR" => 9, "ATBL" => 200, "ATB" => 202, "ATA" => 214,
        "ATAR" => 216, "BL" => 218, "B" => 220, "BR" => 222, "L" => 224, "R" => 226, "AL" => 228, "A" => 230, "AR" => 232,
        "DB" => 233, "DA" => 234, "IS" => 240, x => x[3..].parse().unwrap(),
    }
}
fn check_value_names() {
    macro_rules! go { ($($m:ident $t:ident);*) => { $(
        for (v, id, ab, fu) in enums::$t {
            EVALS.fetch_add(1, Ordering::Relaxed);
            let got = quiet(|| { let n = v.property_value_name(); (n.abbr, n.full) });
            match got {
                Ok(g) if g == (*ab, *fu) => {}
                Ok(g) => fail(format!("{}::{}.property_value_name()", stringify!($t), id), format!("{:?}", (ab, fu)), format!("{:?}", g)),
                Err(_) => fail(format!("{}::{}.property_value_name()", stringify!($t), id), format!("{:?}", (ab, fu)), "panic".into()),
            }
        }
    )* } }
    go!(bc BC; ccc CCC; dt DT; gc GC; gcb GCB; wb WB; hst HST; insc INSC; incb INCB; blk BLK; sc SC; age AGE; binary BINARY);
    let _ = name_id::<Gc>;
    for (b, want) in [(true, ("Y", "Yes")), (false, ("N", "No"))] {
        let n = BinaryProperty::from(b).property_value_name();
        if (n.abbr, n.full) != want { fail(format!("BinaryProperty::from({})", b), format!("{:?}", want), format!("{:?}", (n.abbr, n.full))); }
    }
}
/// UnicodeVersion: text, equality, order; boundary values in every field, and random ones
fn check_version(seed: u64, n: usize) {
    use seshat::unicode::{UnicodeVersion, UNICODE_VERSION};
    let u = UNICODE_VERSION;
    if (u.major, u.minor, u.update) != (15, 1, 0) { fail("UNICODE_VERSION".into(), "15.1.0".into(), format!("{}.{}.{}", u.major, u.minor, u.update)); }
    let some = [0u32, 1, 2, 9, 10, 11, 15, 99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 99999, 100000, 0x7FFFFFFF, 0x80000000, 999999999, 1000000000, u32::MAX - 1, u32::MAX];
    let k = some.len();
    let one = |a: u32, b: u32, c: u32, x: u32, y: u32, z: u32| {
        EVALS.fetch_add(1, Ordering::Relaxed);
        let (p, q) = (UnicodeVersion { major: a, minor: b, update: c }, UnicodeVersion { major: x, minor: y, update: z });
        let want = format!("{}.{}.{}", a, b, c);
        match quiet(|| p.to_string()) { Ok(g) if g == want => {} Ok(g) => fail(format!("UnicodeVersion {} .to_string()", want), want.clone(), g), Err(_) => fail(format!("UnicodeVersion {} .to_string()", want), want.clone(), "panic".into()) }
        let r = (a, b, c).cmp(&(x, y, z));
        if p.partial_cmp(&q) != Some(r) || (p == q) != r.is_eq() || (p != q) == r.is_eq() || (p < q) != r.is_lt() || (p <= q) != r.is_le() || (p > q) != r.is_gt() || (p >= q) != r.is_ge() {
            fail(format!("UnicodeVersion {} compared with {}.{}.{}", want, x, y, z), format!("{:?}", r), format!("{:?}, == is {}", p.partial_cmp(&q), p == q));
        }
    };
    for i in 0..k { for j in 0..k { for l in 0..k {
        let (a, b, c) = (some[i], some[j], some[l]);
        one(a, b, c, a, b, c); one(a, b, c, c, b, a); one(a, b, c, a, c, b); one(a, b, c, b, a, c); one(a, b, c, b, c, a);
    } } }
    let mut g = Rng(seed);
    for _ in 0..n {
        let mut v = [0u32; 6];
        for x in v.iter_mut() { *x = (g.next() as u32) >> g.below(32); }
        if g.below(2) == 0 { v[3] = v[0]; if g.below(2) == 0 { v[4] = v[1]; } }
        one(v[0], v[1], v[2], v[3], v[4], v[5]);
        if failed() { return; }
    }
}
fn dm_want(r: &Ref, cp: u32) -> String { r.dm.get(&cp).map(|d| to_s(d)).unwrap_or_default() }
fn check_dm(r: &Ref) {
    per_cp(|cp| {
        let w = dm_want(r, cp);
        expect_cp(cp, "dm", &w, quiet(|| CodePoint::new(cp).unwrap().dm()));
        if let Some(c) = char::from_u32(cp) { expect_char(c, "dm", &w, quiet(|| c.dm())); }
    });
    per_cp(|cp| {
        let c = CodePoint::new(cp).unwrap();
        if let Ok((d, t)) = quiet(|| (c.dm(), c.dt())) {
            if d.is_empty() != (t == Dt::None) { fail(format!("CodePoint U+{:04X} .dm()/.dt()", cp), "mapping empty iff dt None".into(), format!("{:?} {:?}", d, t)); }
            if d.chars().any(|x| x as u32 == cp) { fail(format!("CodePoint U+{:04X} .dm()", cp), "terminating mapping".into(), format!("{:?}", d)); }
        }
    });
}
fn check_na(r: &Ref) {
    per_cp(|cp| {
        let w = r.name(cp);
        expect_cp(cp, "na", &w, quiet(|| CodePoint::new(cp).unwrap().na()));
        if let Some(c) = char::from_u32(cp) { expect_char(c, "na", &w, quiet(|| c.na())); }
    });
}
fn check_receivers(full: bool) {
    // construction over all u32
    let hi: u64 = if full { 1 << 32 } else { 1 << 22 };
    let test = |x: u32| {
        match quiet(|| CodePoint::new(x).map(|c| c.to_u32()).ok()) {
            Ok(g) if g == (if x <= 0x10FFFF { Some(x) } else { None }) => {}
            Ok(g) => fail(format!("CodePoint::new(0x{:X})", x), "exactly 0..=0x10FFFF accepted, value kept".into(), format!("{:?}", g)),
            Err(_) => fail(format!("CodePoint::new(0x{:X})", x), "no panic".into(), "panic".into()),
        }
    };
    par((hi >> 12) as usize, 16, |b| { for x in 0..4096u64 { test((b as u64 * 4096 + x) as u32); } EVALS.fetch_add(4096, Ordering::Relaxed); });
    if !full { par(1 << 20, 1024, |b| { let x = (b as u32) << 12; for d in 0..3u32 { test((x | 0xFFF).wrapping_add(d)); test((x as u32).wrapping_add(b as u32 % 4096)); } }); }
    per_cp(|cp| {
        let c = CodePoint::new(cp).unwrap();
        let hex = format!("{:X}", cp);
        let want = format!("U+{}{}", "0".repeat(4usize.saturating_sub(hex.len())), hex);
        expect_cp(cp, "to_string", &want, quiet(|| c.to_string()));
        if let Some(ch) = char::from_u32(cp) {
            expect_cp(cp, "to_code_point", &cp, quiet(|| ch.to_code_point().to_u32()));
            macro_rules! same { ($($m:ident)*) => { $( {
                let (a, b) = (quiet(|| ch.$m()), quiet(|| c.$m()));
                match (a, b) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), Err(_)) => {}
                    (a, b) => fail(format!("{:?}.{}() vs CodePoint U+{:04X}", ch, stringify!($m), cp), format!("CodePoint: {:?}", b.ok()), format!("char: {:?}", a.ok())),
                }
            } )* } }
            same!(dm na);
            macro_rules! e { ($($m:ident $t:ident);*) => { same!($($m)*) } }
            each_enum!(e);
            macro_rules! b { ($($m:ident $n:literal $p:ident);*) => { same!($($m)*) } }
            each_bool!(b);
        }
    });
}
fn check_no_panic() {
    per_cp(|cp| {
        macro_rules! np { ($($m:ident)*) => { $(
            if quiet(|| { let _ = CodePoint::new(cp).unwrap().$m(); }).is_err() { fail(format!("CodePoint U+{:04X} .{}()", cp, stringify!($m)), "no panic".into(), "panic".into()); }
            if let Some(ch) = char::from_u32(cp) { if quiet(|| { let _ = ch.$m(); }).is_err() { fail(format!("{:?}.{}()", ch, stringify!($m)), "no panic".into(), "panic".into()); } }
        )* } }
        np!(dm na);
        macro_rules! e { ($($m:ident $t:ident);*) => { np!($($m)*) } }
        each_enum!(e);
        macro_rules! b { ($($m:ident $n:literal $p:ident);*) => { np!($($m)*) } }
        each_bool!(b);
        if quiet(|| CodePoint::new(cp).unwrap().to_string()).is_err() { fail(format!("CodePoint U+{:04X} Display", cp), "no panic".into(), "panic".into()); }
    });
    for x in [0x110000u32, 0x110001, 0x7FFFFFFF, 0x80000000, u32::MAX] {
        if quiet(|| CodePoint::new(x).is_ok()).is_err() { fail(format!("CodePoint::new(0x{:X})", x), "no panic".into(), "panic".into()); }
    }
}

/// Histories: the answers must not depend on what was asked before.  One thread, related code points, mixed properties and receivers.
fn history(r: &Ref, prop: &str, seed: u64, n: usize) {
    if failed() || prop == "C20" { return; }
    type Q<'a> = (&'static str, Box<dyn Fn(u32, bool) -> Option<(String, String)> + 'a>);
    let mut qs: Vec<Q> = vec![];
    fn cmp<T: PartialEq + std::fmt::Debug>(want: &T, got: std::thread::Result<T>) -> Option<(String, String)> {
        match got { Ok(g) if g == *want => None, Ok(g) => Some((format!("{:?}", want), format!("{:?}", g))), Err(_) => Some((format!("{:?}", want), "panic".into())) }
    }
    fn ch(cp: u32, c: bool) -> Option<char> { if c { char::from_u32(cp) } else { None } }
    macro_rules! ask { ($m:ident, $cp:ident, $c:ident) => { quiet(|| match ch($cp, $c) { Some(x) => x.$m(), None => CodePoint::new($cp).unwrap().$m() }) } }
    macro_rules! b { ($($m:ident $n:literal $p:ident);*) => { $( if stringify!($p) == prop || prop == "C07" || prop == "C19" {
        let v = &r.bins[$n];
        qs.push((stringify!($m), Box::new(move |cp, c| cmp(&v[cp as usize], ask!($m, cp, c)))));
    } )* } }
    each_bool!(b);
    macro_rules! e { ($($m:ident $t:ident);*) => { $( if prop == "C01" || prop == "C07" || prop == "C19" || prop == "C09" && stringify!($m) == "dt" {
        let e = &r.enums[stringify!($m)];
        let map: Vec<usize> = e.1.iter().map(|a| enums::$t.iter().position(|x| if stringify!($m) == "ccc" { format!("{}", ccc_num(x.1)) == *a } else { x.2 == a }).unwrap()).collect();
        qs.push((stringify!($m), Box::new(move |cp, c| cmp(&enums::$t[map[e.0[cp as usize] as usize]].0, ask!($m, cp, c)))));
    } )* } }
    each_enum!(e);
    if prop == "C08" || prop == "C07" || prop == "C19" { qs.push(("na", Box::new(move |cp, c| cmp(&r.name(cp), ask!(na, cp, c))))); }
    if prop == "C09" || prop == "C07" || prop == "C19" { qs.push(("dm", Box::new(move |cp, c| cmp(&dm_want(r, cp), ask!(dm, cp, c))))); }
    if prop == "C07" { qs.push(("to_string", Box::new(move |cp, _| cmp(&format!("U+{:04X}", cp), quiet(|| CodePoint::new(cp).unwrap().to_string()))))); }
    if qs.is_empty() { return; }
    let mut g = Rng(seed);
    let (mut cp, mut old, mut q) = (0u32, 0u32, 0usize);
    let mut trace: Vec<String> = vec![];
    let _w = watch("a history of property queries");
    for _ in 0..n {
        let k = g.below(21) as u32;
        let x = match g.below(10) {
            0 | 1 => g.below(N) as u32, 2 => cp.wrapping_add(1), 3 => cp.wrapping_sub(1), 4 => cp, 5 => cp ^ (1 << k),
            6 => cp.wrapping_add((g.below(N) as u32) << k), 7 => old, 8 => g.below(0x3400) as u32, _ => [0xAC00u32, 0x3400, 0x4E00, 0xF900, 0x1D100, 0x1F300, 0xE0000, 0xD7A3][g.below(8)] + g.below(64) as u32 };
        old = cp; cp = if x < N as u32 { x } else { x % N as u32 };
        if g.below(2) == 0 { q = g.below(qs.len()); }
        let c = g.below(2) == 0;
        EVALS.fetch_add(1, Ordering::Relaxed);
        trace.push(format!("U+{:04X} .{}()", cp, qs[q].0)); if trace.len() > 4 { trace.remove(0); }
        if let Some((w, a)) = (qs[q].1)(cp, c) { fail(format!("the last of the queries {}", trace.join(", ")), w, a); break; }
    }
}

// ---------------------------------------------------------------- two-stage tables
fn check_tables(seed: u64, n: usize) {
    use seshat::collections::TwoStageTable;
    fn one<I: num_like::Num>(seed: u64, k: usize) {
        let mut g = Rng(seed ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15));
        let bs = match g.below(6) { 0 => 1, 1 => 2 + g.below(7), 2 => 16, 3 => 1 + g.below(300), 4 => 256, _ => 1 << g.below(11) };
        let blocks = 1 + g.below(if I::MAXV < 300 { 256 } else { 400 });
        let pages = 1 + g.below(600);
        let s2: Vec<Vec<u32>> = (0..blocks).map(|b| (0..bs).map(|o| ((b as u32) << 12) ^ o as u32 ^ 0x5A5A_0000).collect()).collect();
        let s2r: Vec<&[u32]> = s2.iter().map(|v| &v[..]).collect();
        let s1u: Vec<usize> = (0..pages).map(|p| match g.below(4) { 0 => blocks - 1, 1 => p % blocks, _ => g.below(blocks) }).collect();
        let s1: Vec<I> = s1u.iter().map(|&x| I::of(x)).collect();
        let t = TwoStageTable::<u32, I>::new(&s1, &s2r, bs);
        let total = pages * bs;
        for q in 0..64.min(total) {
            let cp = match q % 4 { 0 => g.below(total), 1 => total - 1 - q.min(total - 1), 2 => (q * bs).min(total - 1), _ => ((q + 1) * bs - 1).min(total - 1) };
            EVALS.fetch_add(1, Ordering::Relaxed);
            let want = s2[s1u[cp / bs]][cp % bs];
            let got = quiet(|| t.at(cp as u32));
            if got.as_ref().ok() != Some(&want) {
                fail(format!("TwoStageTable<u32,{}>: block_size {}, pages {}, blocks {}, at({})", std::any::type_name::<I>(), bs, pages, blocks, cp), format!("{:#x}", want), format!("{:x?}", got.ok()));
            }
        }
    }
    par(n, 8, |k| { let _g = watch("two-stage table"); match k % 4 { 0 => one::<u8>(seed, k), 1 => one::<u16>(seed, k), 2 => one::<u32>(seed, k), _ => one::<i32>(seed, k) } });
    // large first stages / offsets and a full-range table
    let s2: Vec<Vec<u32>> = (0..70000u32).map(|b| vec![b, !b]).collect();
    let s2r: Vec<&[u32]> = s2.iter().map(|v| &v[..]).collect();
    let s1: Vec<u32> = (0..70000u32).map(|x| (x * 31) % 70000).collect();
    let t = TwoStageTable::<u32, u32>::new(&s1, &s2r, 2);
    for cp in 0..140000u32 {
        let want = s2[s1[(cp / 2) as usize] as usize][(cp % 2) as usize];
        if quiet(|| t.at(cp)).ok() != Some(want) { fail(format!("TwoStageTable<u32,u32> large: at({})", cp), format!("{}", want), "different".into()); break; }
    }
    let id: Vec<u32> = (0..N as u32).collect();
    let idr = [&id[..]];
    let t = TwoStageTable::<u32, u8>::new(&[0], &idr, N);
    for cp in (0..N as u32).step_by(7).chain([N as u32 - 1]) { if quiet(|| t.at(cp)).ok() != Some(cp) { fail(format!("TwoStageTable single block: at({})", cp), format!("{}", cp), "different".into()); break; } }
    let one: Vec<[u32; 1]> = (0..300u32).map(|x| [x * 3]).collect();
    let oner: Vec<&[u32]> = one.iter().map(|v| &v[..]).collect();
    let s1: Vec<u16> = (0..300u16).rev().collect();
    let t = TwoStageTable::<u32, u16>::new(&s1, &oner, 1);
    for cp in 0..300u32 { if quiet(|| t.at(cp)).ok() != Some((299 - cp) * 3) { fail(format!("TwoStageTable block size 1: at({})", cp), format!("{}", (299 - cp) * 3), "different".into()); break; } }
    // block sizes beyond the range of u32: everything is in the first block
    for bs in [1usize << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 3, usize::MAX] {
        let two: [&[u32]; 2] = [&id[..1], &id[..]];
        let t = TwoStageTable::<u32, u16>::new(&[1], &two, bs);
        for cp in [0u32, 2, 5, 255, 0x10FFFF] { if quiet(|| t.at(cp)).ok() != Some(cp) { fail(format!("TwoStageTable block size {}: at({})", bs, cp), format!("{}", cp), "panic or different".into()); break; } }
    }
    // entries above 0x10FFFF are addressed as well
    let blk: Vec<u32> = (0..1024u32).collect();
    let s1: Vec<u8> = vec![0; 0x200000 / 1024];
    let blkr = [&blk[..]];
    let t = TwoStageTable::<u32, u8>::new(&s1, &blkr, 1024);
    for cp in [0x110000u32, 0x1FFFFF, 0x10FFFF, 0x123456] { if quiet(|| t.at(cp)).ok() != Some(cp % 1024) { fail(format!("TwoStageTable at({:#x})", cp), format!("{}", cp % 1024), "different".into()); } }
}
mod num_like {
    pub trait Num: ::num::Num + ::num::cast::AsPrimitive<usize> { const MAXV: usize; fn of(x: usize) -> Self; }
    impl Num for u8 { const MAXV: usize = 255; fn of(x: usize) -> Self { x as u8 } }
    impl Num for u16 { const MAXV: usize = 65535; fn of(x: usize) -> Self { x as u16 } }
    impl Num for u32 { const MAXV: usize = 1 << 31; fn of(x: usize) -> Self { x as u32 } }
    impl Num for i32 { const MAXV: usize = 1 << 30; fn of(x: usize) -> Self { x as i32 } }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

// ---------------------------------------------------------------- string checks
/// Runs the contract of `prop` on one string; Err(expected, actual).
fn check_string(r: &Ref, prop: &str, s: &[u32]) -> Result<(), (String, String)> {
    let st = to_s(s);
    let call = |what: &str, f: &dyn Fn() -> String| -> Result<Vec<u32>, (String, String)> {
        quiet(|| f()).map(|x| cps(&x)).map_err(|_| (format!("{} returns", what), "panic".to_string()))
    };
    let eq = |what: &str, want: Vec<u32>, got: Vec<u32>| -> Result<(), (String, String)> {
        if want == got { Ok(()) } else { Err((format!("{} = [{}]", what, hexs(&want)), format!("[{}]", hexs(&got)))) }
    };
    let segs = |st: &str| -> Result<Vec<String>, (String, String)> {
        quiet(|| {
            let mut it = st.break_graphemes();
            let mut v = vec![];
            for _ in 0..s.len() + 2 { match it.next() { Some(x) => v.push(x.to_string()), None => break } }
            for _ in 0..2 { if let Some(x) = it.next() { v.push(x.to_string()); } }
            v
        }).map_err(|_| ("segmentation returns".to_string(), "panic".to_string()))
    };
    // the provided iterator methods agree with a loop over next()
    let consumers = |v: &Vec<String>| -> Result<(), (String, String)> {
        let ways: [(&str, &dyn Fn() -> Vec<String>); 8] = [
            ("collect()", &|| st.break_graphemes().map(|x| x.to_string()).collect()),
            ("fold()", &|| st.break_graphemes().fold(vec![], |mut a, x| { a.push(x.to_string()); a })),
            ("for", &|| { let mut a = vec![]; for x in st.break_graphemes() { a.push(x.to_string()); } a }),
            ("next() then collect()", &|| { let mut i = st.break_graphemes(); let mut a: Vec<String> = i.next().map(|x| x.to_string()).into_iter().collect(); a.extend(i.map(|x| x.to_string())); a }),
            ("nth(0) in a loop", &|| { let mut i = st.break_graphemes(); let mut a = vec![]; while let Some(x) = i.nth(0) { a.push(x.to_string()); if a.len() > v.len() { break } } a }),
            ("nth(k)", &|| (0..v.len() + 1).filter_map(|k| st.break_graphemes().nth(k).map(|x| x.to_string())).collect()),
            ("skip(1) after the first", &|| { let mut a: Vec<String> = st.break_graphemes().next().map(|x| x.to_string()).into_iter().collect(); a.extend(st.break_graphemes().skip(1).map(|x| x.to_string())); a }),
            ("skip(count()-1) and last()", &|| { let n = st.break_graphemes().count(); let mut a: Vec<String> = st.break_graphemes().take(n.saturating_sub(1)).map(|x| x.to_string()).collect(); a.extend(st.break_graphemes().last().map(|x| x.to_string())); a }),
        ];
        for (n, f) in ways.iter() {
            let got = quiet(|| f()).map_err(|_| (format!("{} returns", n), "panic".to_string()))?;
            if &got != v { return Err((format!("{} yields what next() yields: {:?}", n, v), format!("{:?}", got))); }
        }
        for n in [v.len(), st.len() + 1] {
            let after = quiet(|| { let mut i = st.break_graphemes(); (i.nth(n).is_none(), i.next().is_none()) }).map_err(|_| ("nth past the end returns".to_string(), "panic".to_string()))?;
            if after != (true, true) { return Err(("nth past the end consumes all clusters and returns None".into(), format!("{:?}", after))); }
        }
        let mut i = st.break_graphemes();
        for k in 0..v.len() + 1 {
            let (lo, hi) = quiet(|| i.size_hint()).map_err(|_| ("size_hint returns".to_string(), "panic".to_string()))?;
            let left = v.len() - k;
            if lo > left || hi.map_or(false, |h| h < left) { return Err((format!("size_hint admits {}", left), format!("{:?}", (lo, hi)))); }
            let _ = quiet(|| i.next());
        }
        Ok(())
    };
    match prop {
        "C11" => {
            eq("NFD", r.nfd(s), call("to_nfd", &|| st.to_nfd())?)?;
            eq("NFC", r.nfc(s), call("to_nfc", &|| st.to_nfc())?)?;
            let d = r.nfd(s);
            let ds = to_s(&d);
            eq("NFC(NFD)", r.nfc(s), call("to_nfc", &|| ds.to_nfc())?)
        }
        "C12" => {
            for compat in [false, true] {
                let t = r.expand(s, compat);
                let ts = to_s(&t);
                let mut want = t.clone();
                r.order(&mut want);
                if compat { eq("NFKD (ordering only)", want, call("to_nfkd", &|| ts.to_nfkd())?)?; }
                else { eq("NFD (ordering only)", want, call("to_nfd", &|| ts.to_nfd())?)?; }
            }
            Ok(())
        }
        "C13" => {
            let (d, k) = (r.nfd(s), r.nfkd(s));
            eq("NFD", d.clone(), call("to_nfd", &|| st.to_nfd())?)?;
            eq("NFKD", k.clone(), call("to_nfkd", &|| st.to_nfkd())?)
        }
        "C14" => {
            eq("NFC", r.nfc(s), call("to_nfc", &|| st.to_nfc())?)?;
            eq("NFKC", r.nfkc(s), call("to_nfkc", &|| st.to_nfkc())?)
        }
        "C15" => {
            let (d, c, kd, kc) = (call("to_nfd", &|| st.to_nfd())?, call("to_nfc", &|| st.to_nfc())?, call("to_nfkd", &|| st.to_nfkd())?, call("to_nfkc", &|| st.to_nfkc())?);
            let (ds, cs, kds, kcs) = (to_s(&d), to_s(&c), to_s(&kd), to_s(&kc));
            eq("NFD(NFD(s))", d.clone(), call("to_nfd", &|| ds.to_nfd())?)?;
            eq("NFC(NFC(s))", c.clone(), call("to_nfc", &|| cs.to_nfc())?)?;
            eq("NFKD(NFKD(s))", kd.clone(), call("to_nfkd", &|| kds.to_nfkd())?)?;
            eq("NFKC(NFKC(s))", kc.clone(), call("to_nfkc", &|| kcs.to_nfkc())?)?;
            eq("NFD(NFC(s))", d.clone(), call("to_nfd", &|| cs.to_nfd())?)?;
            eq("NFC(NFD(s))", c.clone(), call("to_nfc", &|| ds.to_nfc())?)?;
            eq("NFKD(NFKC(s))", kd.clone(), call("to_nfkd", &|| kcs.to_nfkd())?)?;
            eq("NFC(NFKD(s))", kc.clone(), call("to_nfc", &|| kds.to_nfc())?)?;
            eq("NFKD(NFC(s))", kd.clone(), call("to_nfkd", &|| cs.to_nfkd())?)?;
            eq("NFKD(NFD(s))", kd.clone(), call("to_nfkd", &|| ds.to_nfkd())?)?;
            eq("NFKC(NFC(s))", kc.clone(), call("to_nfkc", &|| cs.to_nfkc())?)?;
            eq("NFKC(NFKD(s))", kc.clone(), call("to_nfkc", &|| kds.to_nfkc())?)
        }
        "C16" => {
            let v = segs(&st)?;
            let show = |v: &Vec<String>| v.iter().map(|x| format!("[{}]", hexs(&cps(x)))).collect::<String>();
            if v.iter().any(|x| x.is_empty()) || v.concat() != st {
                return Err(("non-empty clusters concatenating to the input".into(), show(&v)));
            }
            if s.len() <= 6 { consumers(&v)?; }
            Ok(())
        }
        "C17" => {
            let v = segs(&st)?;
            let want: Vec<String> = r.graphemes(s).iter().map(|x| to_s(x)).collect();
            let show = |v: &Vec<String>| v.iter().map(|x| format!("[{}]", hexs(&cps(x)))).collect::<String>();
            if v != want { return Err((show(&want), show(&v))); }
            if s.len() <= 6 { consumers(&v)?; }
            Ok(())
        }
        "C19" => {
            let _ = segs(&st)?;
            call("to_nfd", &|| st.to_nfd())?; call("to_nfc", &|| st.to_nfc())?; call("to_nfkd", &|| st.to_nfkd())?; call("to_nfkc", &|| st.to_nfkc())?;
            Ok(())
        }
        "C05" => {
            // identifier closure: s = one character
            let c = CodePoint::new(s[0]).unwrap();
            let (xs, xc) = (c.xids(), c.xidc());
            for (n, d) in [("NFKC", call("to_nfkc", &|| st.to_nfkc())?), ("NFKD", call("to_nfkd", &|| st.to_nfkd())?)] {
                let tail = |k: usize| d[k..].iter().all(|&x| CodePoint::new(x).unwrap().xidc());
                if xs && !(!d.is_empty() && CodePoint::new(d[0]).unwrap().xids() && tail(1)) { return Err((format!("{} of an XID_Start character is an identifier", n), hexs(&d))); }
                if xc && !tail(0) { return Err((format!("{} of an XID_Continue character continues an identifier", n), hexs(&d))); }
            }
            if xs && !xc { return Err(("XID_Start within XID_Continue".into(), hexs(s))); }
            if xs && !c.ids() || xc && !c.idc() { return Err(("XID_* within ID_*".into(), hexs(s))); }
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn suite<F: Fn(usize) -> Vec<u32> + Sync>(r: &Ref, prop: &str, n: usize, gen: F) {
    if STOP.load(Ordering::Relaxed) { return; }
    let chunk = (n / 4096).clamp(1, 256);
    par(n, chunk, |i| {
        let s = gen(i);
        if s.iter().any(|&c| char::from_u32(c).is_none()) { return; }
        let _g = if s.len() > 6 || i % chunk == 0 { Some(watch(&format!("string [{}] (or one of the {} following in the suite)", hexs(&s), chunk))) } else { None };
        EVALS.fetch_add(1, Ordering::Relaxed);
        if let Err(e0) = check_string(r, prop, &s) {
            // shrink
            let mut t = s;
            let mut changed = true;
            while changed {
                changed = false;
                let mut w = t.len() / 2;
                while w >= 1 {
                    let mut k = 0;
                    while k + w <= t.len() && t.len() > w {
                        let mut u = t.clone();
                        u.drain(k..k + w);
                        if check_string(r, prop, &u).is_err() { t = u; changed = true; } else { k += w; }
                    }
                    w /= 2;
                }
            }
            let e = check_string(r, prop, &t).err().unwrap_or((e0.0, e0.1 + " (depends on earlier calls)"));
            fail(format!("string [{}]", hexs(&t)), e.0, e.1);
        }
    });
}

fn tuples(alpha: &[u32], len: usize, mut i: usize) -> Vec<u32> {
    let mut v = vec![0; len];
    for k in 0..len { v[k] = alpha[i % alpha.len()]; i /= alpha.len(); }
    v
}

fn search_graphemes(r: &Ref, prop: &str, seed: u64, thorough: bool) {
    use std::collections::BTreeMap;
    let scalar = |c: u32| char::from_u32(c).is_some();
    let mut cls: BTreeMap<(reference::Gcb, reference::Incb, bool, usize), Vec<u32>> = BTreeMap::new();
    for c in (0..N as u32).filter(|&c| scalar(c)) {
        cls.entry((r.gcb[c as usize], r.incb[c as usize], r.ep[c as usize], char::from_u32(c).unwrap().len_utf8())).or_default().push(c);
    }
    // representatives: several per joint class and encoded length, one per joint class
    let mut many: Vec<u32> = vec![0];
    let mut one: BTreeMap<(reference::Gcb, reference::Incb, bool), u32> = BTreeMap::new();
    for (k, v) in &cls {
        many.push(v[0]);
        if v.len() > 2 { many.push(v[v.len() / 2]); }
        one.entry((k.0, k.1, k.2)).or_insert(v[v.len() / 3]);
    }
    many.sort(); many.dedup();
    let one: Vec<u32> = one.values().cloned().collect();
    for len in 0..=3 { suite(r, prop, many.len().pow(len as u32), |i| tuples(&many, len, i)); }
    for len in 4..=(if thorough { 6 } else { 5 }) { suite(r, prop, one.len().pow(len as u32), |i| tuples(&one, len, i)); }
    // every code point in contexts that exercise each rule
    let ctx: &[&[u32]] = &[&[0], &[0, 0], &[0x61, 0, 0x62], &[0, 0x300, 0], &[0x1F1E6, 0, 0x1F1E6, 0x1F1E6], &[0x915, 0x94D, 0, 0x915], &[0x915, 0, 0x915],
        &[0x915, 0x94D, 0x93C, 0], &[0, 0x94D, 0x915], &[0x1F600, 0x200D, 0], &[0x1F600, 0, 0x200D, 0x1F600], &[0, 0x200D, 0x1F600], &[0x600, 0], &[0, 0x1160, 0], &[0x1100, 0, 0x11A8], &[0xD, 0, 0xA], &[0xAC00, 0, 0xAC01, 0]];
    suite(r, prop, ctx.len() * N, |i| ctx[i / N].iter().map(|&x| if x == 0 { (i % N) as u32 } else { x }).collect());
    // the characters with distinctive rules, longer
    let core: Vec<u32> = vec![0x915, 0x94D, 0x93C, 0x200D, 0x200C, 0x903, 0x1F600, 0x1F1E6, 0x600, 0x61];
    let n6 = if thorough { 8 } else { 6 };
    for len in 6..=n6 { suite(r, prop, core.len().pow(len as u32), |i| tuples(&core, len, i)); }
    // random, with runs
    let rep = |g: &mut Rng| match g.below(4) { 0 => many[g.below(many.len())], 1 => core[g.below(core.len())], 2 => one[g.below(one.len())], _ => { let v = cls.values().nth(g.below(cls.len())).unwrap(); v[g.below(v.len())] } };
    suite(r, prop, if thorough { 3_000_000 } else { 300_000 }, |i| {
        let mut g = Rng(seed ^ (i as u64) << 20);
        let len = 1 + g.below(if i % 50 == 0 { 300 } else { 24 });
        let mut v = vec![];
        while v.len() < len { let c = rep(&mut g); let k = if g.below(8) == 0 { 1 + g.below(20) } else { 1 }; for _ in 0..k { v.push(c); } }
        v
    });
    // long periodic strings: counters and look-back of every length
    let lens = [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1025];
    let a = one.len();
    suite(r, prop, a * a * lens.len(), |i| {
        let (x, y, n) = (one[i % a], one[i / a % a], lens[i / a / a]);
        let mut v = vec![x]; for _ in 0..n { v.push(y); } v.push(x); v.push(y); v
    });
    let b = core.len();
    suite(r, prop, b * b * b * b * 8, |i| {
        let t = tuples(&core, 4, i % (b * b * b * b));
        let n = [20usize, 33, 65, 100, 130, 257, 258, 300][i / (b * b * b * b)];
        // head, a long middle run, two tail characters
        let mut v = vec![t[0]]; for _ in 0..n { v.push(t[1]); } v.push(t[2]); v.push(t[3]); v
    });
    suite(r, prop, b * b * 3, |i| {
        let n = [70_000usize, 33_000, 66_001][i / (b * b)];
        let (x, y) = (core[i % b], core[i / b % b]);
        // one cluster only: quadratic look-back in the reference is bounded by using runs
        if x == y && (x == 0x1F1E6 || x == 0x94D || x == 0x93C) && i / (b * b) > 0 { return vec![x, y]; }
        let mut v = vec![x]; for _ in 0..(if y == 0x1F1E6 || y == 0x94D || y == 0x93C { 3000 } else { n / 16 }) { v.push(y); } v.push(x); v
    });
}

fn search_norm(r: &Ref, prop: &str, seed: u64, thorough: bool) {
    let scalar = |c: u32| char::from_u32(c).is_some();
    // interesting characters
    let mut decs: Vec<u32> = r.dm.keys().cloned().filter(|c| !(0xAC00..0xD7A4).contains(c)).collect(); decs.sort();
    let marks: Vec<u32> = (0..N as u32).filter(|&c| scalar(c) && r.ccc[c as usize] != 0).collect();
    let mut firsts: Vec<u32> = r.comp.iter().filter(|x| !(0xAC00..0xD7A4).contains(x.1)).map(|x| x.0 .0).collect(); firsts.sort(); firsts.dedup();
    let mut seconds: Vec<u32> = r.comp.iter().filter(|x| !(0xAC00..0xD7A4).contains(x.1)).map(|x| x.0 .1).collect(); seconds.sort(); seconds.dedup();
    // marks: two per combining class
    let mut percls: std::collections::BTreeMap<u8, Vec<u32>> = Default::default();
    for &m in &marks { percls.entry(r.ccc[m as usize]).or_default().push(m); }
    let one: Vec<u32> = percls.values().map(|v| v[v.len() / 2]).collect();
    let two: Vec<u32> = percls.values().flat_map(|v| if v.len() > 1 { vec![v[0], v[v.len() - 1]] } else { vec![v[0]] }).collect();
    let undec = |v: &Vec<u32>| -> Vec<u32> { v.iter().cloned().filter(|c| !r.dm.contains_key(c)).collect() };
    let two_u = undec(&two);
    suite(r, prop, 1, |_| vec![]);
    // every character alone and in contexts
    let ctx: &[&[u32]] = &[&[0], &[0x61, 0], &[0, 0x301], &[0, 0x323, 0x307], &[0x61, 0x301, 0, 0x323], &[0, 0], &[0x1100, 0, 0x11A8], &[0xAC00, 0], &[0x345, 0, 0x591], &[0, 0x338, 0x301]];
    suite(r, prop, ctx.len() * N, |i| ctx[i / N].iter().map(|&x| if x == 0 { (i % N) as u32 } else { x }).collect());
    // every composition-relevant pair, adjacent and with something between
    let (f, s) = (firsts.len(), seconds.len());
    let mids: Vec<Option<u32>> = vec![None, Some(0x334), Some(0x327), Some(0x323), Some(0x301), Some(0x345), Some(0x61), Some(0x200C), Some(0x5B0), Some(0x3099)];
    suite(r, prop, f * s * mids.len(), |i| { let mut v = vec![firsts[i % f]]; if let Some(m) = mids[i / f / s] { v.push(m); } v.push(seconds[i / f % s]); v });
    // compositions chained: first, two seconds
    let fr: Vec<u32> = firsts.iter().cloned().step_by(if thorough { 1 } else { 5 }).chain([0x41, 0x61, 0x75, 0x6F, 0x3B1, 0x3C9, 0x1EA0, 0xE2]).collect();
    suite(r, prop, fr.len() * s * s, |i| vec![fr[i % fr.len()], seconds[i / fr.len() % s], seconds[i / fr.len() / s]]);
    // composite then second; excluded composites
    suite(r, prop, decs.len() * 6, |i| vec![decs[i % decs.len()], [0x300, 0x301, 0x323, 0x345, 0x3099, 0x338][i / decs.len()]]);
    suite(r, prop, decs.len() * s, |i| { let d = r.dm[&decs[i % decs.len()]].clone(); let mut v = d; v.push(seconds[i / decs.len()]); v });
    // orderings: all pairs over all marks with a few, triples over one per class, reduced quadruples
    let t = two.len();
    suite(r, prop, t * t * 3, |i| match i / t / t { 0 => vec![two[i % t], two[i / t % t]], 1 => vec![0x61, two[i % t], two[i / t % t]], _ => vec![two[i % t], 0x61, two[i / t % t], two[i % t]] });
    let o = one.len();
    suite(r, prop, o * o * o * 2, |i| { let mut v = if i < o * o * o { vec![] } else { vec![0x65] }; v.extend(tuples(&one, 3, i % (o * o * o))); v });
    let q: Vec<u32> = vec![0x61, 0x334, 0x327, 0x323, 0x301, 0x300, 0x345, 0x5B0, 0x3099, 0xE1, 0xAC00, 0x11A8];
    for len in 4..=(if thorough { 7 } else { 5 }) { suite(r, prop, q.len().pow(len as u32), |i| tuples(&q, len, i)); }
    // all marks against a middle class, both orders
    suite(r, prop, marks.len() * 4, |i| { let m = marks[i % marks.len()]; match i / marks.len() { 0 => vec![0x61, 0x301, m], 1 => vec![0x61, m, 0x323], 2 => vec![m, 0x301, m, 0x323], _ => vec![0x61, 0x345, m, 0x334] } });
    // Hangul
    let jam: Vec<u32> = (0x10F8..0x1208).collect();
    let j = jam.len();
    suite(r, prop, j * j, |i| vec![jam[i % j], jam[i / j]]);
    suite(r, prop, 19 * 21 * 40, |i| vec![0x1100 + (i / 840) as u32, 0x1161 + (i / 40 % 21) as u32, 0x119F + (i % 40) as u32]);
    suite(r, prop, 11172 * 32, |i| vec![0xAC00 + (i / 32) as u32, 0x11A5 + (i % 32) as u32]);
    suite(r, prop, 11172 * 3, |i| { let c = 0xAC00 + (i / 3) as u32; match i % 3 { 0 => vec![c, c], 1 => vec![c, 0x301, 0x11A8], _ => vec![0x1100, c, 0x1161] } });
    // random
    let hang: Vec<u32> = (0x1100..0x1200).chain(0xAC00..0xAC40).chain(0xD780..0xD7A4).collect();
    let pick = |g: &mut Rng| -> u32 { match g.below(9) { 0 => decs[g.below(decs.len())], 1 => marks[g.below(marks.len())], 2 => firsts[g.below(f)], 3 => seconds[g.below(s)], 4 => hang[g.below(hang.len())], 5 => q[g.below(q.len())], 6 => one[g.below(o)], 7 => two_u[g.below(two_u.len())], _ => 0x20 + g.below(0x3000) as u32 } };
    suite(r, prop, if thorough { 2_000_000 } else { 150_000 }, |i| {
        let mut g = Rng(seed ^ (i as u64) << 18);
        let len = 1 + g.below(if i % 100 == 0 { 120 } else { 14 });
        (0..len).map(|_| pick(&mut g)).collect()
    });
    // long runs of marks (length thresholds) with and without a starter
    let lens = [9usize, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300];
    suite(r, prop, lens.len() * 40, |i| {
        let mut g = Rng(seed ^ 0xABCDEF ^ (i as u64) << 18);
        let n = lens[i % lens.len()];
        let mut v = if i % 2 == 0 { vec![] } else { vec![0x61] };
        for k in 0..n { v.push(match i / lens.len() % 5 { 0 => two[g.below(t)], 1 => if k == n - 1 { 0x334 } else { 0x301 }, 2 => one[o - 1 - k % o], 3 => marks[g.below(marks.len())], _ => if g.below(20) == 0 { 0x62 } else { seconds[g.below(s)] } }); }
        v
    });
    // a starter, a long run of marks that do not block (or do), then a mark that composes with the starter
    let lens2 = [2usize, 3, 5, 8, 15, 16, 29, 30, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 199, 200, 255, 256, 257, 258, 300, 511, 512, 513];
    let runs = [0x334u32, 0x5B0, 0x327, 0x93C, 0x3099, 0x94D, 0x321, 0x316, 0x302, 0x301, 0x345, 0x200C];
    let starts = [(0x61u32, 0x301u32), (0x61, 0x323), (0x3B1, 0x345), (0x1EA1, 0x302), (0xE2, 0x301), (0x915, 0x93C), (0x304B, 0x3099), (0x212B, 0x301), (0xAC00, 0x11A8), (0x1100, 0x1161), (0x9C7, 0x9BE)];
    let (nl, nr, ns) = (lens2.len(), runs.len(), starts.len());
    suite(r, prop, nl * nr * ns * 3, |i| {
        let (n, m, (a, c), k) = (lens2[i % nl], runs[i / nl % nr], starts[i / nl / nr % ns], i / nl / nr / ns);
        let mut v = if k == 2 { vec![0x62, 0x323] } else { vec![] };
        v.push(a);
        for _ in 0..n { v.push(m); }
        v.push(c);
        if k == 1 { v.push(0x301); v.push(a); v.push(c); }
        v
    });
    // long texts with one or two characters that decompose, at every kind of position
    let lens3 = [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
    let fills = [0x61u32, 0x4E00, 0x915, 0xAC00];
    let ones = [0x212Bu32, 0xE5, 0x1E69, 0x344, 0x1D15E, 0xAC01, 0xFB03, 0xF900, 0x1FB7, 0x3385, 0x2F801, 0x11A8, 0x301, 0x1D1BF, 0xFDFA];
    let (l3, f3, o3) = (lens3.len(), fills.len(), ones.len());
    suite(r, prop, l3 * f3 * o3 * 3, |i| {
        let (n, f, c, k) = (lens3[i % l3], fills[i / l3 % f3], ones[i / l3 / f3 % o3], i / l3 / f3 / o3);
        if n > 600 && (f != 0x61 && k == 2 || f == 0xAC00 || prop == "C15" && n > 1100 && k != 0) { return vec![f, c]; }
        let mut v = vec![f; n];
        match k { 0 => v.push(c), 1 => v.insert(0, c), _ => { v.insert(n / 2, c); v.push(0x323); v.push(c); } }
        v
    });
    suite(r, prop, if thorough { 200 } else { 24 }, |i| { let mut g = Rng(seed ^ 0x51DE ^ (i as u64) << 18); (0..1500).map(|_| pick(&mut g)).collect() });
}

/// Histories of texts: each is derived from an earlier one (same characters in another order, one character changed, same length or same
/// hash-like features), so that an answer remembered from an earlier call shows.
fn text_history(r: &Ref, prop: &str, seed: u64, n: usize) {
    if failed() { return; }
    let pool: Vec<u32> = [0x61u32, 0x62, 0x41, 0x20, 0xE9, 0xE5, 0x212B, 0x301, 0x300, 0x323, 0x327, 0x345, 0x334, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x915, 0x93C, 0x94D, 0x937, 0x9C7, 0x9BE, 0x1F1E6, 0x1F1E7,
        0x200D, 0x1F468, 0x1F469, 0xFE0F, 0x0D, 0x0A, 0x600, 0x903, 0xFB01, 0x1D15E, 0xF900, 0x2F800, 0x3B1, 0x3099, 0x304B, 0x4E00].to_vec();
    par(n, 1, |h| {
        if failed() { return; }
        let mut g = Rng(seed ^ 0x7E47 ^ (h as u64) << 20);
        let len = [2, 3, 8, 17, 33, 49, 65, 100, 129, 257, 520][g.below(11)];
        let plain = g.below(3) == 0;
        let fresh = |g: &mut Rng| -> Vec<u32> { (0..len).map(|_| if plain || g.below(2) == 0 { 0x61 + g.below(26) as u32 } else { pool[g.below(pool.len())] }).collect() };
        let mut seen: Vec<Vec<u32>> = vec![fresh(&mut g)];
        for step in 0..24 {
            let mut t = if g.below(4) == 0 { seen[g.below(seen.len())].clone() } else { seen[seen.len() - 1].clone() };
            let l = t.len().max(1);
            if t.is_empty() { t = fresh(&mut g); }
            let l = l.min(t.len());
            match g.below(10) {
                0 => { let i = g.below(l); t.swap(i, (i + 1) % l); }
                1 => { let (i, j) = (g.below(l), g.below(l)); t.swap(i, j); }
                2 => { t[l / 2] = pool[g.below(pool.len())]; }
                3 => { let i = [0, l - 1, l / 2, g.below(l)][g.below(4)]; let old = t[i]; let same: Vec<u32> = pool.iter().cloned().chain(0x61..0x7B).filter(|&x| x != old && to_s(&[x]).len() == to_s(&[old]).len()).collect(); t[i] = same[g.below(same.len())]; }
                4 => t.rotate_left(1), 5 => t.reverse(), 6 => {}
                7 => { let i = g.below(l); t.remove(i); }
                8 => { let i = g.below(l + 1); t.insert(i, pool[g.below(pool.len())]); }
                _ => t = fresh(&mut g),
            }
            EVALS.fetch_add(1, Ordering::Relaxed);
            let _w = watch("a history of texts");
            if let Err(e) = check_string(r, prop, &t) {
                let alone = std::thread::scope(|s| s.spawn(|| check_string(r, prop, &t).is_err()).join().unwrap_or(true));
                if alone { fail(format!("string [{}]", hexs(&t)), e.0, e.1); }
                else { let prev: Vec<String> = seen.iter().rev().take(2).rev().map(|v| format!("[{}]", hexs(v))).collect(); fail(format!("string [{}] as step {} of a history, after strings {}", hexs(&t), step + 1, prev.join(", ")), e.0, e.1); }
                return;
            }
            seen.push(t);
        }
    });
}

/// Two iterators alive at once: in lockstep, one inside the other, one abandoned before the other starts.
fn interleaved(r: &Ref, prop: &str) {
    if failed() { return; }
    let texts: Vec<Vec<u32>> = ["\u{1F1E6}a", "\u{1F1E6}\u{1F1E7}\u{1F1E8}", "\u{1F1E6}\u{1F1E7}\u{1F1E8}\u{1F1E9}\u{1F1EA}\u{301}\u{1F1EB}", "\u{1F1E6}\u{301}\u{1F1E6}\u{1F1E6}", "\u{D}\u{A}\u{D}", "\u{A}\u{D}", "a\u{D}", "\u{D}",
        "\u{1F600}\u{200D}", "\u{1F600}\u{200D}\u{1F600}", "\u{1F600}\u{301}\u{200D}\u{1F600}b", "\u{200D}\u{1F600}", "\u{1F600}\u{301}", "\u{1F600}x\u{200D}\u{1F600}", "\u{915}\u{94D}", "\u{915}\u{94D}\u{915}", "\u{915}\u{93C}\u{94D}\u{200D}\u{915}x", "\u{915}\u{915}", "\u{94D}\u{915}",
        "\u{915}x\u{94D}\u{915}", "\u{1100}", "\u{1100}\u{1161}", "\u{1161}\u{11A8}", "\u{11A8}\u{11A8}", "\u{AC00}\u{11A8}\u{1100}", "\u{600}", "\u{600}a\u{600}", "a\u{903}", "\u{301}", "\u{301}\u{301}a", "a\u{301}b\u{301}c", "abc", "a", "", "\u{E9}\u{4E00}\u{1F600}\u{1F600}", "\u{1}\u{301}"].iter().map(|t| cps(t)).collect();
    let n = texts.len();
    par(n * n, 8, |i| {
        if failed() { return; }
        let (a, b) = (&texts[i / n], &texts[i % n]);
        let (sa, sb) = (to_s(a), to_s(b));
        let want = |s: &Vec<u32>| -> Vec<String> { r.graphemes(s).iter().map(|x| to_s(x)).collect() };
        let (wa, wb) = (want(a), want(b));
        for how in ["two iterators in lockstep", "the second run inside the first", "the first abandoned after one cluster"] {
            EVALS.fetch_add(1, Ordering::Relaxed);
            let what = format!("clusters of [{}] and [{}], {}", hexs(a), hexs(b), how);
            let _w = watch(&what);
            let got = quiet(|| {
                let (mut x, mut y) = (sa.as_str().break_graphemes(), vec![]);
                let mut z: Vec<String> = vec![];
                let lim = a.len() + b.len() + 2;
                match how {
                    "two iterators in lockstep" => { let mut o = sb.as_str().break_graphemes(); let (mut d, mut e) = (false, false); for _ in 0..lim { if !d { match x.next() { Some(p) => y.push(p.to_string()), None => d = true } } if !e { match o.next() { Some(p) => z.push(p.to_string()), None => e = true } } } }
                    "the second run inside the first" => { if let Some(p) = x.next() { y.push(p.to_string()); } z = sb.as_str().break_graphemes().take(lim).map(|p| p.to_string()).collect(); for p in x.take(lim) { y.push(p.to_string()); } }
                    _ => { let _ = x.next(); drop(x); y = wa.clone(); z = sb.as_str().break_graphemes().take(lim).map(|p| p.to_string()).collect(); }
                }
                (y, z)
            });
            let show = |v: &Vec<String>| v.iter().map(|x| format!("[{}]", hexs(&cps(x)))).collect::<String>();
            match got {
                Err(_) => fail(what, "returns".into(), "panic".into()),
                Ok((y, z)) => {
                    let ok = match prop { "C19" => true, "C16" => (how.starts_with("the first ab") || y.concat() == sa && y.iter().all(|p| !p.is_empty())) && z.concat() == sb && z.iter().all(|p| !p.is_empty()), _ => y == wa && z == wb };
                    if !ok { fail(what, format!("{} and {}", show(&wa), show(&wb)), format!("{} and {}", show(&y), show(&z))); }
                }
            }
        }
    });
}

/// Texts far longer than the samples, on a small stack: what recursion per character, a 16-bit counter or a quadratic buffer would break.
fn long_texts(r: &Ref, prop: &str) {
    if STOP.load(Ordering::Relaxed) { return; }
    let seg = matches!(prop, "C16" | "C17" | "C19");
    let norm = matches!(prop, "C12" | "C13" | "C14" | "C15" | "C19");
    let check = |what: String, want: &str, f: &dyn Fn() -> String| {
        let _g = watch(&what);
        EVALS.fetch_add(1, Ordering::Relaxed);
        match quiet(|| f()) {
            Ok(g) if g == want => {}
            Ok(g) => { let k = g.chars().zip(want.chars()).take_while(|(a, b)| a == b).count(); fail(what, format!("{} characters, the published result", want.chars().count()), format!("{} characters, first difference at character {}", g.chars().count(), k)); }
            Err(_) => fail(what, "returns".into(), "panic".into()),
        }
    };
    {
        let mut jobs: Vec<Box<dyn Fn() + Send + '_>> = vec![];
        let ck = &check;
        if norm {
            let n = 12_000usize;
            for (src, d, c) in [("a", "a", "a"), ("\u{E5}", "a\u{30A}", "\u{E5}"), ("\u{301}", "\u{301}", "\u{301}"), ("\u{AC01}", "\u{1100}\u{1161}\u{11A8}", "\u{AC01}"), ("\u{4E00}\u{200D}", "\u{4E00}\u{200D}", "\u{4E00}\u{200D}")] {
                for form in 0..4 {
                    jobs.push(Box::new(move || {
                        let n = if src == "\u{AC01}" { n / 2 } else { n };
                        let (s, want) = (src.repeat(n), if form < 2 { d } else { c }.repeat(n));
                        ck(format!("{} of {} times [{}]", ["NFD", "NFKD", "NFC", "NFKC"][form], n, hexs(&cps(src))), &want,
                            &|| match form { 0 => s.to_nfd(), 1 => s.to_nfkd(), 2 => s.to_nfc(), _ => s.to_nfkc() });
                    }));
                }
            }
        }
        if seg {
            let n = 200_000usize;
            // (repeated text, the lengths of its clusters; 0: one cluster in all)
            for (src, size) in [("a", 1usize), ("\u{301}", 0), ("\u{1F1E6}", 2), ("\u{D}\u{A}", 2), ("\u{1F600}\u{200D}", 0), ("\u{1100}", 0), ("\u{915}\u{94D}", 0), ("\u{600}", 0), ("\u{AC00}", 1), ("a\u{301}", 2)] {
                jobs.push(Box::new(move || {
                    let s = src.repeat(n);
                    let total = s.chars().count();
                    let want = if size == 0 { format!("{}", total) } else { vec![size.to_string(); total / size].join(" ") };
                    ck(format!("clusters of {} times [{}]", n, hexs(&cps(src))), &want,
                        &|| { let mut it = s.break_graphemes(); let mut v: Vec<String> = vec![]; while let Some(p) = it.next() { v.push(p.chars().count().to_string()); if v.len() > total { break; } } v.join(" ") });
                }));
            }
        }
        if seg {
            for (m, tail) in [("\u{301}", "b"), ("\u{200D}", "\u{1F1E6}"), ("\u{E0100}", "\u{AC01}"), ("\u{93C}", "\u{D}")] {
                for n in [85usize, 128, 170, 256, 16_400, 21_850, 32_768, 33_000, 66_000, 140_000] {
                    jobs.push(Box::new(move || {
                        let s = format!("a{}{}", m.repeat(n), tail).repeat(2);
                        let want = format!("{} 1 {} 1", n + 1, n + 1);
                        ck(format!("clusters of 2 times [0061, {} times {}, {}]", n, hexs(&cps(m)), hexs(&cps(tail))), &want,
                            &|| { let mut it = s.break_graphemes(); let mut v: Vec<String> = vec![]; while let Some(p) = it.next() { v.push(p.chars().count().to_string()); if v.len() > 9 { break; } } v.join(" ") });
                    }));
                }
            }
        }
        // seams: a unit that must not be cut (or must be cut in the right places), repeated, at every offset - whatever piece size an
        // implementation works in, one of the offsets puts the end of a piece inside the unit
        if norm {
            for unit in ["x\u{F72}\u{F73}", "x\u{301}\u{F75}", "q\u{345}\u{F81}\u{327}", "\u{E5}\u{323}", "x\u{301}\u{344}\u{323}", "\u{1100}\u{1161}\u{11A8}", "\u{1100}\u{AC00}\u{11A8}", "\u{9C7}\u{9BE}", "\u{9C7}\u{334}\u{9BE}",
                "a\u{302}\u{323}", "a\u{334}\u{301}\u{300}", "\u{FF76}\u{FF9E}", "\u{FB01}\u{323}\u{301}", "\u{115B9}\u{115AF}", "\u{3D2}\u{301}", "\u{1D15E}\u{1D16D}"] {
                let u = cps(unit);
                for form in 0..4usize {
                    let f = |v: &[u32]| match form { 0 => r.nfd(v), 1 => r.nfkd(v), 2 => r.nfc(v), _ => r.nfkc(v) };
                    let w = f(&u);
                    assert_eq!(f(&[u.clone(), u.clone()].concat()), [w.clone(), w.clone()].concat());
                    for k in 0..u.len() {
                        let (w, len) = (to_s(&w), u.len());
                        jobs.push(Box::new(move || {
                            let n = if matches!(unit, "x\u{F72}\u{F73}" | "\u{1100}\u{1161}\u{11A8}") { 17_000 } else { 9_000 } / len;
                            let (s, want) = ("x".repeat(k) + &unit.repeat(n), "x".repeat(k) + &w.repeat(n));
                            ck(format!("{} of [0078] {} times, then {} times [{}]", ["NFD", "NFKD", "NFC", "NFKC"][form], k, n, hexs(&cps(unit))), &want,
                                &|| match form { 0 => s.to_nfd(), 1 => s.to_nfkd(), 2 => s.to_nfc(), _ => s.to_nfkc() });
                        }));
                    }
                }
            }
        }
        if seg {
            for unit in ["\u{D}\u{A}", "\u{1F1E6}\u{1F1E7}", "\u{1F600}\u{200D}\u{1F600}z", "\u{1F600}\u{301}\u{200D}\u{1F600}z", "\u{600}a", "a\u{903}\u{301}", "\u{1100}\u{1161}\u{11A8}", "\u{AC00}\u{11A8}z", "\u{915}\u{94D}\u{915}z", "\u{915}\u{94D}\u{93C}\u{915}z"] {
                let u = cps(unit);
                let sizes: Vec<String> = r.graphemes(&u).iter().map(|c| c.len().to_string()).collect();
                for k in 0..unit.len() {
                    let sizes = sizes.join(" ");
                    jobs.push(Box::new(move || {
                        let n = 140_000 / unit.len();
                        let s = "x".repeat(k) + &unit.repeat(n);
                        let want = [vec!["1".to_string(); k], vec![sizes.clone(); n]].concat().join(" ");
                        ck(format!("clusters of [0078] {} times, then {} times [{}]", k, n, hexs(&cps(unit))), &want,
                            &|| { let mut it = s.break_graphemes(); let mut v: Vec<String> = vec![]; while let Some(p) = it.next() { v.push(p.chars().count().to_string()); if v.len() > 200_000 { break; } } v.join(" ") });
                    }));
                }
            }
        }
        let queue = std::sync::Mutex::new(jobs);
        let jobs = &queue;
        std::thread::scope(|sc| for _ in 0..8 {
            std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(sc, move || loop { let j = jobs.lock().unwrap().pop(); match j { Some(f) => f(), None => break } }).unwrap();
        });
    }
}

/// The assumed specifications of std (proofs/shims_*.vrs, fmt.vrs, modules.py) against std itself: exhaustive where the domain is small, sampled otherwise.
fn shims(seed: u64) -> u64 {
    let mut n = 0u64;
    let mut ok = |b: bool, what: &str| { n += 1; if !b { println!("SHIM\t{}", what); std::process::exit(3); } };
    // char::from_u32
    for cp in (0..0x120000u32).chain([u32::MAX, 1 << 31, 0x7FFFFFFF]) {
        let want = cp <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&cp);
        let r = char::from_u32(cp);
        ok(r.is_some() == want && r.map_or(true, |c| c as u32 == cp), "char::from_u32");
        if cp < 0x110000 { let s = format!("U+{:04X}", cp);
            let mut d = vec![]; let mut v = cp; while v > 0 || d.len() < 4 { d.push(b"0123456789ABCDEF"[(v & 15) as usize] as char); v >>= 4; }
            ok(s == format!("U+{}", d.iter().rev().collect::<String>()), "{:04X}"); }
    }
    let mut g = Rng(seed);
    let alpha: Vec<char> = [0u32, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xAC00, 0x301].iter().map(|c| char::from_u32(*c).unwrap()).collect();
    let mut prev: Vec<char> = vec![];
    for _ in 0..200000 {
        let v: Vec<char> = (0..g.below(7)).map(|_| alpha[g.below(alpha.len())]).collect();
        let s: String = v.iter().collect();
        ok(s.chars().collect::<Vec<char>>() == v && v.iter().collect::<String>() == s && s.chars().count() == v.len(), "collect");
        ok(String::from(s.as_str()) == s && s.is_empty() == v.is_empty() && (s == "") == v.is_empty(), "String::from, is_empty");
        let off: Vec<usize> = (0..=v.len()).map(|k| v[..k].iter().map(|c| c.len_utf8()).sum()).collect();
        let mut it = s.char_indices();
        for k in 0..v.len() { ok(it.next() == Some((off[k], v[k])), "char_indices"); }
        ok(it.next().is_none() && it.next().is_none(), "char_indices at the end");
        for k in 0..=v.len() { ok(s[..off[k]].chars().eq(v[..k].iter().cloned()) && s[off[k]..].chars().eq(v[k..].iter().cloned()), "str indexing"); }
        // the order of str is the order of the code points
        let p: String = prev.iter().collect();
        ok(p.cmp(&s) == prev.cmp(&v), "order of str");
        let x = alpha[g.below(alpha.len())];
        ok(v.contains(&x) == (0..v.len()).any(|i| v[i] == x), "contains");
        if v.len() > 1 {
            let (i, j) = (g.below(v.len()), g.below(v.len()));
            let mut w = v.clone(); w.swap(i, j);
            ok((0..v.len()).all(|k| w[k] == v[if k == i { j } else if k == j { i } else { k }]), "swap");
        }
        let mut t: Vec<(char, u8)> = v.iter().map(|c| (*c, 0)).collect(); t.sort(); t.dedup();
        match t.binary_search_by_key(&x, |&(k, _)| k) { Ok(i) => ok(t[i].0 == x, "binary_search"), Err(_) => ok(t.iter().all(|r| r.0 != x), "binary_search") };
        prev = v;
    }
    // decimal and hexadecimal of numbers, `to_string`, conversions
    for k in 0..300000u64 {
        let x = if k < 100000 { k as u32 } else { (g.next() >> (k % 33)) as u32 };
        let (mut d, mut v) = (vec![], x);
        loop { d.push(b"0123456789"[(v % 10) as usize] as char); v /= 10; if v == 0 { break } }
        let dec: String = d.iter().rev().collect();
        let (mut d, mut v) = (vec![], x);
        loop { d.push(b"0123456789ABCDEF"[(v % 16) as usize] as char); v /= 16; if v == 0 { break } }
        let hex: String = d.iter().rev().collect();
        ok(x.to_string() == dec && format!("{}", x) == dec && format!("{}", &x) == dec && format!("{:X}", x) == hex && format!("a{}b{:X}{}", x, x, 'c') == format!("a{dec}b{hex}c"), "{} {:X} to_string of u32");
        if let Some(c) = char::from_u32(x) { ok(u32::from(c) == c as u32 && c.to_string().chars().eq([c]) && u32::from(x as u8) == x as u8 as u32 && usize::from(x as u16) == x as u16 as usize, "from, to_string of char"); }
    }
    for _ in 0..20000 {
        let v: Vec<char> = (0..g.below(7)).map(|_| alpha[g.below(alpha.len())]).collect();
        let w: Vec<char> = (0..g.below(7)).map(|_| alpha[g.below(alpha.len())]).collect();
        let s: String = v.iter().collect();
        let mut a = w.clone(); a.extend(s.chars());
        let mut b: String = w.iter().collect(); b.extend(v.iter());
        let mut c = String::with_capacity(g.below(9)); let fresh = c.is_empty(); for x in a.iter() { c.push(*x); }
        ok(a == [w, v].concat() && b.chars().eq(a.iter().cloned()) && fresh && c == b, "extend, with_capacity, push");
    }
    // the primitive cast of num
    for k in 0..70 { let x = g.next() >> (k % 64); use ::num::cast::AsPrimitive;
        ok(AsPrimitive::<usize>::as_(x as u8) == (x as u8) as usize && AsPrimitive::<usize>::as_(x as u16) == (x as u16) as usize && AsPrimitive::<usize>::as_(x as u32) == (x as u32) as usize && AsPrimitive::<usize>::as_(x) == x as usize, "as_"); }
    n
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("shims") { println!("DONE\tshims\t{}", shims(1)); return; }
    let a: Vec<String> = std::env::args().collect();
    let (data, prop, tier, seed) = (&a[1], a[2].as_str(), a[3].as_str(), a[4].parse::<u64>().unwrap_or(1));
    let thorough = tier == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let r = Ref::load(data);
    if tier == "replay" {
        // search <data> <prop> replay 0 <hex code points...>
        let s: Vec<u32> = a[5..].iter().map(|x| u32::from_str_radix(x, 16).unwrap()).collect();
        match check_string(&r, prop, &s) {
            Ok(()) => { println!("holds on [{}]", hexs(&s)); }
            Err((e, g)) => { println!("VIOLATED on [{}]\n expected: {}\n actual:   {}", hexs(&s), e, g); std::process::exit(1); }
        }
        return;
    }
    let (p2, t0) = (prop.to_string(), Instant::now());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let v = SLOTS.lock().unwrap();
        if let Some(x) = v.iter().find(|x| x.2.elapsed() > Duration::from_secs(45)) {
            println!("FAIL\t{}\tthe call returns\tstill running after 45 s", x.1);
            println!("DONE\t{}\t{}\t1", p2, EVALS.load(Ordering::Relaxed));
            std::process::exit(1);
        }
    });
    match prop {
        "C01" => check_enums(&r),
        "C02" | "C03" | "C04" => check_bools(&r, prop),
        "C05" => { check_bools(&r, "C05"); suite(&r, "C05", N, |i| vec![i as u32]); }
        "C06" => check_bools(&r, "C06"),
        "C07" => check_receivers(true),
        "C08" => check_na(&r),
        "C09" => check_dm(&r),
        "C10" => check_value_names(),
        "C11" => {
            per_cp(|cp| if (0xAC00..0xD7B0).contains(&cp) { expect_cp(cp, "dm", &dm_want(&r, cp), quiet(|| CodePoint::new(cp).unwrap().dm())) });
            let jam: Vec<u32> = (0x10F0..0x1210).chain(0xA95F..0xA980).chain(0xD7A4..0xD800).collect();
            let j = jam.len();
            suite(&r, prop, 11172, |i| vec![0xAC00 + i as u32]);
            suite(&r, prop, j * j, |i| vec![jam[i % j], jam[i / j]]);
            suite(&r, prop, 11172 * 0x120, |i| vec![0xAC00 + (i / 0x120) as u32, 0x10F0 + (i % 0x120) as u32]);
            suite(&r, prop, 22 * 26 * 40, |i| vec![0x10FF + (i / 1040) as u32, 0x115F + (i / 40 % 26) as u32, 0x119F + (i % 40) as u32]);
            suite(&r, prop, 11172 * 8, |i| { let c = 0xAC00 + (i / 8) as u32; match i % 8 { 0 => vec![0x1100, c], 1 => vec![c, 0x1161], 2 => vec![c, 0x301, 0x11A8], 3 => vec![c, 0x11A8, 0x11A8], 4 => vec![c, c], 5 => vec![0x61, c, 0x323], 6 => vec![c, 0x11A7], _ => vec![c, 0x11C3] } });
            suite(&r, prop, 19 * 21 * 28 * 2, |i| { let k = i / 2; let mut v = vec![0x1100 + (k / 588) as u32, 0x1161 + (k % 588 / 28) as u32]; if i % 2 == 0 { v.push(0x323); } if k % 28 > 0 { v.push(0x11A7 + (k % 28) as u32); } v });
        }
        "C12" | "C13" | "C14" | "C15" => { search_norm(&r, prop, seed, thorough); long_texts(&r, prop) }
        "C16" | "C17" => { search_graphemes(&r, prop, seed, thorough); interleaved(&r, prop); long_texts(&r, prop) }
        "C18" => check_tables(seed, if thorough { 2_000_000 } else { 200_000 }),
        "C20" => check_version(seed, if thorough { 20_000_000 } else { 1_000_000 }),
        "C19" => { check_no_panic(); search_graphemes(&r, prop, seed, false); interleaved(&r, prop); search_norm(&r, prop, seed, thorough); long_texts(&r, prop); }
        _ => panic!("unknown property"),
    }
    if matches!(prop, "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C19") { text_history(&r, prop, seed, if thorough { 100_000 } else if prop == "C15" { 2_500 } else { 6_000 }); }
    history(&r, prop, seed, if thorough { 20_000_000 } else { 1_500_000 });
    let _ = (failed(), t0);
    let f = FAILS.lock().unwrap();
    for x in f.iter() { println!("FAIL\t{}\t{}\t{}", x.0, x.1.replace('\t', " "), x.2.replace('\t', " ")); }
    println!("DONE\t{}\t{}\t{}", prop, EVALS.load(Ordering::Relaxed), f.len());
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
