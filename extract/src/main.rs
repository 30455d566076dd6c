//! Mechanical extraction of functions from /repo/src for the Verus proofs.
//!
//! usage: extract SRC_DIR CONTRACTED_LIST > out.json
//!
//! Every function of the crate is parsed.  For each function named in CONTRACTED_LIST (one
//! `mod::name` or `Type::name` per line) the signature and the body are printed after the
//! rewriting rules listed in DESIGN.md (section "What the extraction does").  Nothing else is
//! changed: in particular no statement is dropped, reordered or abstracted.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ printing
fn print_ts(ts: TokenStream, out: &mut String, ind: usize) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let n = toks.len();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                out.push_str(a);
                if g.delimiter() == Delimiter::Brace {
                    let mut s = String::new();
                    print_ts(g.stream(), &mut s, ind + 1);
                    out.push('\n');
                    out.push_str(&"    ".repeat(ind + 1));
                    out.push_str(s.trim());
                    out.push('\n');
                    out.push_str(&"    ".repeat(ind));
                    out.push_str(b);
                    let next_is_tail = matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if ".,;)?".contains(p.as_char()) ) || matches!(toks.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                    if !next_is_tail && i + 1 < n { out.push('\n'); out.push_str(&"    ".repeat(ind)); } else if i + 1 < n { out.push(' '); }
                } else {
                    print_ts(g.stream(), out, ind);
                    out.push_str(b);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '.' || p.as_char() == '?' || p.as_char() == ';' || p.as_char() == ',' { while out.ends_with(' ') { out.pop(); } }
                out.push(p.as_char());
                if p.as_char() == ';' { out.push('\n'); out.push_str(&"    ".repeat(ind)); }
                else if p.spacing() == Spacing::Alone && p.as_char() != '.' && p.as_char() != '&' && p.as_char() != '!' && p.as_char() != '*' && p.as_char() != '\'' { out.push(' '); }
            }
            TokenTree::Ident(x) => { out.push_str(&x.to_string()); out.push(' '); }
            TokenTree::Literal(x) => { out.push_str(&x.to_string()); out.push(' '); }
        }
    }
}
fn show<T: ToTokens>(t: &T) -> String { let mut s = String::new(); print_ts(t.to_token_stream(), &mut s, 0); s.trim().to_string() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 || c as u32 == 0x7f || (c as u32) > 0xFFFF => { if (c as u32) > 0xFFFF { o.push(c) } else { o.push_str(&format!("\\u{:04x}", c as u32)) } } c => o.push(c) } }
    o.push('"'); o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")) }

// ------------------------------------------------------------------ the crate
#[derive(Clone)]
struct Func { module: Vec<String>, owner: Option<String>, trait_: Option<String>, name: String, sig: Signature, block: Block, file: String, hdr: String }
impl Func {
    fn key(&self) -> String { match &self.owner { Some(o) => format!("{}::{}", o, self.name), None => format!("{}::{}", self.module.last().cloned().unwrap_or("crate".into()), self.name) } }
}
struct Const { module: Vec<String>, name: String, ty: Type, expr: Expr, file: String }
#[derive(Default)]
struct Krate { funcs: Vec<Func>, consts: Vec<Const>, enums: Vec<(String, ItemEnum)>, structs: Vec<(String, ItemStruct)>, modules: HashSet<String>, uses: HashMap<String, HashMap<String, Vec<String>>>, state: Vec<String> }

fn cfg_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }
fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("test")) }

fn ty_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => ty_name(&r.elem), _ => show(t) } }

fn use_tree(t: &UseTree, pre: &mut Vec<String>, out: &mut HashMap<String, Vec<String>>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); use_tree(&p.tree, pre, out); pre.pop(); }
        UseTree::Name(n) => { let mut v = pre.clone(); v.push(n.ident.to_string()); out.insert(n.ident.to_string(), v); }
        UseTree::Rename(r) => { let mut v = pre.clone(); v.push(r.ident.to_string()); out.insert(r.rename.to_string(), v); }
        UseTree::Group(g) => for x in &g.items { use_tree(x, pre, out); },
        UseTree::Glob(_) => {}
    }
}
/// Anything through which a call could depend on earlier calls or on the environment: contracts speak of functions of the arguments.
struct State<'a> { out: &'a mut Vec<String>, file: String }
impl<'a> State<'a> {
    fn ident(&mut self, i: &str) {
        const BAD: [&str; 22] = ["Cell", "RefCell", "UnsafeCell", "OnceCell", "LazyCell", "SyncUnsafeCell", "OnceLock", "LazyLock", "Once", "Mutex", "RwLock", "thread_local", "lazy_static", "Instant", "SystemTime", "RandomState", "extern",
            "transmute", "addr_of", "addr_of_mut", "as_ptr", "option_env"];
        if BAD.contains(&i) || i.starts_with("Atomic") { let x = format!("{} in {}", i, self.file); if !self.out.contains(&x) { self.out.push(x); } }
    }
    fn tokens(&mut self, t: TokenStream) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => self.ident(&i.to_string()), proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()), _ => {} } } }
}
impl<'a, 'ast> syn::visit::Visit<'ast> for State<'a> {
    fn visit_ident(&mut self, i: &'ast Ident) { self.ident(&i.to_string()); }
    fn visit_macro(&mut self, m: &'ast Macro) { if let Some(l) = m.path.segments.last() { self.ident(&l.ident.to_string()); } self.tokens(m.tokens.clone()); }
    fn visit_expr_unsafe(&mut self, e: &'ast ExprUnsafe) { let x = format!("unsafe in {}", self.file); if !self.out.contains(&x) { self.out.push(x); } syn::visit::visit_expr_unsafe(self, e); }
    fn visit_item_static(&mut self, s: &'ast ItemStatic) { if matches!(s.mutability, StaticMutability::Mut(_)) { let x = format!("static mut in {}", self.file); self.out.push(x); } syn::visit::visit_item_static(self, s); }
    fn visit_item_mod(&mut self, m: &'ast ItemMod) { if !cfg_test(&m.attrs) && m.ident != "tests" { syn::visit::visit_item_mod(self, m); } }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) { if !cfg_test(&f.attrs) && !is_test(&f.attrs) { syn::visit::visit_item_fn(self, f); } }
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
}
/// Traits whose implementations operators and conversions call without naming them.
const OPERATORS: &[&str] = &["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Drop", "Deref", "DerefMut", "Borrow", "BorrowMut", "AsRef", "AsMut", "Index", "IndexMut", "Add", "AddAssign", "Sub", "SubAssign", "Mul", "Div", "Rem", "Not", "Neg", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "IntoIterator", "Extend", "FromIterator"];
fn load(k: &mut Krate, items: Vec<Item>, module: Vec<String>, dir: PathBuf, file: &Path) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if cfg_test(&m.attrs) { continue; }
                let name = m.ident.to_string();
                if name == "tests" { continue; }
                let mut mm = module.clone(); mm.push(name.clone());
                k.modules.insert(name.clone());
                if let Some((_, items)) = m.content { load(k, items, mm, dir.join(&name), file); }
                else {
                    let mut p = dir.join(format!("{}.rs", name));
                    if !p.exists() { p = dir.join(&name).join("mod.rs"); }
                    load_file(k, &p, mm, dir.join(&name));
                }
            }
            Item::Use(u) => { let mut m = HashMap::new(); use_tree(&u.tree, &mut vec![], &mut m); k.uses.entry(module.join("::")).or_default().extend(m); }
            Item::Fn(f) => if !cfg_test(&f.attrs) && !is_test(&f.attrs) { k.funcs.push(Func { module: module.clone(), owner: None, trait_: None, name: f.sig.ident.to_string(), sig: f.sig, block: *f.block, file: file.display().to_string(), hdr: String::new() }); },
            Item::Impl(i) => {
                if cfg_test(&i.attrs) { continue; }
                let owner = ty_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                // hand-written operators and iterator methods that no contract describes: the modules then do not count as proved
                if let Some(t) = &tr {
                    if OPERATORS.contains(&t.as_str()) && owner != "UnicodeVersion" { k.state.push(format!("hand-written {} for {}", t, owner)); }
                    if t == "Iterator" || t == "DoubleEndedIterator" || t == "ExactSizeIterator" {
                        for x in i.items.iter() { if let ImplItem::Fn(f) = x { if f.sig.ident != "next" { k.state.push(format!("hand-written {}::{} for {}", t, f.sig.ident, owner)); } } }
                    }
                }
                let hdr = { let (g, t) = (&i.generics, &i.self_ty); let w = &i.generics.where_clause; let mut g2 = g.clone(); g2.where_clause = None; show(&quote!(impl #g2 #t #w)) };
                for x in i.items { if let ImplItem::Fn(f) = x { k.funcs.push(Func { module: module.clone(), owner: Some(owner.clone()), trait_: tr.clone(), name: f.sig.ident.to_string(), sig: f.sig, block: f.block, file: file.display().to_string(), hdr: hdr.clone() }); } }
            }
            Item::Const(c) => k.consts.push(Const { module: module.clone(), name: c.ident.to_string(), ty: *c.ty, expr: *c.expr, file: file.display().to_string() }),
            Item::Static(c) => k.consts.push(Const { module: module.clone(), name: c.ident.to_string(), ty: *c.ty, expr: *c.expr, file: file.display().to_string() }),
            Item::Enum(e) => k.enums.push((module.join("::"), e)),
            Item::Struct(e) => k.structs.push((module.join("::"), e)),
            _ => {}
        }
    }
}
fn load_file(k: &mut Krate, p: &Path, module: Vec<String>, dir: PathBuf) {
    let src = match std::fs::read_to_string(p) { Ok(s) => s, Err(e) => { eprintln!("cannot read {}: {}", p.display(), e); std::process::exit(3); } };
    let heavy = src.len() > 100_000 && src.contains("const STAGE_2");
    let src = if heavy { strip_tables(&src) } else { src };
    match parse_file(&src) {
        Ok(f) => { syn::visit::Visit::visit_file(&mut State { out: &mut k.state, file: p.file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default() }, &f); load(k, f.items, module, dir, p) }
        Err(e) => { eprintln!("cannot parse {}: {}", p.display(), e); std::process::exit(3); }
    }
}
/// The two-stage table literals (decided by the Kani harnesses on the compiled crate) are skipped for speed.
fn strip_tables(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("const STAGE_") {
        let (a, b) = rest.split_at(i);
        out.push_str(a);
        let eq = b.find('=').unwrap_or(0);
        let end = b.find("];").map(|x| x + 2).unwrap_or(b.len());
        out.push_str(&b[..eq]);
        out.push_str("= &[];");
        rest = &b[end..];
    }
    out.push_str(rest);
    out
}

// ------------------------------------------------------------------ resolution and flattening
impl Krate {
    fn find_fn(&self, segs: &[String], module: &[String]) -> Option<&Func> {
        let mut segs: Vec<String> = segs.to_vec();
        if let Some(full) = self.uses.get(&module.join("::")).and_then(|m| m.get(&segs[0])) { let mut v = full.clone(); v.extend(segs[1..].iter().cloned()); segs = v; }
        let rel = segs[0] == "self" || segs[0] == "super";
        let abs = segs[0] == "crate";
        let mut base: Vec<String> = if abs { vec![] } else { module.to_vec() };
        let mut rest = &segs[..];
        while !rest.is_empty() && (rest[0] == "self" || rest[0] == "super" || rest[0] == "crate") { if rest[0] == "super" { base.pop(); } rest = &rest[1..]; }
        if rest.is_empty() { return None; }
        let mut full = base.clone(); full.extend(rest[..rest.len() - 1].iter().cloned());
        let name = rest.last().unwrap();
        if let Some(f) = self.funcs.iter().find(|f| f.owner.is_none() && f.name == *name && f.module == full) { return Some(f); }
        if rest.len() >= 2 {
            // inherent associated function or a module reached through a glob import
            let q = &rest[rest.len() - 2];
            if let Some(f) = self.funcs.iter().find(|f| f.owner.as_deref() == Some(q) && f.name == *name) { return Some(f); }
            if !abs && !rel { return self.funcs.iter().find(|f| f.owner.is_none() && f.name == *name && f.module.last() == Some(q)); }
        } else if !abs && !rel {
            let c: Vec<&Func> = self.funcs.iter().filter(|f| f.owner.is_none() && f.name == *name).collect();
            if c.len() == 1 && segs.len() == 1 { return Some(c[0]); }
        }
        None
    }
    fn find_const(&self, segs: &[String], module: &[String]) -> Option<&Const> {
        let name = segs.last().unwrap();
        if name.chars().any(|c| c.is_lowercase()) { return None; }
        let c: Vec<&Const> = self.consts.iter().filter(|c| c.name == *name).collect();
        if segs.len() >= 2 {
            let q = &segs[segs.len() - 2];
            if q == "self" || q == "super" || q == "crate" { let mut b = module.to_vec(); if q == "super" { b.pop(); } if q == "crate" { b.clear(); } return c.into_iter().find(|c| c.module == b); }
            return c.into_iter().find(|c| c.module.last() == Some(q));
        }
        if let Some(x) = c.iter().find(|c| c.module == module) { return Some(x); }
        if let Some(full) = self.uses.get(&module.join("::")).and_then(|m| m.get(name)) { if full.len() >= 2 { let q = &full[full.len() - 2]; return c.into_iter().find(|c| c.module.last() == Some(q)); } }
        if c.len() == 1 { Some(c[0]) } else { None }
    }
}
fn flat(key: &str) -> String { key.replace("::", "__") }
fn segs_of(p: &syn::Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }

struct Rw<'a> {
    k: &'a Krate,
    contracted: &'a HashSet<String>,
    module: Vec<String>,
    self_ty: Option<String>,
    depth: usize,
    inl: usize,
    notes: Vec<String>,
    calls: Vec<String>,
    consts: Vec<String>,
    shims: Vec<String>,
}
fn call_expr(name: &str, args: Vec<Expr>) -> Expr { let id = Ident::new(name, proc_macro2::Span::call_site()); parse_quote!(#id(#(#args),*)) }
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e } }
fn needs_paren(e: &Expr) -> bool { !matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Paren(_) | Expr::Index(_)) }
fn par(e: &Expr) -> Expr { if needs_paren(e) { parse_quote!((#e)) } else { e.clone() } }

impl<'a> Rw<'a> {
    fn fix_path(&mut self, p: &mut syn::Path, is_call: bool) {
        let segs = segs_of(p);
        if segs.is_empty() { return; }
        if segs[0] == "std" || segs[0] == "core" || segs[0] == "alloc" { return; }
        if segs[0] == "Self" && segs.len() == 1 { return; }
        if is_call {
            let mut s2 = segs.clone();
            if s2[0] == "Self" { if let Some(t) = &self.self_ty { s2[0] = t.clone(); } }
            if let Some(f) = self.k.find_fn(&s2, &self.module) {
                let key = f.key();
                if f.owner.is_none() {
                    self.calls.push(key.clone());
                    let id = Ident::new(&flat(&key), proc_macro2::Span::call_site());
                    *p = parse_quote!(#id);
                    return;
                }
            }
        }
        if let Some(c) = self.k.find_const(&segs, &self.module) {
            let key = format!("{}::{}", c.module.last().cloned().unwrap_or("crate".into()), c.name);
            self.consts.push(key.clone());
            let id = Ident::new(&flat(&key), proc_macro2::Span::call_site());
            *p = parse_quote!(#id);
            return;
        }
        // types and enum variants: drop the leading module segments
        let mut start = 0;
        while start + 1 < segs.len() && (segs[start] == "crate" || segs[start] == "self" || segs[start] == "super" || self.k.modules.contains(&segs[start])) { start += 1; }
        if start > 0 {
            let keep: Vec<PathSegment> = p.segments.iter().skip(start).cloned().collect();
            p.leading_colon = None;
            p.segments = keep.into_iter().collect();
        }
    }
    /// Inlining of a crate-local function that carries no contract.
    fn try_inline(&mut self, f: Func, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 { self.notes.push(format!("inline depth exceeded at {}", f.key())); return None; }
        let mut body = f.block.clone();
        if !tailify(&mut body) { self.notes.push(format!("cannot inline {} (early return)", f.key())); return None; }
        self.inl += 1;
        let suffix = format!("__i{}", self.inl);
        // rename the locals of the callee
        let mut names = HashSet::new();
        collect_bindings_block(&body, &mut names);
        let mut lets: Vec<Stmt> = vec![];
        let mut subst: HashMap<String, Expr> = HashMap::new();
        for (inp, arg) in f.sig.inputs.iter().zip(args.into_iter()) {
            match inp {
                FnArg::Receiver(r) => {
                    if place(&arg) || r.mutability.is_some() { subst.insert("self".into(), arg); }
                    else {
                        let id = Ident::new(&format!("self{}", suffix), proc_macro2::Span::call_site());
                        lets.push(parse_quote!(let #id = #arg;));
                        subst.insert("self".into(), parse_quote!(#id));
                    }
                }
                FnArg::Typed(pt) => {
                    if let Pat::Ident(pi) = &*pt.pat {
                        let nm = pi.ident.to_string();
                        let is_ref = matches!(&*pt.ty, Type::Reference(_));
                        if is_ref && pi.mutability.is_none() && place(&arg) { subst.insert(nm, arg); }
                        else {
                            let id = Ident::new(&format!("{}{}", nm, suffix), proc_macro2::Span::call_site());
                            let ty = &pt.ty;
                            let m = pi.mutability;
                            lets.push(parse_quote!(let #m #id: #ty = #arg;));
                            names.insert(nm);
                        }
                    } else { self.notes.push(format!("cannot inline {} (pattern parameter)", f.key())); return None; }
                }
            }
        }
        for k in subst.keys() { names.remove(k); }
        RenameLocals { names: &names, suffix: &suffix }.visit_block_mut(&mut body);
        // rewrite the callee in its own module first, then substitute the arguments
        let (m0, s0) = (std::mem::replace(&mut self.module, f.module.clone()), std::mem::replace(&mut self.self_ty, f.owner.clone()));
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        self.module = m0; self.self_ty = s0;
        Subst { m: &subst }.visit_block_mut(&mut body);
        self.notes.push(format!("inlined {}", f.key()));
        let stmts = body.stmts;
        if lets.is_empty() && stmts.len() == 1 { if let Stmt::Expr(e, None) = &stmts[0] { return Some(parse_quote!((#e))); } }
        Some(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
    fn range_contains(&self, r: &ExprRange, x: &Expr) -> Option<Expr> {
        let x = match strip_paren(x) { Expr::Reference(r) => (*r.expr).clone(), _ => return None };
        let (lo, hi) = (r.start.as_ref()?, r.end.as_ref()?);
        // the element is evaluated once in the source: only rewrite when repeating it is harmless
        if !pure(&x) { return None; }
        let (lo, hi, x) = (par(lo), par(hi), par(&x));
        Some(match r.limits { RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)), RangeLimits::Closed(_) => parse_quote!((#lo <= #x && #x <= #hi)) })
    }
}
/// a place or a constant: repeating it instead of evaluating it once changes nothing
fn place(e: &Expr) -> bool {
    match strip_paren(e) { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => place(&f.base), Expr::Index(i) => place(&i.expr) && (place(&i.index) || matches!(strip_paren(&i.index), Expr::Range(r) if r.start.iter().chain(r.end.iter()).all(|x| pure(x)))),
        Expr::Unary(u) => place(&u.expr), Expr::Cast(c) => place(&c.expr), Expr::Reference(r) => place(&r.expr), Expr::Binary(b) => pure(&b.left) && pure(&b.right), _ => false }
}
fn pure(e: &Expr) -> bool {
    match strip_paren(e) { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => pure(&f.base), Expr::Index(i) => pure(&i.expr) && pure(&i.index), Expr::Unary(u) => pure(&u.expr), Expr::Cast(c) => pure(&c.expr), Expr::Reference(r) => pure(&r.expr),
        Expr::MethodCall(m) => m.args.is_empty() && (m.method == "to_u32") && pure(&m.receiver), Expr::Binary(b) => pure(&b.left) && pure(&b.right), _ => false }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // inlining first (on unrewritten arguments)
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let mut segs = segs_of(&p.path);
                if segs[0] == "Self" { if let Some(t) = &self.self_ty { segs[0] = t.clone(); } }
                if let Some(f) = self.k.find_fn(&segs, &self.module) {
                    if !self.contracted.contains(&f.key()) {
                        let f = f.clone();
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in args.iter_mut() { self.visit_expr_mut(a); }
                        if let Some(x) = self.try_inline(f, args) { *e = x; return; }
                    } else if f.owner.is_some() { self.calls.push(f.key()); }
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            let cands: Vec<Func> = self.k.funcs.iter().filter(|f| f.owner.is_some() && f.trait_.is_none() && f.name == name && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)))).cloned().collect();
            if cands.len() == 1 && !self.contracted.contains(&cands[0].key()) {
                let mut args: Vec<Expr> = vec![(*mc.receiver).clone()];
                args.extend(mc.args.iter().cloned());
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if let Some(x) = self.try_inline(cands[0].clone(), args) { *e = x; return; }
            }
        }
        match e {
            Expr::Call(c) => {
                // u32::from(x) ==> (x) as u32: std's conversions between numbers, bool and char are lossless
                if let Expr::Path(p) = &*c.func {
                    let sg = segs_of(&p.path);
                    if p.qself.is_none() && sg.len() == 2 && sg[1] == "from" && c.args.len() == 1 && ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"].contains(&sg[0].as_str()) && !self.k.funcs.iter().any(|f| f.trait_.as_deref() == Some("From") && f.owner.as_deref() == Some(&sg[0])) {
                        let mut x = c.args[0].clone();
                        self.visit_expr_mut(&mut x);
                        let (x, t) = (par(&x), Ident::new(&sg[0], proc_macro2::Span::call_site()));
                        self.shims.push("number-from".into());
                        *e = parse_quote!((#x as #t));
                        return;
                    }
                }
                if let Expr::Path(p) = &mut *c.func { if p.qself.is_none() { self.fix_path(&mut p.path, true); } } else { self.visit_expr_mut(&mut c.func); }
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                return;
            }
            _ => {}
        }
        // a string literal in a pattern is a comparison: match s { "x" => .. } ==> match s { x__l0 if x__l0 == "x" => .. }
        if let Expr::Match(m) = e {
            for arm in m.arms.iter_mut() {
                let mut l = LitPats { found: vec![], skip: false };
                l.visit_pat_mut(&mut arm.pat.clone());
                if l.skip || l.found.is_empty() { continue; }
                let mut l = LitPats { found: vec![], skip: false };
                l.visit_pat_mut(&mut arm.pat);
                let mut g: Option<Expr> = None;
                for (id, lit) in l.found { let t: Expr = parse_quote!(#id == #lit); g = Some(match g { None => t, Some(h) => parse_quote!(#h && #t) }); }
                let g = g.unwrap();
                let g = match arm.guard.take() { Some((_, h)) => { let h = par(&h); parse_quote!(#g && #h) } None => g };
                arm.guard = Some((Token![if](proc_macro2::Span::call_site()), Box::new(g)));
                self.shims.push("literal-pattern".into());
            }
        }
        // method rewrites that must see the original shape
        if let Expr::MethodCall(mc) = e { if let Some(mut x) = self.option_closure(mc) { self.shims.push("option-closure".into()); self.visit_expr_mut(&mut x); *e = x; return; } }
        if let Expr::MethodCall(mc) = e { if let Some(mut x) = any_contains(mc) { self.shims.push("any-contains".into()); self.visit_expr_mut(&mut x); *e = x; return; } }
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            if name == "contains" && mc.args.len() == 1 {
                if let Expr::Range(r) = strip_paren(&mc.receiver) {
                    if let Some(mut x) = self.range_contains(r, &mc.args[0]) { self.visit_expr_mut(&mut x); *e = x; self.shims.push("range-contains".into()); return; }
                }
            }
            // R.chars().collect::<T>(), R.iter().collect::<T>() ..  ==>  R.collect_chars::<T>()
            if name == "collect" && mc.args.is_empty() {
                let mut r = strip_paren(&mc.receiver);
                while let Expr::MethodCall(m) = r { if m.args.is_empty() && ["copied", "cloned"].contains(&m.method.to_string().as_str()) { r = strip_paren(&m.receiver); } else { break; } }
                if let Expr::MethodCall(m) = r {
                    if m.args.is_empty() && ["chars", "iter", "into_iter"].contains(&m.method.to_string().as_str()) {
                        let mut base = (*m.receiver).clone();
                        self.visit_expr_mut(&mut base);
                        let mut x = mc.clone();
                        x.method = Ident::new("collect_chars", proc_macro2::Span::call_site());
                        x.receiver = Box::new(base);
                        self.shims.push("collect".into());
                        *e = Expr::MethodCall(x);
                        return;
                    }
                }
            }
            // V.extend(R.chars()), V.extend(R)  ==>  V.extend_chars(&R)
            if name == "extend" && mc.args.len() == 1 {
                let mut base = match strip_paren(&mc.args[0]) { Expr::MethodCall(m) if m.args.is_empty() && ["chars", "iter", "into_iter"].contains(&m.method.to_string().as_str()) => (*m.receiver).clone(), Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                let mut v = (*mc.receiver).clone();
                self.visit_expr_mut(&mut base);
                self.visit_expr_mut(&mut v);
                let base = par(&base);
                self.shims.push("collect".into());
                *e = parse_quote!(#v.extend_chars(&#base));
                return;
            }
            // R.chars().count()  ==>  R.collect_chars::<Vec<char>>().len()
            if name == "count" && mc.args.is_empty() {
                if let Expr::MethodCall(m) = strip_paren(&mc.receiver) {
                    if m.args.is_empty() && m.method == "chars" {
                        let mut base = (*m.receiver).clone();
                        self.visit_expr_mut(&mut base);
                        let base = par(&base);
                        self.shims.push("collect".into());
                        *e = parse_quote!(#base.collect_chars::<Vec<char>>().len());
                        return;
                    }
                }
            }
            if name == "binary_search_by_key" && mc.args.len() == 2 {
                let mut recv = (*mc.receiver).clone();
                let mut key = mc.args[0].clone();
                let clo = show(&mc.args[1]).replace(' ', "");
                self.visit_expr_mut(&mut recv);
                self.visit_expr_mut(&mut key);
                let canon = clo.strip_prefix('|').map(|s| s.to_string()).unwrap_or_default();
                let ok = { let h: Vec<&str> = canon.splitn(2, '|').collect(); h.len() == 2 && { let pat = h[0].trim_start_matches('&').trim_start_matches('(').trim_end_matches(')'); let parts: Vec<&str> = pat.split(',').filter(|x| !x.is_empty()).collect(); let b = h[1];
                    (parts.len() == 2 && h[0].starts_with("&(") && parts[0] == b) || (parts.len() == 1 && !h[0].starts_with('&') && (b == format!("{}.0", parts[0]))) } };
                if ok { if let Expr::Path(p) = &recv { let nm = format!("{}__search", segs_of(&p.path).join("__")); self.shims.push(format!("search:{}", nm)); *e = call_expr(&nm, vec![key]); return; } }
                self.notes.push(format!("unsupported binary_search_by_key({})", clo));
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                let empty = |x: &Expr| matches!(strip_paren(x), Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value().is_empty());
                if empty(&b.right) || empty(&b.left) {
                    let mut x = if empty(&b.right) { (*b.left).clone() } else { (*b.right).clone() };
                    self.visit_expr_mut(&mut x);
                    let x = par(&x);
                    let ne = matches!(b.op, BinOp::Ne(_));
                    self.shims.push("str-is-empty".into());
                    *e = if ne { parse_quote!(!str_is_empty(&#x)) } else { parse_quote!(str_is_empty(&#x)) };
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(mut x) = self.format_macro(&m.mac) { self.shims.push("format".into()); for a in x.args.iter_mut() { self.visit_expr_mut(a); } *e = Expr::Call(x); return; }
            self.fix_macro(&mut m.mac);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { self.fix_macro(&mut m.mac); return; }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p, false);
    }
}
/// a closure whose body can stand in a match arm: its parameters and body
fn plain_closure(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
    let c = match strip_paren(e) { Expr::Closure(c) => c, _ => return None };
    if c.inputs.len() != n { return None; }
    struct Jump(bool);
    impl<'a> syn::visit::Visit<'a> for Jump {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    }
    let mut j = Jump(false);
    syn::visit::Visit::visit_expr(&mut j, &c.body);
    if j.0 { return None; }
    Some((c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(), (*c.body).clone()))
}
struct LitPats { found: Vec<(Ident, Lit)>, skip: bool }
impl VisitMut for LitPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => { let id = Ident::new(&format!("x__l{}", self.found.len()), proc_macro2::Span::call_site()); self.found.push((id.clone(), l.lit.clone())); *p = parse_quote!(#id); }
            Pat::Or(o) => { let n = self.found.len(); for c in o.cases.iter_mut() { self.visit_pat_mut(c); } if self.found.len() > n { self.skip = true; } }
            _ => visit_mut::visit_pat_mut(self, p),
        }
    }
}
/// S.iter().any(|&x| x == E) ==> S.contains(&E);  S.iter().all(|&x| x != E) ==> !S.contains(&E)
fn any_contains(m: &ExprMethodCall) -> Option<Expr> {
    let any = match m.method.to_string().as_str() { "any" => true, "all" => false, _ => return None };
    let it = match strip_paren(&m.receiver) { Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => i, _ => return None };
    if m.args.len() != 1 { return None; }
    let (p, b) = plain_closure(&m.args[0], 1)?;
    let (byref, x) = match &p[0] { Pat::Reference(r) => (false, match &*r.pat { Pat::Ident(i) => i.ident.clone(), _ => return None }), Pat::Ident(i) => (true, i.ident.clone()), _ => return None };
    let b = match strip_paren(&b) { Expr::Binary(b) if if any { matches!(b.op, BinOp::Eq(_)) } else { matches!(b.op, BinOp::Ne(_)) } => b.clone(), _ => return None };
    let is_x = |e: &Expr| match strip_paren(e) { Expr::Path(q) => !byref && q.path.is_ident(&x), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => byref && matches!(strip_paren(&u.expr), Expr::Path(q) if q.path.is_ident(&x)), _ => false };
    let other = if is_x(&b.left) { &b.right } else if is_x(&b.right) { &b.left } else { return None };
    if show(other).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| x == w) { return None; }
    let r = &it.receiver;
    Some(if any { parse_quote!(#r.contains(&(#other))) } else { parse_quote!(!#r.contains(&(#other))) })
}
impl<'a> Rw<'a> {
    /// adaptors of Option and Result that take a closure, as a match: E.map_or(d, |p| b) ==> match to_opt(E) { Some(p) => b, None => d }, d evaluated before the match
    fn option_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let inner = |e: &Expr| -> Option<(Expr, Pat, Expr)> {      // E.map(|p| b)
            if let Expr::MethodCall(i) = strip_paren(e) { if i.method == "map" && i.args.len() == 1 {
                if let Expr::MethodCall(r) = strip_paren(&i.receiver) { if ["iter", "chars", "into_iter", "char_indices", "enumerate"].contains(&r.method.to_string().as_str()) { return None; } }
                let (p, b) = plain_closure(&i.args[0], 1)?; return Some(((*i.receiver).clone(), p[0].clone(), b)); } }
            None
        };
        let a: Vec<&Expr> = m.args.iter().collect();
        let lazy = |e: &Expr| -> Option<Expr> { match strip_paren(e) { Expr::Path(p) if segs_of(&p.path).len() > 1 => Some(parse_quote!(#p())), _ => plain_closure(e, 0).map(|x| x.1).or_else(|| plain_closure(e, 1).and_then(|(p, b)| if matches!(p[0], Pat::Wild(_)) { Some(b) } else { None })) } };
        // (E, pattern, body, eager default, lazy default)
        let (r, p, b, eager, none): (Expr, Pat, Expr, Option<Expr>, Expr) = match (name.as_str(), a.len()) {
            ("map_or", 2) => { let (p, b) = plain_closure(a[1], 1)?; ((*m.receiver).clone(), p[0].clone(), b, Some(a[0].clone()), parse_quote!(unused)) }
            ("map_or_else", 2) => { let (p, b) = plain_closure(a[1], 1)?; ((*m.receiver).clone(), p[0].clone(), b, None, lazy(a[0])?) }
            ("unwrap_or", 1) => { let (r, p, b) = inner(&m.receiver)?; (r, p, b, Some(a[0].clone()), parse_quote!(unused)) }
            ("unwrap_or_else", 1) => { let (r, p, b) = inner(&m.receiver)?; (r, p, b, None, lazy(a[0])?) }
            ("unwrap_or_default", 0) => { let (r, p, b) = inner(&m.receiver)?; (r, p, b, None, parse_quote!(dflt())) }
            ("is_some_and", 1) | ("is_ok_and", 1) => { let (p, b) = plain_closure(a[0], 1)?; ((*m.receiver).clone(), p[0].clone(), b, None, parse_quote!(false)) }
            ("is_none_or", 1) => { let (p, b) = plain_closure(a[0], 1)?; ((*m.receiver).clone(), p[0].clone(), b, None, parse_quote!(true)) }
            _ => return None,
        };
        self.inl += 1;
        let (o, d) = (Ident::new(&format!("opt__k{}", self.inl), proc_macro2::Span::call_site()), Ident::new(&format!("alt__k{}", self.inl), proc_macro2::Span::call_site()));
        Some(match eager {
            Some(x) => parse_quote!({ let #o = to_opt(#r); let #d = #x; match #o { Some(#p) => #b, None => #d } }),
            None => parse_quote!({ let #o = to_opt(#r); match #o { Some(#p) => #b, None => #none } }),
        })
    }
    /// format!("a{:s}b{}", x, y) ==> fmt_arg(fmt_lit(fmt_arg(fmt_lit("a"), s, &x), "b"), 0, &y), with the literal parts appended as they are
    /// and s the number of the kind; write!(f, ..) ==> fmt_write(f, the same)
    fn format_macro(&self, m: &Macro) -> Option<ExprCall> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let w = match name.as_str() { "format" => 0, "write" => 1, _ => return None };
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let a: Vec<Expr> = m.parse_body_with(Args::parse_terminated).ok()?.into_iter().collect();
        if a.iter().any(|x| matches!(x, Expr::Assign(_))) { return None; }
        let lit = lit_str(a.get(w)?)?;
        let (mut rest, mut next, mut used) = (lit.as_str(), w + 1, vec![false; a.len()]);
        let mut acc: Option<ExprCall> = None;
        loop {
            let i = rest.find('{').unwrap_or(rest.len());
            let pre = &rest[..i];
            if pre.contains('}') { return None; }
            if !pre.is_empty() {
                let t = LitStr::new(pre, proc_macro2::Span::call_site());
                acc = Some(match acc { None => parse_quote!(fmt_first(#t)), Some(x) => parse_quote!(fmt_lit(#x, #t)) });
            }
            if i == rest.len() { break; }
            let j = i + rest[i..].find('}')?;
            let mid = &rest[i + 1..j];
            if mid.contains('{') { return None; }
            let (nm, kind) = mid.split_once(':').unwrap_or((mid, ""));
            let k: u8 = match kind { "" => 0, "04X" => 1, "X" => 2, _ => return None };
            let arg: Expr = if nm.is_empty() { next += 1; *used.get_mut(next - 1)? = true; a[next - 1].clone() }
                else if let Ok(n) = nm.parse::<usize>() { *used.get_mut(w + 1 + n)? = true; a[w + 1 + n].clone() }
                else { parse_str(nm).ok()? };
            acc = Some(match acc { None => parse_quote!(fmt_show(#k, &#arg)), Some(x) => parse_quote!(fmt_arg(#x, #k, &#arg)) });
            rest = &rest[j + 1..];
        }
        if used[w + 1..].iter().any(|u| !u) { return None; }
        let x = match acc { Some(x) => x, None => parse_quote!(fmt_first("")) };
        Some(if w == 0 { x } else { let f = &a[0]; parse_quote!(fmt_write(#f, #x)) })
    }
    fn fix_macro(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name.starts_with("__") { return; }
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        if let Ok(mut a) = m.parse_body_with(Args::parse_terminated) {
            for x in a.iter_mut() { self.visit_expr_mut(x); }
            m.tokens = quote!(#a);
        }
    }
}
struct Subst<'a> { m: &'a HashMap<String, Expr> }
impl<'a> Subst<'a> {
    fn get(&self, e: &Expr) -> Option<&Expr> { if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { return self.m.get(&i.to_string()); } } None }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let unref = |x: &Expr| -> Expr { match strip_paren(x) { Expr::Reference(r) => (*r.expr).clone(), o => o.clone() } };
        match e {
            Expr::MethodCall(m) => if let Some(a) = self.get(&m.receiver) { m.receiver = Box::new(par(&unref(a))); },
            Expr::Index(m) => if let Some(a) = self.get(&m.expr) { m.expr = Box::new(par(&unref(a))); },
            Expr::Field(m) => if let Some(a) = self.get(&m.base) { m.base = Box::new(par(&unref(a))); },
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => if let Some(a) = self.get(&u.expr) { if let Expr::Reference(r) = strip_paren(a) { let x = par(&r.expr); *e = x; return; } },
            _ => {}
        }
        if let Some(a) = self.get(e) { *e = par(a); return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        if let Ok(mut a) = m.parse_body_with(Args::parse_terminated) { for x in a.iter_mut() { self.visit_expr_mut(x); } m.tokens = quote!(#a); }
    }
}
/// a += b ==> a.push_str(b) for the locals that are Strings by their declaration
struct StrAdd { names: HashSet<String>, collect: bool }
impl VisitMut for StrAdd {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if self.collect {
            let (pat, ty) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(quote!(#t).to_string())), p => (p, None) };
            if let Pat::Ident(i) = pat {
                let is_str = ty.map_or(false, |t| t.ends_with(": String")) || l.init.as_ref().map_or(false, |x| match strip_paren(&x.expr) {
                    Expr::Call(c) => if let Expr::Path(p) = &*c.func { let s = segs_of(&p.path); s[0] == "String" || s.last().unwrap().starts_with("fmt_") && s.len() == 1 } else { false },
                    _ => false });
                if is_str { self.names.insert(i.ident.to_string()); } else { self.names.remove(&i.ident.to_string()); }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Binary(b) = e { if !self.collect && matches!(b.op, BinOp::AddAssign(_)) { if let Expr::Path(p) = &*b.left { if let Some(i) = p.path.get_ident() { if self.names.contains(&i.to_string()) {
            let (l, r) = (&b.left, &b.right);
            *e = parse_quote!(#l.push_str(#r));
        } } } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
// ------------------------------------------------------------------ local closures
/// `let f = |a, b| e;` (not move, no return in e) whose every use is a call f(x, y)  ==>  { let a = x; let b = y; e } at the calls.
/// A closure that is not `move` captures by reference, so e means the same there unless a name in it is bound again.
struct Beta { bound: HashMap<String, usize>, n: usize }
struct Calls<'a> { name: &'a str, params: &'a [(Ident, Option<Type>)], body: &'a Expr, n: &'a mut usize }
impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = strip_paren(&c.func) else { return };
        if !p.path.is_ident(self.name) || c.args.len() != self.params.len() { return; }
        *self.n += 1;
        let suffix = format!("__i{}", 1000 + *self.n);
        let mut body: Block = match self.body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
        let mut names = HashSet::new();
        collect_bindings_block(&body, &mut names);
        let mut subst: HashMap<String, Expr> = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        for ((id, ty), a) in self.params.iter().zip(c.args.iter()) {
            if ty.is_none() && matches!(strip_paren(a), Expr::Path(_) | Expr::Lit(_)) { subst.insert(id.to_string(), a.clone()); names.remove(&id.to_string()); continue; }
            names.insert(id.to_string());
            let nid = Ident::new(&format!("{}{}", id, suffix), id.span());
            lets.push(match ty { Some(t) => parse_quote!(let #nid: #t = #a;), None => parse_quote!(let #nid = #a;) });
        }
        RenameLocals { names: &names, suffix: &suffix }.visit_block_mut(&mut body);
        Subst { m: &subst }.visit_block_mut(&mut body);
        let stmts = body.stmts;
        if lets.is_empty() && stmts.len() == 1 { if let Stmt::Expr(x, None) = &stmts[0] { *e = parse_quote!((#x)); return; } }
        *e = parse_quote!({ #(#lets)* #(#stmts)* });
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        if let Ok(mut a) = m.parse_body_with(Args::parse_terminated) { for x in a.iter_mut() { self.visit_expr_mut(x); } m.tokens = quote!(#a); }
    }
}
fn idents(t: TokenStream, out: &mut Vec<String>) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()), proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } } }
impl VisitMut for Beta {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(f) = &l.pat else { return None };
                let init = l.init.as_ref()?;
                let Expr::Closure(c) = strip_paren(&init.expr) else { return None };
                if c.capture.is_some() || c.asyncness.is_some() || self.bound.get(&f.ident.to_string()) != Some(&1) { return None; }
                let mut ps = vec![];
                for p in c.inputs.iter() { match p { Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() => ps.push((i.ident.clone(), None)), Pat::Type(t) => match &*t.pat { Pat::Ident(i) if i.mutability.is_none() => ps.push((i.ident.clone(), Some((*t.ty).clone()))), _ => return None }, _ => return None } }
                let mut h = HasRet(false); h.visit_expr_mut(&mut (*c.body).clone()); if h.0 { return None; }
                let mut own = HashSet::new(); let body = &c.body; collect_bindings_block(&parse_quote!({ #body; }), &mut own); own.extend(ps.iter().map(|p| p.0.to_string()));
                let mut used = vec![]; idents(body.to_token_stream(), &mut used);
                if used.iter().any(|u| !own.contains(u) && self.bound.get(u).map_or(false, |n| *n > 1)) { return None; }
                Some((f.ident.to_string(), ps, (*c.body).clone()))
            })();
            if let Some((name, params, body)) = found {
                let mut rest: Block = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let mut n = self.n;
                Calls { name: &name, params: &params, body: &body, n: &mut n }.visit_block_mut(&mut rest);
                let mut left = vec![]; idents(rest.to_token_stream(), &mut left);
                if !left.contains(&name) { self.n = n; b.stmts.truncate(i); b.stmts.extend(rest.stmts); continue; }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
fn beta(f: &mut Func) {
    let mut bound: HashMap<String, usize> = HashMap::new();
    let mut c = Coll { v: vec![] };
    for i in f.sig.inputs.iter() { c.visit_fn_arg_mut(&mut i.clone()); }
    c.v.extend(bindings(&f.block));
    for x in c.v { *bound.entry(x).or_insert(0) += 1; }
    Beta { bound, n: 0 }.visit_block_mut(&mut f.block);
}
struct RenameLocals<'a> { names: &'a HashSet<String>, suffix: &'a str }
impl<'a> VisitMut for RenameLocals<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if self.names.contains(&n) { p.ident = Ident::new(&format!("{}{}", n, self.suffix), p.ident.span()); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if let Some(i) = p.path.get_ident() { let n = i.to_string(); if self.names.contains(&n) { let id = Ident::new(&format!("{}{}", n, self.suffix), i.span()); p.path = parse_quote!(#id); } } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        if let Ok(mut a) = m.parse_body_with(Args::parse_terminated) { for x in a.iter_mut() { self.visit_expr_mut(x); } m.tokens = quote!(#a); }
    }
}
fn is_binding(n: &str) -> bool { n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) }
struct Coll { v: Vec<String> }
impl VisitMut for Coll { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if is_binding(&n) { self.v.push(n); } visit_mut::visit_pat_ident_mut(self, p); } }
fn bindings(b: &Block) -> Vec<String> { let mut c = Coll { v: vec![] }; c.visit_block_mut(&mut b.clone()); c.v }
fn collect_bindings_block(b: &Block, out: &mut HashSet<String>) { out.extend(bindings(b)); }

// ------------------------------------------------------------------ early returns of inlined helpers
struct HasRet(bool);
impl VisitMut for HasRet { fn visit_expr_mut(&mut self, e: &mut Expr) { match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => return, _ => {} } visit_mut::visit_expr_mut(self, e); } }
fn has_ret_s(s: &Stmt) -> bool { let mut h = HasRet(false); h.visit_stmt_mut(&mut s.clone()); h.0 }
fn has_ret_b(b: &Block) -> bool { b.stmts.iter().any(has_ret_s) }
/// Rewrites `return x` in tail position into the tail value; false if some return is elsewhere.
fn tailify(b: &mut Block) -> bool {
    if !has_ret_b(b) { return true; }
    let mut i = 0;
    while i < b.stmts.len() {
        if !has_ret_s(&b.stmts[i]) { i += 1; continue; }
        let last = i + 1 == b.stmts.len();
        let st = b.stmts[i].clone();
        match st {
            Stmt::Expr(Expr::Return(r), _) => {
                b.stmts.truncate(i);
                match r.expr { Some(x) => b.stmts.push(Stmt::Expr(*x, None)), None => b.stmts.push(parse_quote!(();)) }
                return !has_ret_b(b);
            }
            Stmt::Expr(Expr::If(mut f), semi) => {
                if last && semi.is_none() { let ok = tail_expr(&mut Expr::If(f.clone())); if !ok { return false; } let mut e = Expr::If(f); tail_expr(&mut e); b.stmts[i] = Stmt::Expr(e, None); return true; }
                // if c { A } else { B } rest   ==>   if c { A rest } else { B rest }   (rest dropped after a return)
                let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                if !distribute(&mut f, &rest) { return false; }
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
                return true;
            }
            Stmt::Expr(mut e @ Expr::Match(_), semi) if last => { if !tail_expr(&mut e) { return false; } b.stmts[i] = Stmt::Expr(e, None); let _ = semi; return true; }
            _ => return false,
        }
    }
    true
}
fn distribute(f: &mut ExprIf, rest: &[Stmt]) -> bool {
    if !diverges(&f.then_branch) {
        if let Some(Stmt::Expr(_, semi @ None)) = f.then_branch.stmts.last_mut() { *semi = Some(Default::default()); }
        f.then_branch.stmts.extend(rest.iter().cloned());
    }
    if !tailify(&mut f.then_branch) { return false; }
    match &mut f.else_branch {
        None => {
            let mut rb = Block { brace_token: Default::default(), stmts: rest.to_vec() };
            if !tailify(&mut rb) { return false; }
            f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rb }))));
            true
        }
        Some((_, x)) => match &mut **x {
            Expr::If(g) => distribute(g, rest),
            Expr::Block(g) => { if !diverges(&g.block) { if let Some(Stmt::Expr(_, semi @ None)) = g.block.stmts.last_mut() { *semi = Some(Default::default()); } g.block.stmts.extend(rest.iter().cloned()); } tailify(&mut g.block) }
            _ => false,
        },
    }
}
fn diverges(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
fn tail_expr(e: &mut Expr) -> bool {
    match e {
        Expr::If(f) => { if !tailify(&mut f.then_branch) { return false; } match &mut f.else_branch { Some((_, x)) => tail_expr(x), None => true } }
        Expr::Block(b) => tailify(&mut b.block),
        Expr::Match(m) => m.arms.iter_mut().all(|a| tail_expr(&mut a.body)),
        Expr::Return(r) => match r.expr.take() { Some(x) => { *e = *x; true } None => { *e = parse_quote!(()); true } },
        x => { let mut h = HasRet(false); h.visit_expr_mut(x); !h.0 }
    }
}

// ------------------------------------------------------------------ continue
/// `if c { A; continue; } rest` at the end of a loop body  ==>  `if c { A } else { rest }`  (Verus has no `continue` in for loops).
struct HasCont(bool);
impl VisitMut for HasCont { fn visit_expr_mut(&mut self, e: &mut Expr) { match e { Expr::Continue(_) => self.0 = true, Expr::Closure(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => return, _ => {} } visit_mut::visit_expr_mut(self, e); } }
fn has_cont_s(s: &Stmt) -> bool { let mut h = HasCont(false); h.visit_stmt_mut(&mut s.clone()); h.0 }
fn leaves(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Continue(_) | Expr::Break(_), _))) }
fn cont_block(b: &mut Block) -> bool {
    for i in 0..b.stmts.len() {
        if !has_cont_s(&b.stmts[i]) { continue; }
        match b.stmts[i].clone() {
            Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => { b.stmts.truncate(i); return true; }
            Stmt::Expr(Expr::If(mut f), _) => {
                let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                if !cont_if(&mut f, &rest) { return false; }
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
                return true;
            }
            _ => return false,
        }
    }
    true
}
fn cont_if(f: &mut ExprIf, rest: &[Stmt]) -> bool {
    let add = |b: &mut Block| { if !leaves(b) { if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); } b.stmts.extend(rest.iter().cloned()); } cont_block(b) };
    if !add(&mut f.then_branch) { return false; }
    match &mut f.else_branch {
        None => { let mut rb = Block { brace_token: Default::default(), stmts: rest.to_vec() }; if !cont_block(&mut rb) { return false; } if !rb.stmts.is_empty() { f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rb })))); } true }
        Some((_, x)) => match &mut **x { Expr::If(g) => cont_if(g, rest), Expr::Block(g) => add(&mut g.block), _ => false },
    }
}
struct Cont;
impl VisitMut for Cont {
    fn visit_expr_for_loop_mut(&mut self, w: &mut ExprForLoop) { visit_mut::visit_expr_for_loop_mut(self, w); let mut b = w.body.clone(); if b.stmts.iter().any(has_cont_s) && cont_block(&mut b) { w.body = b; } }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) { visit_mut::visit_expr_while_mut(self, w); let mut b = w.body.clone(); if b.stmts.iter().any(has_cont_s) && cont_block(&mut b) { w.body = b; } }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) { visit_mut::visit_expr_loop_mut(self, w); let mut b = w.body.clone(); if b.stmts.iter().any(has_cont_s) && cont_block(&mut b) { w.body = b; } }
}

// ------------------------------------------------------------------ markers
struct Marks { n: usize, stack: Vec<usize>, loops: Vec<(String, String)>, scruts: usize, new_locals: Vec<String> }
impl Marks {
    fn mark(s: &str) -> Stmt { let t: TokenStream = s.parse().unwrap(); parse_quote!(__mark!(#t);) }
    fn enter(&mut self, kind: &str, header: String, body: &mut Block) -> usize {
        let k = self.n; self.n += 1;
        self.loops.push((kind.into(), header));
        self.stack.push(k);
        self.visit_block_mut(body);
        self.stack.pop();
        body.stmts.insert(0, Self::mark(&format!("inv_{}", k)));
        body.stmts.insert(1, Self::mark(&format!("body_{}", k)));
        if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() { if !matches!(e, Expr::Break(_) | Expr::Continue(_)) { *semi = Some(Default::default()); } }
        if !matches!(body.stmts.last(), Some(Stmt::Expr(Expr::Break(_) | Expr::Continue(_) | Expr::Return(_), _))) { body.stmts.push(Self::mark(&format!("end_{}", k))); }
        k
    }
}
impl VisitMut for Marks {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let (mut pre, mut post) = (None, None);
            let mut is_loop = None;
            // for x in <call>.chars() { .. }  ==>  let tmp_k = <call>; for x in tmp_k.chars() { .. }
            if let Stmt::Expr(Expr::ForLoop(w), _) = &mut s {
                let k = self.n;
                if let Expr::MethodCall(m) = &mut *w.expr {
                    if ["chars", "iter", "into_iter", "char_indices", "bytes"].contains(&m.method.to_string().as_str()) && matches!(strip_paren(&m.receiver), Expr::MethodCall(_) | Expr::Call(_)) {
                        let id = Ident::new(&format!("tmp_{}", k), proc_macro2::Span::call_site());
                        let r = m.receiver.clone();
                        b.stmts.push(parse_quote!(let #id = #r;));
                        m.receiver = Box::new(parse_quote!(#id));
                    }
                } else if let Expr::Call(_) = &*w.expr {
                    let id = Ident::new(&format!("tmp_{}", k), proc_macro2::Span::call_site());
                    let r = w.expr.clone();
                    b.stmts.push(parse_quote!(let #id = #r;));
                    *w.expr = parse_quote!(#id);
                }
            }
            // match TABLE__search(k) {..}  ==>  let scrut_k = TABLE__search(k); match scrut_k {..}
            {
                let sc: Option<&mut Box<Expr>> = match &mut s {
                    Stmt::Expr(Expr::Match(m), _) => Some(&mut m.expr),
                    Stmt::Expr(Expr::If(f), _) => match &mut *f.cond { Expr::Let(l) => Some(&mut l.expr), _ => None },
                    _ => None,
                };
                if let Some(sc) = sc {
                    let is = matches!(strip_paren(sc), Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map(|i| i.to_string().ends_with("__search")).unwrap_or(false)));
                    if is {
                        let nm = format!("scrut_{}", self.scruts); self.scruts += 1;
                        let id = Ident::new(&nm, proc_macro2::Span::call_site());
                        let r = sc.clone();
                        b.stmts.push(parse_quote!(let #id = #r;));
                        b.stmts.push(Self::mark(&format!("let_{}", nm)));
                        *sc = Box::new(parse_quote!(#id));
                        self.new_locals.push(nm);
                    }
                }
            }
            if let Stmt::Expr(e, _) = &mut s {
                match e {
                    Expr::While(w) => { visit_mut::visit_expr_mut(self, &mut w.cond); let h = show(&w.cond); is_loop = Some(self.enter("while", h, &mut w.body)); }
                    Expr::Loop(w) => { is_loop = Some(self.enter("loop", String::new(), &mut w.body)); }
                    Expr::ForLoop(w) => { let h = show(&w.expr); let k = self.enter("for", h, &mut w.body); is_loop = Some(k); let it = &w.expr; let kk: TokenStream = format!("{}", k).parse().unwrap(); *w.expr = parse_quote!(__it!(#kk, #it)); }
                    Expr::Break(_) => { if let Some(k) = self.stack.last() { pre = Some(format!("brk_{}", k)); } }
                    Expr::Continue(_) => { if let Some(k) = self.stack.last() { pre = Some(format!("end_{}", k)); } }
                    Expr::Return(_) => { pre = Some("ret".to_string()); }
                    _ => {}
                }
            }
            if let Some(k) = is_loop { pre = Some(format!("pre_{}", k)); post = Some(format!("post_{}", k)); }
            else if pre.is_some() { if let Stmt::Expr(e, _) = &mut s { visit_mut::visit_expr_mut(self, e); } }
            else { visit_mut::visit_stmt_mut(self, &mut s); }
            if let Stmt::Local(l) = &s { if l.init.is_some() { if let Pat::Ident(p) = match &l.pat { Pat::Type(t) => &*t.pat, x => x } { post = Some(format!("let_{}", p.ident)); } } }
            if let Some(p) = pre { b.stmts.push(Self::mark(&p)); }
            b.stmts.push(s);
            if let Some(p) = post { b.stmts.push(Self::mark(&p)); }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(_) | Expr::Continue(_) | Expr::Return(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                // not in statement position: give it a block
                let x = e.clone();
                let mut b: Block = parse_quote!({ #x });
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn lit_str(e: &Expr) -> Option<String> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), Expr::Reference(r) => lit_str(&r.expr), _ => None } }
fn lit_int(e: &Expr) -> Option<u64> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Int(s), .. }) => s.base10_parse().ok(), Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value() as u64), _ => None } }

fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(4)); }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(&a[1]);
    let contracted: HashSet<String> = std::fs::read_to_string(&a[2]).unwrap().lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let mut k = Krate::default();
    load_file(&mut k, &root.join("lib.rs"), vec![], root.clone());
    for f in k.funcs.iter_mut() { beta(f); }
    let mut out = String::from("{\n\"fns\":{\n");
    let mut used_consts: Vec<String> = vec![];
    let mut first = true;
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let all: Vec<Func> = k.funcs.clone();
    for f in &all {
        let mut key = f.key();
        if !contracted.contains(&key) { continue; }
        let n = seen.entry(key.clone()).or_insert(0); *n += 1;
        if *n > 1 { key = format!("{}#{}", key, n); }
        let mut rw = Rw { k: &k, contracted: &contracted, module: f.module.clone(), self_ty: f.owner.clone(), depth: 0, inl: 0, notes: vec![], calls: vec![], consts: vec![], shims: vec![] };
        let mut block = f.block.clone();
        rw.visit_block_mut(&mut block);
        let mut sa = StrAdd { names: HashSet::new(), collect: true };
        sa.visit_block_mut(&mut block);
        sa.collect = false;
        sa.visit_block_mut(&mut block);
        let mut sig = f.sig.clone();
        for i in sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { rw.visit_type_mut(&mut t.ty); } }
        if let ReturnType::Type(_, t) = &mut sig.output { rw.visit_type_mut(t); }
        let mut locals = bindings(&block);
        Cont.visit_block_mut(&mut block);
        let mut mk = Marks { n: 0, stack: vec![], loops: vec![], scruts: 0, new_locals: vec![] };
        mk.visit_block_mut(&mut block);
        locals.extend(mk.new_locals.iter().cloned());
        // function start / before the tail expression
        block.stmts.insert(0, Marks::mark("start"));
        let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None) | Stmt::Expr(Expr::Return(_), _)));
        let pos = if tail { block.stmts.len() - 1 } else { block.stmts.len() };
        block.stmts.insert(pos, Marks::mark("finish"));
        let params: Vec<String> = sig.inputs.iter().map(|i| show(i)).collect();
        let pnames: Vec<String> = sig.inputs.iter().map(|i| match i { FnArg::Receiver(_) => "self".to_string(), FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => p.ident.to_string(), o => show(o) } }).collect();
        let ret = match &sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => show(t) };
        let tr = f.trait_.clone().unwrap_or_default();
        for c in rw.consts.iter() { if !used_consts.contains(c) { used_consts.push(c.clone()); } }
        if !first { out.push_str(",\n"); } first = false;
        let body = show(&block);
        out.push_str(&format!("{}:{{\"flat\":{},\"file\":{},\"trait\":{},\"owner\":{},\"generics\":{},\"params\":{},\"pnames\":{},\"ret\":{},\"locals\":{},\"loops\":[{}],\"notes\":{},\"calls\":{},\"consts\":{},\"shims\":{},\"hdr\":{},\"body\":{},\"orig\":{}}}",
            js(&key), js(&flat(&key)), js(&f.file), js(&tr), js(f.owner.as_deref().unwrap_or("")), js(&show(&sig.generics)), jl(&params), jl(&pnames), js(&ret), jl(&locals),
            mk.loops.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","), jl(&rw.notes), jl(&rw.calls), jl(&rw.consts), jl(&rw.shims), js(&f.hdr), js(&body), js(&show(&f.block))));
    }
    out.push_str("\n},\n\"consts\":{\n");
    first = true;
    let mut i = 0;
    let mut done: HashSet<String> = HashSet::new();
    while i < used_consts.len() {
        let key = used_consts[i].clone(); i += 1;
        if !done.insert(key.clone()) { continue; }
        let c = k.consts.iter().find(|c| format!("{}::{}", c.module.last().cloned().unwrap_or("crate".into()), c.name) == key).unwrap();
        let rows: Option<&ExprArray> = match strip_paren(&c.expr) { Expr::Reference(r) => match strip_paren(&r.expr) { Expr::Array(a) => Some(a), _ => None }, Expr::Array(a) => Some(a), _ => None };
        if !first { out.push_str(",\n"); } first = false;
        let mut emitted = false;
        if let Some(arr) = rows {
            // tables of (integer, text), (text, integer) rows or of integers
            let mut v: Vec<String> = vec![];
            let mut ok = true;
            for x in arr.elems.iter() {
                match strip_paren(x) {
                    Expr::Tuple(t) if t.elems.len() == 2 => {
                        let cell = |e: &Expr| -> Option<String> { if let Some(s) = lit_str(e) { Some(js(&s)) } else { lit_int(e).map(|n| n.to_string()) } };
                        match (cell(&t.elems[0]), cell(&t.elems[1])) { (Some(a), Some(b)) => v.push(format!("[{},{}]", a, b)), _ => { ok = false; break; } }
                    }
                    e => match lit_int(e) { Some(n) => v.push(n.to_string()), None => { ok = false; break; } },
                }
            }
            if ok { out.push_str(&format!("{}:{{\"flat\":{},\"ty\":{},\"file\":{},\"rows\":[{}]}}", js(&key), js(&flat(&key)), js(&show(&c.ty)), js(&c.file), v.join(","))); emitted = true; }
        }
        if !emitted {
            let empty = HashSet::new();
            let mut rw = Rw { k: &k, contracted: &empty, module: c.module.clone(), self_ty: None, depth: 0, inl: 0, notes: vec![], calls: vec![], consts: vec![], shims: vec![] };
            let mut e = c.expr.clone();
            rw.visit_expr_mut(&mut e);
            for x in rw.consts { if !used_consts.contains(&x) { used_consts.push(x); } }
            out.push_str(&format!("{}:{{\"flat\":{},\"ty\":{},\"file\":{},\"expr\":{}}}", js(&key), js(&flat(&key)), js(&show(&c.ty)), js(&c.file), js(&show(&e))));
        }
    }
    out.push_str("\n},\n\"enums\":{\n");
    out.push_str(&k.enums.iter().map(|(_, e)| format!("{}:[{}]", js(&e.ident.to_string()), e.variants.iter().map(|v| format!("[{},{}]", js(&v.ident.to_string()), js(&v.discriminant.as_ref().map(|d| show(&d.1)).unwrap_or_default()))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    out.push_str("\n},\n\"structs\":{\n");
    out.push_str(&k.structs.iter().map(|(_, e)| format!("{}:[{},{}]", js(&e.ident.to_string()), js(&show(&e.generics)), js(&show(&e.fields)))).collect::<Vec<_>>().join(",\n"));
    out.push_str("\n},\n\"state\":");
    out.push_str(&jl(&k.state));
    out.push_str(",\n\"all\":");
    out.push_str(&jl(&k.funcs.iter().map(|f| f.key()).collect::<Vec<_>>()));
    out.push_str("\n}\n");
    print!("{}", out);
}
