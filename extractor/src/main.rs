//! Mechanical extraction of /repo/src into one Verus file.
//!
//! usage: extractor <repo/src> <contracts file>... -- <out.rs> <info.json>
//!
//! The executable text of every function is taken from the working tree on every run; the
//! rewrites applied are listed in DESIGN.md ("What the extraction changes").
mod contracts;
mod inline;
mod printer;
mod rewrite;

use contracts::Contracts;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Ctx {
    pub c: Contracts,
    pub raws: Vec<String>,
    pub info_fns: Vec<serde_json::Value>,
    pub dropped: Vec<serde_json::Value>,
    pub used_keys: BTreeSet<String>,
    pub problems: Vec<serde_json::Value>,
    pub macros: BTreeMap<String, ItemMacro>,
    pub derive_eq: Vec<(String, Vec<String>)>,
    pub cur_fns: BTreeSet<String>,
    pub files: BTreeMap<PathBuf, File>,
    /// helpers whose body was put in place of their calls
    pub gone: BTreeSet<String>,
    /// the default methods of the hoisted traits
    pub defaults: BTreeMap<String, BTreeSet<String>>,
}

impl Ctx {
    pub fn raw(&mut self, s: String) -> TokenStream {
        self.raws.push(s);
        let n = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
        quote!(__RAW__!(#n))
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let sep = args.iter().position(|a| a == "--").expect("--");
    let root = PathBuf::from(&args[0]);
    let mut text = String::new();
    for f in &args[1..sep] {
        text.push_str(&std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}")));
        text.push('\n');
    }
    let c = Contracts::parse(&text);
    let mut cx = Ctx {
        c,
        raws: vec![],
        info_fns: vec![],
        dropped: vec![],
        used_keys: Default::default(),
        problems: vec![],
        macros: Default::default(),
        derive_eq: vec![],
        cur_fns: Default::default(),
        files: Default::default(),
        gone: Default::default(),
        defaults: Default::default(),
    };
    let lib = root.join("lib.rs");
    let file = parse(&lib);
    load(&mut cx, &file.items, &root, "");
    cx.files.insert(lib.clone(), file);
    let mut inlined = vec![];
    if !cx.c.known.is_empty() {
        let (gone, done) = inline::run(&mut cx.files, &cx.c.known);
        cx.gone = gone;
        inlined = done;
    }
    for f in cx.files.values() {
        defaults(&f.items, &mut cx.defaults);
    }
    let file = cx.files.remove(&lib).unwrap();
    let mut out = TokenStream::new();
    let pre = cx.c.module("").cloned().unwrap_or_default();
    out.extend(cx.raw(pre));
    out.extend(do_items(&mut cx, file.items, &root, &root, ""));
    let body = printer::print(out, &cx.raws);
    let full = format!(
        "#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, unreachable_code, non_camel_case_types, unused_braces, non_snake_case)]\nuse vstd::prelude::*;\nverus! {{\n{body}\n}} // verus!\nfn main() {{}}\n"
    );
    std::fs::write(&args[sep + 1], full).unwrap();
    let missing: Vec<&String> = cx.c.fns.keys().filter(|k| !cx.used_keys.contains(*k)).collect();
    let info = json!({
        "functions": cx.info_fns,
        "dropped": cx.dropped,
        "missing_contract_targets": missing,
        "problems": cx.problems,
        "inlined": inlined,
        "derives": cx.derive_eq.iter().map(|(n, d)| json!({"type": n, "derives": d})).collect::<Vec<_>>(),
    });
    std::fs::write(&args[sep + 2], serde_json::to_string_pretty(&info).unwrap()).unwrap();
}

fn defaults(items: &[Item], out: &mut BTreeMap<String, BTreeSet<String>>) {
    for it in items {
        match it {
            Item::Trait(t) if rewrite::HOIST.contains(&t.ident.to_string().as_str()) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        if f.default.is_some() {
                            out.entry(t.ident.to_string()).or_default().insert(f.sig.ident.to_string());
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    defaults(i, out)
                }
            }
            _ => {}
        }
    }
}
fn mod_file(dir: &Path, name: &str) -> PathBuf {
    let p = dir.join(format!("{name}.rs"));
    if p.exists() { p } else { dir.join(name).join("mod.rs") }
}
fn load(cx: &mut Ctx, items: &[Item], dir: &Path, module: &str) {
    for it in items {
        if let Item::Mod(m) = it {
            let name = m.ident.to_string();
            let sub = join(module, &name);
            if !cfg_on(&m.attrs) || cx.c.skipmods.contains(&sub) {
                continue;
            }
            match &m.content {
                Some((_, i)) => load(cx, i, &dir.join(&name), &sub),
                None => {
                    let p = mod_file(dir, &name);
                    let f = parse(&p);
                    load(cx, &f.items, &dir.join(&name), &sub);
                    cx.files.insert(p, f);
                }
            }
        }
    }
}

fn parse(p: &Path) -> File {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("EXTRACT-FAIL {}: {e}", p.display()));
    parse_file(&s).unwrap_or_else(|e| panic!("EXTRACT-FAIL parse {}: {e}", p.display()))
}

/// Is the item compiled in the configuration under verification (all features on, not test)?
pub fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if !cfg_eval(&l.tokens.to_string().replace(' ', "")) {
                    return false;
                }
            }
        }
        if a.path().is_ident("test") {
            return false;
        }
    }
    true
}
fn cfg_eval(s: &str) -> bool {
    if s.starts_with("feature=") {
        return s == "feature=\"async\"" || s == "feature=\"full\"" || s == "feature=\"futures\"";
    }
    if s == "test" || s == "docsrs" || s == "debug_assertions" {
        return false;
    }
    if let Some(r) = s.strip_prefix("not(") {
        return !cfg_eval(&r[..r.len() - 1]);
    }
    let split = |r: &str| -> Vec<String> {
        let mut d = 0;
        let mut v = vec![String::new()];
        for ch in r.chars() {
            match ch {
                '(' => d += 1,
                ')' => d -= 1,
                _ => {}
            }
            if ch == ',' && d == 0 {
                v.push(String::new());
            } else {
                v.last_mut().unwrap().push(ch);
            }
        }
        v.retain(|x| !x.is_empty());
        v
    };
    if let Some(r) = s.strip_prefix("all(") {
        return split(&r[..r.len() - 1]).iter().all(|x| cfg_eval(x));
    }
    if let Some(r) = s.strip_prefix("any(") {
        return split(&r[..r.len() - 1]).iter().any(|x| cfg_eval(x));
    }
    false
}

pub fn join(m: &str, n: &str) -> String {
    if m.is_empty() { n.to_string() } else { format!("{m}::{n}") }
}

fn squash_use(u: &ItemUse) -> String {
    rewrite::squash(u)
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn do_items(cx: &mut Ctx, items: Vec<Item>, dir: &Path, root: &Path, module: &str) -> TokenStream {
    let mut out = TokenStream::new();
    let mut buckets: BTreeMap<String, TokenStream> = BTreeMap::new();
    for it in items {
        if !cfg_on(item_attrs(&it)) {
            continue;
        }
        match it {
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let sub = join(module, &name);
                if cx.c.skipmods.contains(&sub) {
                    continue;
                }
                let inner = match m.content {
                    Some((_, items)) => do_items(cx, items, &dir.join(&name), root, &sub),
                    None => {
                        let f = cx.files.remove(&mod_file(dir, &name)).expect("EXTRACT-FAIL module");
                        do_items(cx, f.items, &dir.join(&name), root, &sub)
                    }
                };
                let id = &m.ident;
                let std_use = cx.c.prelude(&sub);
                let std_use = cx.raw(std_use);
                let extra = cx.c.module(&sub).cloned().unwrap_or_default();
                let extra = cx.raw(extra);
                out.extend(quote!(pub mod #id { #std_use #inner #extra }));
            }
            Item::Macro(m) => {
                if m.mac.path.is_ident("macro_rules") {
                    cx.macros.insert(m.ident.as_ref().unwrap().to_string(), m);
                } else {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    let def = cx.macros.get(&name).cloned();
                    match def.and_then(|d| rewrite::expand_macro(&d, m.mac.tokens.clone())) {
                        Some(ts) => {
                            let f: File = parse2(ts).expect("EXTRACT-FAIL macro expansion");
                            out.extend(do_items(cx, f.items, dir, root, module));
                        }
                        None => cx.problems.push(json!({"kind":"unsupported-item-macro","name":name})),
                    }
                }
            }
            Item::Use(u) => {
                let t = squash_use(&u);
                if cx.c.skipmods.iter().any(|m| t.contains(m.as_str())) {
                    continue;
                }
                out.extend(rewrite::do_use(u, &cx.gone))
            }
            Item::Fn(mut f) => {
                let key = f.sig.ident.to_string();
                f.vis = parse_quote!(pub);
                let vis = f.vis.clone();
                out.extend(rewrite::do_fn(cx, module, &key, Some(vis), f.sig, Some(*f.block), &f.attrs, None, true));
            }
            Item::Const(mut c) => {
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                rewrite::fix_type(&mut c.ty);
                out.extend(c.to_token_stream());
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                rewrite::fix_type(&mut t.ty);
                out.extend(t.to_token_stream());
            }
            Item::Struct(s) => out.extend(rewrite::do_struct(cx, s)),
            Item::Enum(e) => out.extend(rewrite::do_enum(cx, e)),
            Item::Trait(t) => out.extend(rewrite::do_trait(cx, module, t)),
            Item::Impl(i) => {
                for (b, ts) in rewrite::do_impl(cx, module, i) {
                    if b.is_empty() {
                        out.extend(ts);
                    } else {
                        buckets.entry(b).or_default().extend(ts);
                    }
                }
            }
            other => cx.problems.push(json!({"kind":"unsupported-item","text": other.to_token_stream().to_string().chars().take(120).collect::<String>()})),
        }
    }
    for (b, ts) in buckets {
        let id = quote::format_ident!("{}", b);
        let std_use = cx.c.prelude(&join(module, &b));
        let std_use = cx.raw(std_use);
        let extra = cx.c.module(&join(module, &b)).cloned().unwrap_or_default();
        let extra = cx.raw(extra);
        out.extend(quote!(pub mod #id { use super::*; #std_use #ts #extra }));
    }
    out
}

#[allow(dead_code)]
fn _unused(_: TokenTree) {}
