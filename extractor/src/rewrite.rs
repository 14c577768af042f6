use crate::contracts::{FnContract, Stages};
use crate::{cfg_on, Ctx};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::BTreeMap;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn squash<T: ToTokens>(t: &T) -> String {
    // token text without spaces, except between two word characters
    let s = t.to_token_stream().to_string();
    let ch: Vec<char> = s.chars().collect();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    for (i, c) in ch.iter().enumerate() {
        if *c == ' ' || *c == '\n' {
            let p = o.chars().last().unwrap_or(' ');
            let n = ch[i + 1..].iter().find(|c| **c != ' ' && **c != '\n').copied().unwrap_or(' ');
            if w(p) && w(n) {
                o.push(' ');
            }
        } else {
            o.push(*c);
        }
    }
    o
}

// ---------------------------------------------------------------- use
fn flatten(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            flatten(&p.tree, v, out)
        }
        UseTree::Name(n) => {
            let mut v = pre;
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None))
        }
        UseTree::Rename(n) => {
            let mut v = pre;
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())))
        }
        UseTree::Glob(_) => {
            let mut v = pre;
            v.push("*".into());
            out.push((v, None))
        }
        UseTree::Group(g) => {
            for x in &g.items {
                flatten(x, pre.clone(), out)
            }
        }
    }
}
pub fn do_use(u: ItemUse, gone: &std::collections::BTreeSet<String>) -> TokenStream {
    let mut v = vec![];
    flatten(&u.tree, vec![], &mut v);
    let vis: Visibility = match u.vis {
        Visibility::Inherited => Visibility::Inherited,
        _ => parse_quote!(pub),
    };
    let mut out = TokenStream::new();
    for (mut p, rn) in v {
        if p.last().map_or(false, |x| gone.contains(x)) {
            continue;
        }
        let s: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        match s[0] {
            "async_trait" => continue,
            "std" | "core" | "alloc" if s.len() > 1 && (s[1] == "fmt" || s[1] == "error") => continue,
            "std" | "core" if s.len() > 1 && s[1] == "io" => {
                p.splice(0..1, ["crate".to_string(), "shim".to_string()]);
            }
            "futures" => {
                p.splice(0..1, ["crate".to_string(), "shim".to_string()]);
            }
            _ => {}
        }
        if p.len() == 1 && (p[0] == "self" || p[0] == "super") {
            continue;
        }
        let segs: Vec<TokenStream> = p
            .iter()
            .map(|x| if x == "*" { quote!(*) } else { let t: TokenStream = x.parse().unwrap(); t })
            .collect();
        let rn = rn.map(|r| { let r = format_ident!("{}", r); quote!(as #r) });
        out.extend(quote!(#vis use #(#segs)::* #rn ;));
    }
    out
}

// ---------------------------------------------------------------- macros
pub fn expand_macro(def: &ItemMacro, args: TokenStream) -> Option<TokenStream> {
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    // arms: Group => Group ;
    let mut i = 0;
    while i < toks.len() {
        let (TokenTree::Group(pat), TokenTree::Group(body)) = (toks.get(i)?.clone(), toks.get(i + 3)?.clone()) else { return None };
        i += 4;
        if let Some(TokenTree::Punct(p)) = toks.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
        if let Some(b) = match_pat(pat.stream(), args.clone()) {
            return Some(subst(body.stream(), &b));
        }
    }
    None
}
fn match_pat(pat: TokenStream, args: TokenStream) -> Option<BTreeMap<String, TokenStream>> {
    let p: Vec<TokenTree> = pat.into_iter().collect();
    let a: Vec<TokenTree> = args.into_iter().collect();
    let mut b = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    while i < p.len() {
        if let TokenTree::Punct(x) = &p[i] {
            if x.as_char() == '$' {
                let TokenTree::Ident(n) = p.get(i + 1)? else { return None };
                // $n : frag
                i += 4;
                let stop = p.get(i).map(|t| t.to_string());
                let mut ts = TokenStream::new();
                while j < a.len() && Some(a[j].to_string()) != stop {
                    ts.extend([a[j].clone()]);
                    j += 1;
                }
                b.insert(n.to_string(), ts);
                continue;
            }
        }
        if j >= a.len() || p[i].to_string() != a[j].to_string() {
            return None;
        }
        i += 1;
        j += 1;
    }
    (j == a.len()).then_some(b)
}
fn subst(ts: TokenStream, b: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    if let Some(t) = b.get(&n.to_string()) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), b));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

// ---------------------------------------------------------------- types / generics
struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().take(2).map(|s| s.ident.to_string()).collect();
        if s.len() == 2 && ((s[0] == "std" && s[1] == "io") || (s[0] == "futures" && s[1] == "io")) {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let mut np: Path = parse_quote!(crate::shim::io);
            np.segments.extend(rest);
            *p = np;
        }
    }
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        visit_mut::visit_type_reference_mut(self, t);
    }
}
pub fn fix_type(t: &mut Type) {
    TypeFix.visit_type_mut(t)
}
fn bound_name(b: &TypeParamBound) -> String {
    match b {
        TypeParamBound::Trait(t) => t.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}
fn fix_bounds(b: &mut Punctuated<TypeParamBound, Token![+]>) {
    let has_async = b.iter().any(|x| matches!(bound_name(x).as_str(), "AsyncRead" | "AsyncWrite"));
    let v: Vec<TypeParamBound> = b
        .iter()
        .filter(|x| {
            let n = bound_name(x);
            !(n == "Send" || n == "Sync" || n == "Unpin" || (has_async && (n == "VarIntAsyncReader" || n == "VarIntAsyncWriter")))
                && !matches!(x, TypeParamBound::Trait(t) if matches!(t.modifier, TraitBoundModifier::Maybe(_)))
        })
        .cloned()
        .collect();
    *b = v.into_iter().collect();
}
fn fix_generics(g: &mut Generics) {
    TypeFix.visit_generics_mut(g);
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            fix_bounds(&mut t.bounds);
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut np: Punctuated<WherePredicate, Token![,]> = Punctuated::new();
        for p in w.predicates.iter() {
            let mut p = p.clone();
            if let WherePredicate::Type(t) = &mut p {
                fix_bounds(&mut t.bounds);
                if t.bounds.is_empty() {
                    continue;
                }
            }
            np.push(p);
        }
        w.predicates = np;
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

// ---------------------------------------------------------------- structs / enums
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.clone() {
                    if let TokenTree::Ident(i) = t {
                        v.push(i.to_string());
                    }
                }
            }
        }
    }
    v
}
pub fn do_struct(cx: &mut Ctx, mut s: ItemStruct) -> TokenStream {
    let d = derives(&s.attrs);
    let name = s.ident.clone();
    cx.derive_eq.push((name.to_string(), d.clone()));
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    fix_generics(&mut s.generics);
    for f in s.fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
        fix_type(&mut f.ty);
    }
    let is_copy = d.iter().any(|x| x == "Copy");
    let mut out = TokenStream::new();
    if is_copy {
        out.extend(quote!(#[derive(Clone, Copy)]));
    }
    let mut post = TokenStream::new();
    if !is_copy && d.iter().any(|x| x == "Clone") && s.generics.params.is_empty() {
        post.extend(quote! {
            impl Clone for #name { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        });
    }
    if d.iter().any(|x| x == "Default") && name == "VarIntProcessor" {
        let mut ens = vec![];
        for f in s.fields.iter() {
            let id = f.ident.clone().unwrap();
            match &f.ty {
                Type::Array(_) => { let t = cx.raw(format!("(forall|i: int| 0 <= i < r.{}@.len() ==> r.{}@[i] == 0)", id, id)); ens.push(t) },
                _ => ens.push(quote!(r.#id == 0)),
            }
        }
        post.extend(quote! {
            impl Default for #name { #[verifier::external_body] fn default() -> (r: Self) ensures #(#ens),* { unimplemented!() } }
        });
    }
    out.extend(s.to_token_stream());
    out.extend(post);
    if let Some(a) = cx.c.after.get(&name.to_string()).cloned() {
        out.extend(cx.raw(a));
    }
    out
}
pub fn do_enum(cx: &mut Ctx, mut e: ItemEnum) -> TokenStream {
    let d = derives(&e.attrs);
    let name = e.ident.clone();
    cx.derive_eq.push((name.to_string(), d.clone()));
    e.attrs.clear();
    e.vis = parse_quote!(pub);
    let unit = e.variants.iter().all(|v| v.fields.is_empty());
    for v in e.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
            fix_type(&mut f.ty);
        }
    }
    let has = |x: &str| d.iter().any(|y| y == x);
    let mut out = TokenStream::new();
    let mut ds = vec![];
    if has("Copy") {
        ds.extend(["Clone", "Copy"]);
    }
    if unit && has("PartialEq") && has("Eq") {
        ds.extend(["PartialEq", "Eq"]);
    }
    if !ds.is_empty() {
        let ds: Vec<Ident> = ds.iter().map(|x| format_ident!("{}", x)).collect();
        out.extend(quote!(#[derive(#(#ds),*)]));
    }
    out.extend(e.to_token_stream());
    if unit && has("PartialEq") && has("Eq") {
        let id = &e.ident;
        out.extend(quote!(unsafe impl vstd::prelude::Structural for #id {}));
    }
    if let Some(a) = cx.c.after.get(&name.to_string()).cloned() {
        out.extend(cx.raw(a));
    }
    out
}

// ---------------------------------------------------------------- traits / impls
pub const HOIST: &[&str] = &["TInputProtocol", "TInputStreamProtocol"];

pub fn do_trait(cx: &mut Ctx, module: &str, mut t: ItemTrait) -> TokenStream {
    let name = t.ident.to_string();
    fix_generics(&mut t.generics);
    fix_bounds(&mut t.supertraits);
    if t.supertraits.is_empty() {
        t.colon_token = None;
    }
    let id = &t.ident;
    let gen = &t.generics;
    let wc = &t.generics.where_clause;
    let sup = &t.supertraits;
    let mut sup_s = sup.to_token_stream();
    if let Some(s) = cx.c.supers.get(&name) {
        let extra: TokenStream = s.parse().unwrap();
        sup_s = if sup.is_empty() { extra } else { quote!(#sup_s + #extra) };
    }
    let colon = if sup_s.is_empty() { quote!() } else { quote!(:) };
    let body = cx.c.bodies.get(&format!("trait {name}")).cloned().unwrap_or_default();
    let raw = cx.raw(body);
    let mut inner = TokenStream::new();
    let mut ext_decl = TokenStream::new();
    let mut ext_impl = TokenStream::new();
    for it in t.items {
        match it {
            TraitItem::Fn(f) => {
                if !cfg_on(&f.attrs) {
                    continue;
                }
                let key = format!("trait {name}::{}", f.sig.ident);
                if HOIST.contains(&name.as_str()) && f.default.is_some() {
                    ext_decl.extend(do_fn(cx, module, &key, None, f.sig.clone(), None, &f.attrs, Some(&name), false));
                    ext_impl.extend(do_fn(cx, module, &key, None, f.sig, f.default, &f.attrs, Some(&name), false));
                } else {
                    inner.extend(do_fn(cx, module, &key, None, f.sig, f.default, &f.attrs, Some(&name), true));
                }
            }
            o => inner.extend(o.to_token_stream()),
        }
    }
    let mut out = quote!(pub trait #id #gen #colon #sup_s #wc { #raw #inner });
    if !ext_decl.is_empty() {
        let ext = format_ident!("{}Ext", id);
        let b2 = cx.c.bodies.get(&format!("trait {ext}")).cloned().unwrap_or_default();
        let raw2 = cx.raw(b2);
        out.extend(quote!(pub trait #ext : #id { #raw2 #ext_decl } impl<P__: #id> #ext for P__ { #ext_impl }));
    }
    if let Some(a) = cx.c.after.get(&name).cloned() {
        out.extend(cx.raw(a));
    }
    out
}

const DROP_TRAITS: &[(&str, &str)] = &[
    ("Display", "human-readable text only"),
    ("Debug", "human-readable text only"),
    ("Seek", "std::io::Seek forwarding; not part of any property"),
];

/// sub-module of parquet_format that a reader or writer goes to (a verification unit of its own)
fn bucket(cx: &Ctx, module: &str, tr: &str, ty: &str, f: &str) -> String {
    if module != "parquet_format" {
        return String::new();
    }
    let ty = cx.c.buckets.get(ty).map_or("other", |s| s.as_str());
    match (tr, f) {
        ("ReadThrift", _) => format!("rs_{ty}"),
        ("AsyncReadThrift", _) => format!("ra_{ty}"),
        ("", "read_from_in_protocol") => format!("rs_{ty}"),
        ("", "stream_from_in_protocol") => format!("ra_{ty}"),
        ("", "write_to_out_protocol") => format!("ws_{ty}"),
        ("", "write_to_out_stream_protocol") => format!("wa_{ty}"),
        _ => String::new(),
    }
}

/// does the function belong to a reader or writer side left to another run?
fn other_part(cx: &Ctx, module: &str, tr: &str, ty: &str, f: &str) -> bool {
    if cx.c.parts.is_empty() || module != "parquet_format" {
        return false;
    }
    let b = bucket(cx, module, tr, ty, f);
    !b.is_empty() && !cx.c.parts.iter().any(|p| b.starts_with(p.as_str()))
}

pub fn do_impl(cx: &mut Ctx, module: &str, mut im: ItemImpl) -> Vec<(String, TokenStream)> {
    fix_generics(&mut im.generics);
    fix_type(&mut im.self_ty);
    let tr_name = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
    let ty_name = squash(&im.self_ty);
    let header = match &im.trait_ {
        Some(t) => {
            let seg = t.1.segments.last().unwrap();
            format!("{} for {}", squash(seg), ty_name)
        }
        None => ty_name.clone(),
    };
    if let Some((_, why)) = DROP_TRAITS.iter().find(|x| x.0 == tr_name) {
        cx.dropped.push(json!({"item": format!("impl {header}"), "reason": why}));
        return vec![];
    }
    if tr_name == "Error" {
        cx.dropped.push(json!({"item": format!("impl {header}"), "reason": "marker impl, no code"}));
        return vec![];
    }
    if let Some(why) = cx.c.drops.get(&header).cloned() {
        cx.dropped.push(json!({"item": format!("impl {header}"), "reason": why}));
        return vec![];
    }
    let gen = im.generics.clone();
    let (ig, _, wc) = gen.split_for_impl();
    let st = &im.self_ty;
    let trait_path = im.trait_.as_ref().map(|t| {
        let mut p = t.1.clone();
        TypeFix.visit_path_mut(&mut p);
        quote!(#p for)
    });
    let body = cx.c.bodies.get(&format!("impl {header}")).cloned().unwrap_or_default();
    let raw = cx.raw(body);
    let mut main = TokenStream::new();
    let mut over: Vec<ImplItemFn> = vec![];
    let mut res: Vec<(String, TokenStream)> = vec![];
    for it in im.items.clone() {
        match it {
            ImplItem::Fn(f) => {
                if !cfg_on(&f.attrs) {
                    continue;
                }
                let key = format!("<{header}>::{}", f.sig.ident);
                if let Some(why) = cx.c.drops.get(&key).cloned() {
                    cx.dropped.push(json!({"item": key, "reason": why}));
                    continue;
                }
                if other_part(cx, module, &tr_name, &ty_name, &f.sig.ident.to_string()) {
                    cx.used_keys.insert(key);
                    if im.trait_.is_some() {
                        return vec![];
                    }
                    continue;
                }
                if cx.defaults.get(&tr_name).map_or(false, |d| d.contains(&f.sig.ident.to_string())) {
                    over.push(f);
                    continue;
                }
                let vis: Option<Visibility> = if im.trait_.is_none() { Some(parse_quote!(pub)) } else { None };
                let fname = f.sig.ident.to_string();
                let ts = do_fn(cx, module, &key, vis, f.sig, Some(f.block), &f.attrs, Some(&ty_name), true);
                let b = bucket(cx, module, &tr_name, &ty_name, &fname);
                if let (false, Some(i)) = (b.is_empty(), cx.info_fns.last_mut()) {
                    i["module"] = json!(format!("{module}::{b}"));
                }
                if b.is_empty() || im.trait_.is_some() {
                    main.extend(ts);
                } else {
                    res.push((b, quote!(impl #ig #trait_path #st #wc { #ts })));
                }
            }
            ImplItem::Const(mut c) => {
                let key = format!("<{header}>::{}", c.ident);
                if c.ident == "ENUM_VALUES" {
                    cx.dropped.push(json!({"item": key, "reason": "slice constant; checked concretely by the harness only"}));
                    continue;
                }
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                main.extend(c.to_token_stream());
            }
            o => main.extend(o.to_token_stream()),
        }
    }
    // an impl's own version of a default method has to meet the default method's contract
    let names: Vec<String> = over.iter().map(|f| f.sig.ident.to_string()).collect();
    for mut f in over {
        let name = f.sig.ident.to_string();
        let key = format!("<{header}>::{name}");
        let dflt = cx.c.fns.get(&format!("trait {tr_name}::{name}")).cloned().unwrap_or_default();
        let own = cx.c.fns.get(&key).cloned().unwrap_or_default();
        cx.c.fns.insert(key.clone(), FnContract { ret: dflt.ret, attrs: own.attrs, spec: dflt.spec, start: dflt.start, nohints: own.nohints, ..Default::default() });
        struct Own<'a>(&'a [String]);
        impl<'a> VisitMut for Own<'a> {
            fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, m);
                if self.0.contains(&m.method.to_string()) && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    m.method = format_ident!("{}__ovr", m.method);
                }
            }
        }
        Own(&names).visit_block_mut(&mut f.block);
        f.sig.ident = format_ident!("{}__ovr", f.sig.ident);
        let t = format_ident!("{}Ovr{}", tr_name, cx.info_fns.len());
        let super_: Path = parse_str(&tr_name).unwrap();
        let decl = do_fn(cx, module, &key, None, f.sig.clone(), None, &f.attrs, Some(&ty_name), false);
        let body = do_fn(cx, module, &key, None, f.sig, Some(f.block), &f.attrs, Some(&ty_name), false);
        res.push((String::new(), quote!(pub trait #t: #super_ { #decl } impl #ig #t for #st #wc { #body })));
    }
    let b = if im.trait_.is_some() { bucket(cx, module, &tr_name, &ty_name, "") } else { String::new() };
    let t = quote!(impl #ig #trait_path #st #wc { #raw #main });
    // vstd gives `From` / `TryFrom` a functional contract switched on by `obeys_*`; the impls here
    // carry their own contracts instead, so it is switched off for them
    let spec = im.trait_.as_ref().and_then(|t| {
        let seg = t.1.segments.last().unwrap();
        let mut args = seg.arguments.clone();
        if let PathArguments::AngleBracketed(a) = &mut args {
            for x in a.args.iter_mut() {
                TypeFix.visit_generic_argument_mut(x);
            }
        }
        let a = match &args {
            PathArguments::AngleBracketed(a) => a.args.first().cloned(),
            _ => None,
        }?;
        match seg.ident.to_string().as_str() {
            "From" => Some(quote!(impl #ig vstd::std_specs::convert::FromSpecImpl #args for #st #wc {
                open spec fn obeys_from_spec() -> bool { false }
                open spec fn from_spec(v: #a) -> Self { arbitrary() }
            })),
            "TryFrom" => Some(quote!(impl #ig vstd::std_specs::convert::TryFromSpecImpl #args for #st #wc {
                open spec fn obeys_try_from_spec() -> bool { false }
                open spec fn try_from_spec(v: #a) -> std::result::Result<Self, Self::Error> { arbitrary() }
            })),
            _ => None,
        }
    });
    let t = quote!(#t #spec);
    res.insert(0, (b, t));
    res
}

// ---------------------------------------------------------------- functions
fn ret_is_option(o: &ReturnType) -> bool {
    if let ReturnType::Type(_, t) = o {
        if let Type::Path(p) = &**t {
            return p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false);
        }
    }
    false
}

/// the local that `x`, `x.m()?`, `(x)` and the like start from
fn root_local(e: &Expr) -> Option<String> {
    let mut x = e;
    loop {
        match x {
            Expr::MethodCall(m) => x = &m.receiver,
            Expr::Try(t) => x = &t.expr,
            Expr::Paren(p) => x = &p.expr,
            Expr::Path(p) => return p.path.get_ident().map(|i| i.to_string()),
            _ => return None,
        }
    }
}

struct Names {
    fields: BTreeMap<String, String>,
    /// local -> the local its initialiser starts from (`let key = f_1.expect(..)`)
    from: BTreeMap<String, String>,
    locals_by_type: BTreeMap<String, String>,
    zero: Option<String>,
    /// the `let mut` locals, in order
    muts: Vec<String>,
    acc: Option<String>,
    ret_ty: String,
}
impl<'a> Visit<'a> for Names {
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        if let (BinOp::AddAssign(_), Expr::Path(p)) = (&e.op, &*e.left) {
            if self.acc.is_none() {
                self.acc = p.path.get_ident().map(|i| i.to_string());
            }
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Pat::Type(pt) = &l.pat {
            if let Pat::Ident(i) = &*pt.pat {
                self.locals_by_type.entry(squash(&pt.ty)).or_insert(i.ident.to_string());
            }
        }
        let pid = match &l.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            Pat::Type(pt) => match &*pt.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        let im = match &l.pat {
            Pat::Ident(i) => Some(i),
            Pat::Type(pt) => match &*pt.pat {
                Pat::Ident(i) => Some(i),
                _ => None,
            },
            _ => None,
        };
        if let Some(i) = im.filter(|i| i.mutability.is_some()) {
            self.muts.push(i.ident.to_string());
        }
        if let (Some(i), Some(init)) = (pid, &l.init) {
            if let Some(y) = root_local(&init.expr) {
                if y != i && y != "None" {
                    self.from.entry(i.clone()).or_insert(y);
                }
            }
            if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &*init.expr {
                if n.base10_digits() == "0" && self.zero.is_none() {
                    self.zero = Some(i);
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_struct(&mut self, e: &'a ExprStruct) {
        let n = e.path.segments.last().unwrap().ident.to_string();
        if n == self.ret_ty || n == "Self" {
            for f in &e.fields {
                if let (Some(mut i), Member::Named(m)) = (root_local(&f.expr), &f.member) {
                    for _ in 0..4 {
                        if let Some(y) = self.from.get(&i) {
                            i = y.clone();
                        }
                    }
                    self.fields.insert(m.to_string(), i);
                }
            }
        }
        visit::visit_expr_struct(self, e);
    }
}

#[allow(clippy::too_many_arguments)]
pub fn do_fn(
    cx: &mut Ctx,
    module: &str,
    key: &str,
    vis: Option<Visibility>,
    mut sig: Signature,
    block: Option<Block>,
    attrs: &[Attribute],
    _self_ty: Option<&str>,
    with_spec: bool,
) -> TokenStream {
    let _ = attrs;
    let had = cx.c.fns.get(key).cloned().map(|c| {
        if !c.nohints {
            return c;
        }
        FnContract { start: String::new(), end: String::new(), loops: Default::default(), stages: None, ..c }
    });
    let fc = had.clone().unwrap_or_default();
    if had.is_some() {
        cx.used_keys.insert(key.to_string());
    }
    let was_async = sig.asyncness.take().is_some();
    fix_generics(&mut sig.generics);
    // parameters
    let mut argn = vec![];
    let mut k = 0;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = a {
            p.attrs.clear();
            fix_type(&mut p.ty);
            let nm = match &*p.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => {
                    let n = format!("arg{k}__");
                    let id = format_ident!("{}", n);
                    p.pat = Box::new(parse_quote!(#id));
                    n
                }
            };
            argn.push(nm);
            k += 1;
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        fix_type(t);
    }
    let ret_ty = match &sig.output {
        ReturnType::Type(_, t) => squash(t),
        _ => "()".into(),
    };
    // last path ident inside Result<..>
    let inner_ret = {
        let s = ret_ty.rsplit("Result<").next().unwrap_or("").trim_end_matches('>').to_string();
        s.split(',').next().unwrap_or("").to_string()
    };
    let mut names = Names { fields: Default::default(), from: Default::default(), locals_by_type: Default::default(), zero: None, muts: vec![], acc: None, ret_ty: inner_ret };
    let mut loops: Vec<(String, String)> = vec![];
    let mut body_ts = None;
    let mut callees: Vec<String> = vec![];
    let mut problems: Vec<serde_json::Value> = vec![];
    if let Some(mut b) = block {
        names.visit_block(&b);
        let groups = fc.stages.as_ref().and_then(|s| stage_groups(s, &b));
        let arms = fc.stages.as_ref().and_then(|s| if s.from == "match" { match_arms(s, &b) } else { None });
        if fc.stages.as_ref().map_or(false, |s| s.from != "match") && groups.is_none() {
            problems.push(json!({"kind": "lost-anchor", "fn": key, "placeholder": "stages"}));
        }
        let phs = Ph { args: argn.clone(), names: &names };
        let mut bf = BodyFix {
            cx,
            key: key.to_string(),
            fc: fc.clone(),
            opt: ret_is_option(&sig.output),
            loops: vec![],
            ph: &phs,
            problems: vec![],
            callees: vec![],
            closure: 0,
        };
        bf.visit_block_mut(&mut b);
        loops = bf.loops.clone();
        problems.append(&mut bf.problems);
        callees = std::mem::take(&mut bf.callees);
        let st = phs.sub(&fc.start, &mut problems, key);
        let start = cx.raw(st);
        let endt = fc.end.clone();
        let mut arm_ts: Option<(usize, TokenStream)> = None;
        if let (Some(sg), Some((at, arms))) = (&fc.stages, &arms) {
            let mut x = None;
            if let Stmt::Expr(Expr::Match(m), _) = &b.stmts[*at] {
                let mut ts = vec![];
                for (a, (name, bind)) in m.arms.iter().zip(arms) {
                    let f = |t: &str| t.replace("$arm", name).replace("$bind", bind);
                    let (inv, st) = (phs.sub(&f(&sg.inv), &mut problems, key), phs.sub(&f(&sg.start), &mut problems, key));
                    let (inv, st) = (cx.raw(inv), cx.raw(st));
                    let (pat, body) = (&a.pat, &a.body);
                    ts.push(quote!(#pat => { loop #inv { #st #body; break; } }));
                }
                let e = &m.expr;
                x = Some(quote!(match #e { #(#ts,)* }));
            }
            arm_ts = x.map(|x| (*at, x));
        }
        let mut stmts: Vec<TokenStream> = b.stmts.iter().map(|s| quote!(#s)).collect();
        if let Some((at, x)) = arm_ts {
            stmts[at] = x;
        }
        if let (Some(sg), Some(groups)) = (&fc.stages, &groups) {
            for (k, (lo, hi)) in groups.iter().enumerate() {
                let f = |t: &str| t.replace("$k", &(k + 1).to_string()).replace("$j", &k.to_string());
                let (inv, st) = (phs.sub(&f(&sg.inv), &mut problems, key), phs.sub(&f(&sg.start), &mut problems, key));
                let (inv, st) = (cx.raw(inv), cx.raw(st));
                let g: Vec<TokenStream> = stmts[*lo..*hi].to_vec();
                stmts[*lo] = quote!(loop #inv { #st #(#g)* break; });
                for s in &mut stmts[lo + 1..*hi] {
                    *s = quote!();
                }
            }
        }
        if endt.trim().is_empty() {
            body_ts = Some(quote!({ #start #(#stmts)* }));
        } else {
            let e = phs.sub(&endt, &mut problems, key);
            let e = cx.raw(e);
            let n = stmts.len();
            let (pre, tail): (&[TokenStream], Option<&Expr>) = match b.stmts.last() {
                Some(Stmt::Expr(x, None)) => (&stmts[..n - 1], Some(x)),
                _ => (&stmts[..], None),
            };
            body_ts = Some(match tail {
                Some(t) => quote!({ #start #(#pre)* let ret__ = #t; #e ret__ }),
                None => quote!({ #start #(#pre)* #e }),
            });
        }
    }
    let phs = Ph { args: argn.clone(), names: &names };
    let full_spec = phs.sub(&fc.spec, &mut problems, key);
    let (contract, dec) = match full_spec.find("    decreases ") {
        Some(p) => (full_spec[..p].to_string(), full_spec[p..].to_string()),
        None => (full_spec.clone(), String::new()),
    };
    let spec = match (with_spec, body_ts.is_some()) {
        (true, true) => full_spec.clone(),
        (_, false) => contract,
        (false, true) => dec,
    };
    let has_spec = !fc.spec.trim().is_empty();
    let h = {
        let mut x: u64 = 1469598103934665603;
        for b in body_ts.as_ref().map(|t| t.to_string()).unwrap_or_default().bytes() {
            x = (x ^ b as u64).wrapping_mul(1099511628211);
        }
        format!("{x:016x}")
    };
    let has_body = body_ts.is_some();
    if has_body {
        cx.info_fns.push(json!({
            "key": key, "module": module, "contract": had.is_some() && (has_spec || key.starts_with('<')), "in_file": had.is_some(),
            "async": was_async, "loops": loops.iter().map(|l| l.0.clone()).collect::<Vec<_>>(),
            "hash": h, "calls": callees,
        }));
    }
    cx.problems.extend(problems);
    let attr: TokenStream = fc.attrs.parse().unwrap();
    let spec_raw = cx.raw(spec);
    let id = &sig.ident;
    let gp = &sig.generics.params;
    let gen = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
    let wc = &sig.generics.where_clause;
    let inputs = &sig.inputs;
    let ret = format_ident!("{}", if fc.ret.is_empty() { "r" } else { &fc.ret });
    let out = match &sig.output {
        ReturnType::Default => quote!(),
        ReturnType::Type(_, t) => quote!(-> (#ret: #t)),
    };
    let marker_s = format!("//@@FN {key} {}\n", if has_body { "body" } else { "decl" });
    let marker = cx.raw(marker_s);
    // a function whose contract is assumed in this run: nothing of its body is needed, nor can be relied on to be accepted
    let assumed = has_body && fc.attrs.contains("external_body");
    let dflt = with_spec && key.starts_with("trait ");
    let bd = if assumed && dflt {
        let t = cx.raw("proof { assume(false); }".into());
        quote!({ #t crate::shim::panic_() })
    } else if assumed {
        quote!({ unimplemented!() })
    } else {
        body_ts.unwrap_or(quote!(;;))
    };
    let attr: TokenStream = if assumed && dflt || !has_body { fc.attrs.replace("#[verifier::external_body]", "").parse().unwrap() } else { attr };
    let attr = if has_body && !with_spec { attr } else { attr };
    quote!(#marker #attr #vis fn #id #gen (#inputs) #out #wc #spec_raw #bd)
}

/// the statement ranges of the stages
fn stage_groups(sg: &Stages, b: &Block) -> Option<Vec<(usize, usize)>> {
    struct Count<'x>(&'x str, usize);
    impl<'a, 'x> Visit<'a> for Count<'x> {
        fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
            if e.method == self.0 {
                self.1 += 1;
            }
            visit::visit_expr_method_call(self, e);
        }
    }
    let count = |m: &str, s: &Stmt| {
        let mut c = Count(m, 0);
        c.visit_stmt(s);
        c.1
    };
    let mut at = b.stmts.iter().position(|s| count(&sg.from, s) == 1)? + 1;
    let mut out = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        match count(&sg.to, s) {
            0 => {}
            1 if i >= at && i + 1 < b.stmts.len() => {
                out.push((at, i + 1));
                at = i + 1;
            }
            _ => return None,
        }
    }
    if out.len() == sg.n { Some(out) } else { None }
}

/// position of the top-level `match` statement, and variant and binding of each of its arms
fn match_arms(sg: &Stages, b: &Block) -> Option<(usize, Vec<(String, String)>)> {
    let at = b.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::Match(_), _)))?;
    let Stmt::Expr(Expr::Match(m), _) = &b.stmts[at] else { return None };
    if m.arms.len() != sg.n || at + 1 == b.stmts.len() {
        return None;
    }
    let mut out = vec![];
    for a in &m.arms {
        match &a.pat {
            Pat::TupleStruct(t) if a.guard.is_none() && t.elems.len() == 1 => match &t.elems[0] {
                Pat::Ident(i) => out.push((t.path.segments.last()?.ident.to_string(), i.ident.to_string())),
                _ => return None,
            },
            _ => return None,
        }
    }
    Some((at, out))
}

struct Ph<'a> {
    args: Vec<String>,
    names: &'a Names,
}
impl<'a> Ph<'a> {
    fn sub(&self, t: &str, problems: &mut Vec<serde_json::Value>, key: &str) -> String {
        let mut out = String::new();
        let mut rest = t;
        while let Some(p) = rest.find("${") {
            out.push_str(&rest[..p]);
            let e = rest[p..].find('}').unwrap() + p;
            let w = &rest[p + 2..e];
            let (kind, arg) = w.split_once(':').unwrap_or((w, ""));
            let v = match kind {
                "arg" => self.args.get(arg.parse::<usize>().unwrap()).cloned(),
                "field" => self.names.fields.get(arg).cloned(),
                "local" => self.names.locals_by_type.get(arg).cloned(),
                "mut" => self.names.muts.get(arg.parse::<usize>().unwrap()).cloned(),
                "zero" => self.names.zero.clone().or(self.names.acc.clone()),
                "acc" => self.names.acc.clone(),
                _ => None,
            };
            match v {
                Some(v) => out.push_str(&v),
                None => {
                    problems.push(json!({"kind": "lost-anchor", "fn": key, "placeholder": w}));
                    out.push_str("LOST_ANCHOR");
                }
            }
            rest = &rest[e + 1..];
        }
        out.push_str(rest);
        out
    }
}

struct BodyFix<'c, 'p> {
    cx: &'c mut Ctx,
    key: String,
    fc: FnContract,
    opt: bool,
    loops: Vec<(String, String)>,
    ph: &'p Ph<'p>,
    problems: Vec<serde_json::Value>,
    callees: Vec<String>,
    closure: usize,
}

fn refs_var_ops(body: &mut Block, v: &str) {
    struct A<'a>(&'a str);
    impl<'a> A<'a> {
        fn is(&self, e: &Expr) -> bool {
            matches!(e, Expr::Path(p) if p.path.is_ident(self.0))
        }
    }
    impl<'a> VisitMut for A<'a> {
        fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
            visit_mut::visit_expr_binary_mut(self, b);
            use BinOp::*;
            if matches!(b.op, BitAnd(_) | BitOr(_) | BitXor(_) | Add(_) | Sub(_) | Mul(_) | Shl(_) | Shr(_) | Div(_) | Rem(_)) {
                if self.is(&b.left) {
                    let l = &b.left;
                    b.left = Box::new(parse_quote!((*#l)));
                }
                if self.is(&b.right) {
                    let l = &b.right;
                    b.right = Box::new(parse_quote!((*#l)));
                }
            }
        }
    }
    A(v).visit_block_mut(body);
}

impl<'c, 'p> BodyFix<'c, 'p> {
    fn loop_parts(&mut self, kind: &str, var: &str, hi: &str) -> (TokenStream, TokenStream, TokenStream, TokenStream, TokenStream, usize) {
        let n = self.loops.len();
        self.loops.push((kind.to_string(), var.to_string()));
        let lc = self.fc.loops.get(&n).cloned();
        if let Some(lc) = &lc {
            if !lc.kind.is_empty() && lc.kind != kind {
                self.problems.push(json!({"kind":"lost-anchor","fn":self.key,"loop":n,"expected":lc.kind,"found":kind}));
                self.fc.loops.remove(&n);
            }
        } else {
            self.problems.push(json!({"kind":"loop-without-invariant","fn":self.key,"loop":n,"found":kind}));
        }
        let lc = lc.filter(|l| l.kind.is_empty() || l.kind == kind).unwrap_or_default();
        let key = self.key.clone();
        let mut pr = vec![];
        let mut f = |s: &str| self.ph.sub(s, &mut pr, &key).replace("$v", var).replace("$it", &format!("it{n}")).replace("$hibase", hi.split('.').next().unwrap_or("")).replace("$hi", hi);
        let (a, b, c, d, bf) = (f(&lc.inv), f(&lc.start), f(&lc.end), f(&lc.after), f(&lc.before));
        self.problems.extend(pr);
        (self.cx.raw(a), self.cx.raw(b), self.cx.raw(c), self.cx.raw(d), self.cx.raw(bf), n)
    }
}

fn pure_pat(p: &Pat) -> Pat {
    match p {
        Pat::Wild(_) => parse_quote!(_x__),
        Pat::Type(t) => pure_pat(&t.pat),
        o => o.clone(),
    }
}

impl<'c, 'p> VisitMut for BodyFix<'c, 'p> {
    fn visit_item_mut(&mut self, _: &mut Item) {
        self.problems.push(json!({"kind":"unsupported","what":"nested item","fn":self.key}));
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        fix_type(t)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        TypeFix.visit_path_mut(p)
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let mut e2 = e;
            self.visit_expr_mut(&mut e2);
            *s = Stmt::Expr(e2, m.semi_token);
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Await(a) => {
                let mut b = (*a.base).clone();
                self.visit_expr_mut(&mut b);
                *e = b;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let new: Expr = match name.as_str() {
                    "format" => parse_quote!(crate::shim::fmt_string()),
                    "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote!(crate::shim::panic_()),
                    "assert" | "debug_assert" => {
                        let args = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).unwrap();
                        let mut c = args[0].clone();
                        self.visit_expr_mut(&mut c);
                        parse_quote!(crate::shim::assert_(#c))
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let args = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).unwrap();
                        let (mut a, mut b) = (args[0].clone(), args[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        parse_quote!(crate::shim::assert_(#a == #b))
                    }
                    "matches" => {
                        let t = m.mac.tokens.clone();
                        let p: std::result::Result<(Expr, Pat, Option<Expr>), _> = syn::parse::Parser::parse2(
                            |i: syn::parse::ParseStream| {
                                let a: Expr = i.parse()?;
                                let _: Token![,] = i.parse()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                                let _: Option<Token![,]> = i.parse()?;
                                Ok((a, p, g))
                            },
                            t,
                        );
                        match p {
                            Ok((mut a, p, g)) => {
                                self.visit_expr_mut(&mut a);
                                let g = g.map(|g| quote!(if #g));
                                parse_quote!(match #a { #p #g => true, _ => false })
                            }
                            Err(_) => return,
                        }
                    }
                    "vec" => {
                        let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        let semi = ts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';'));
                        if let Some(p) = semi {
                            let a: TokenStream = ts[..p].iter().cloned().collect();
                            let n: TokenStream = ts[p + 1..].iter().cloned().collect();
                            let a: Expr = parse2(a).unwrap();
                            let mut n: Expr = parse2(n).unwrap();
                            self.visit_expr_mut(&mut n);
                            let al = self.alloc("n__");
                            parse_quote!({ let n__: usize = #n; #al vec![#a; n__] })
                        } else if ts.is_empty() {
                            parse_quote!(Vec::new())
                        } else {
                            return;
                        }
                    }
                    _ => {
                        self.problems.push(json!({"kind":"unsupported","what":format!("macro {name}"),"fn":self.key}));
                        return;
                    }
                };
                *e = new;
            }
            Expr::Try(t) => {
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                if self.closure > 0 {
                    self.problems.push(json!({"kind":"unsupported","what":"? in closure","fn":self.key}));
                }
                *e = if self.opt { parse_quote!((#x)?) } else {
                    Expr::Verbatim(quote!((match #x { Ok(v__) => v__, Err(e__) => return Err(From::from(e__)) })))
                };
            }
            Expr::Path(p) if p.qself.is_none() && matches!(squash(&p.path).as_str(), "u64::from_le_bytes" | "u64::from_be_bytes") => {
                let n = format_ident!("u64_{}", p.path.segments[1].ident);
                *e = parse_quote!(crate::shim::#n);
            }
            Expr::Path(p) if p.qself.is_none() && matches!(squash(&p.path).as_str(), "u64::to_le_bytes" | "u64::to_be_bytes" | "f64::to_le_bytes" | "f64::to_be_bytes") => {
                let n = &p.path.segments[1].ident;
                *e = parse_quote!(crate::shim::LeBytes::#n);
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "to_le_bytes" || m.method == "to_be_bytes") => {
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let n = &m.method;
                *e = parse_quote!(crate::shim::LeBytes::#n(#recv));
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                if let Some(n) = self.combinator(m, &name, &recv, &args) {
                    *e = Expr::Verbatim(n);
                    return;
                }
                if name == "to_string" && !matches!(recv, Expr::Lit(_)) {
                    *e = parse_quote!(crate::shim::fmt_string());
                    return;
                }
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let Some(t) = &mut m.turbofish {
                    for a in t.args.iter_mut() {
                        TypeFix.visit_generic_argument_mut(a);
                    }
                }
                self.callees.push(format!(".{name}"));
                if ["try_reserve", "reserve", "reserve_exact", "try_reserve_exact"].contains(&name.as_str()) && args.len() == 1 {
                    let al = self.alloc("n__");
                    let (tf, a, mm) = (&m.turbofish, &args[0], &m.method);
                    *e = parse_quote!({ let n__: usize = #a; #al #recv.#mm #tf(n__) });
                    return;
                }
                m.receiver = Box::new(recv);
                m.args = args.into_iter().collect();
            }
            Expr::Call(c) => {
                let f = squash(&c.func);
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.visit_expr_mut(&mut c.func);
                self.callees.push(f.clone());
                if f.ends_with("::with_capacity") && c.args.len() == 1 {
                    let al = self.alloc("n__");
                    let (ff, a) = (&c.func, &c.args[0]);
                    *e = parse_quote!({ let n__: usize = #a; #al #ff(n__) });
                }
            }
            Expr::Closure(c) => {
                // nothing is known about what a closure returns
                self.callees.push("|closure|".into());
                self.closure += 1;
                for p in c.inputs.iter_mut() {
                    let np: Pat = match &*p { Pat::Wild(_) => parse_quote!(_x__), o => o.clone() };
                    *p = np;
                }
                self.visit_expr_mut(&mut c.body);
                self.closure -= 1;
            }
            Expr::ForLoop(f) => {
                // `for &x in ..` is `for x_ref in .. { let x = *x_ref; .. }`
                if let Pat::Reference(r) = &*f.pat {
                    let (inner, v) = (&r.pat, format_ident!("r{}__", self.loops.len()));
                    let st: Stmt = parse_quote!(let #inner = *#v;);
                    f.body.stmts.insert(0, st);
                    f.pat = parse_quote!(#v);
                }
                let var = match &*f.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    Pat::Wild(_) => format!("_i{}__", self.loops.len()),
                    _ => "PAT".into(),
                };
                let kind = match &*f.expr {
                    Expr::Range(_) => "for-range",
                    Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)) => "for-range",
                    _ => "for-ref",
                };
                let hi = match &*f.expr {
                    Expr::Range(r) => r.end.as_ref().map(squash),
                    Expr::Paren(p) => match &*p.expr { Expr::Range(r) => r.end.as_ref().map(squash), _ => None },
                    o => Some(squash(o)),
                }.unwrap_or_default();
                let (inv, st, en, af, bf, n) = self.loop_parts(kind, &var, &hi);
                self.visit_expr_mut(&mut f.expr);
                if kind == "for-ref" {
                    refs_var_ops(&mut f.body, &var);
                }
                self.visit_block_mut(&mut f.body);
                let pat: TokenStream = if matches!(&*f.pat, Pat::Wild(_)) {
                    let v = format_ident!("{}", var);
                    quote!(#v)
                } else {
                    f.pat.to_token_stream()
                };
                let (it, x, stmts, lb) = (format_ident!("it{}", n), &f.expr, &f.body.stmts, &f.label);
                *e = Expr::Verbatim(quote!(#bf #lb for #pat in #it : #x #inv { #st #(#stmts)* #en } #af));
            }
            Expr::While(w) => {
                let (inv, st, en, af, bf, _) = self.loop_parts("while", "", "");
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, stmts, lb) = (&w.cond, &w.body.stmts, &w.label);
                *e = Expr::Verbatim(quote!(#bf #lb while #c #inv { #st #(#stmts)* #en } #af));
            }
            Expr::Loop(l) => {
                let (inv, st, en, af, bf, _) = self.loop_parts("loop", "", "");
                self.visit_block_mut(&mut l.body);
                let (stmts, lb) = (&l.body.stmts, &l.label);
                *e = Expr::Verbatim(quote!(#bf #lb loop #inv { #st #(#stmts)* #en } #af));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl<'c, 'p> BodyFix<'c, 'p> {
    fn alloc(&mut self, n: &str) -> TokenStream {
        let a = self.fc.assoc.join("\n");
        if a.trim().is_empty() {
            self.problems.push(json!({"kind":"allocation-without-contract","fn":self.key}));
            return quote!();
        }
        let key = self.key.clone();
        let a = self.ph.sub(&a, &mut self.problems, &key).replace("$n", n);
        let r = self.cx.raw(a);
        quote!(#r;)
    }
}

/// does the body of a closure leave it early (so that it cannot be written in place of the call)?
fn leaves(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) { self.0 = true; }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
/// the last call of a receiver, when it tells what the receiver is: Some(true) an option, Some(false) a result
fn kind_of(e: &Expr) -> Option<bool> {
    match e {
        Expr::Paren(p) => kind_of(&p.expr),
        Expr::Await(a) => kind_of(&a.base),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n.starts_with("checked_") || ["ok", "err", "get", "get_mut", "pop", "take", "first", "last", "then", "then_some", "copied", "cloned", "zip", "filter", "position", "find", "next", "xor", "or_insert", "is_some_then", "split_first", "split_last", "strip_prefix"].contains(&n.as_str()) {
                Some(true)
            } else if n.starts_with("read_") || n.starts_with("write_") || n.starts_with("try_") || ["ok_or", "ok_or_else", "map_err", "flush", "skip", "skip_till_depth", "charge", "update_remaining"].contains(&n.as_str()) {
                Some(false)
            } else if ["map", "and_then", "or_else", "or", "and", "as_ref", "as_mut", "inspect"].contains(&n.as_str()) {
                kind_of(&m.receiver)
            } else {
                None
            }
        }
        Expr::Call(c) => {
            let f = squash(&c.func);
            if f == "Some" || f.contains("decode_var") { Some(true) } else if f == "Ok" || f == "Err" || f.ends_with("try_from") || f.ends_with("from_utf8") { Some(false) } else { None }
        }
        Expr::Path(p) if p.path.is_ident("None") => Some(true),
        _ => None,
    }
}
impl<'x, 'y> BodyFix<'x, 'y> {
    /// `Option` and `Result` combinators as the matches they stand for
    fn combinator(&mut self, m: &ExprMethodCall, name: &str, recv: &Expr, args: &[Expr]) -> Option<TokenStream> {
        const NAMES: &[&str] = &["map", "map_err", "ok_or_else", "and_then", "unwrap_or_else", "unwrap_or", "or_else", "is_some_and", "is_none_or", "is_ok_and", "is_err_and", "filter", "then", "map_or", "map_or_else"];
        if !NAMES.contains(&name) || args.is_empty() || args.len() > 2 || (args.len() == 2) != name.starts_with("map_or") {
            return None;
        }
        let f = args.last().unwrap().clone();
        for a in args {
            if let Expr::Closure(c) = a {
                if leaves(&c.body) || c.asyncness.is_some() {
                    return None;
                }
            }
        }
        let params = |e: &Expr| match e { Expr::Closure(c) => Some(c.inputs.len()), _ => None };
        // f applied to v (or to nothing)
        fn app(s: &mut BodyFix, f: &Expr, v: Option<TokenStream>) -> TokenStream {
            match f {
                Expr::Closure(c) => {
                    let mut b = (*c.body).clone();
                    s.visit_expr_mut(&mut b);
                    match (c.inputs.first().map(pure_pat), v) {
                        (Some(p), Some(v)) => quote!({ let #p = #v; #b }),
                        _ => quote!({ #b }),
                    }
                }
                f => {
                    let mut f = f.clone();
                    s.visit_expr_mut(&mut f);
                    if let Expr::Path(_) = &f { s.callees.push(squash(&f)); }
                    match v { Some(v) => quote!(#f(#v)), None => quote!(#f()) }
                }
            }
        }
        let opt = kind_of(&m.receiver).unwrap_or(self.opt || self.key.ends_with("::new"));
        let v = Some(quote!(v__));
        let ev = Some(quote!(e__));
        Some(match name {
            "map" if opt => { let b = app(self, &f, v); quote!((match #recv { Some(v__) => Some(#b), None => None })) }
            "map" => { let b = app(self, &f, v); quote!((match #recv { Ok(v__) => Ok(#b), Err(e__) => Err(e__) })) }
            "and_then" if opt => { let b = app(self, &f, v); quote!((match #recv { Some(v__) => #b, None => None })) }
            "and_then" => { let b = app(self, &f, v); quote!((match #recv { Ok(v__) => #b, Err(e__) => Err(e__) })) }
            "map_err" => { let b = app(self, &f, ev); quote!((match #recv { Ok(v__) => Ok(v__), Err(e__) => Err(#b) })) }
            "ok_or_else" => { let b = app(self, &f, None); quote!((match #recv { Some(v__) => Ok(v__), None => Err(#b) })) }
            "unwrap_or" if !opt => { let d = { let mut d = f.clone(); self.visit_expr_mut(&mut d); d }; quote!((match (#recv, #d) { (Ok(v__), d__) => v__, (Err(e__), d__) => d__ })) }
            "unwrap_or_else" if params(&f) == Some(0) => { let b = app(self, &f, None); quote!((match #recv { Some(v__) => v__, None => #b })) }
            "unwrap_or_else" if params(&f) == Some(1) => { let b = app(self, &f, ev); quote!((match #recv { Ok(v__) => v__, Err(e__) => #b })) }
            "or_else" if params(&f) == Some(0) => { let b = app(self, &f, None); quote!((match #recv { Some(v__) => Some(v__), None => #b })) }
            "or_else" if params(&f) == Some(1) => { let b = app(self, &f, ev); quote!((match #recv { Ok(v__) => Ok(v__), Err(e__) => #b })) }
            "is_some_and" => { let b = app(self, &f, v); quote!((match #recv { Some(v__) => #b, None => false })) }
            "is_none_or" => { let b = app(self, &f, v); quote!((match #recv { Some(v__) => #b, None => true })) }
            "is_ok_and" => { let b = app(self, &f, v); quote!((match #recv { Ok(v__) => #b, Err(_) => false })) }
            "is_err_and" => { let b = app(self, &f, ev); quote!((match #recv { Ok(_) => false, Err(e__) => #b })) }
            "filter" => { let b = app(self, &f, Some(quote!(&v__))); quote!((match #recv { Some(v__) => if #b { Some(v__) } else { None }, None => None })) }
            "then" if params(&f) == Some(0) => { let b = app(self, &f, None); quote!((if #recv { Some(#b) } else { None })) }
            "map_or" => {
                let d = { let mut d = args[0].clone(); self.visit_expr_mut(&mut d); d };
                let b = app(self, &f, v);
                quote!((match (crate::shim::ToOpt::to_opt(#recv), #d) { (Some(v__), d__) => #b, (None, d__) => d__ }))
            }
            "map_or_else" if params(&args[0]) == Some(0) => {
                let (d, b) = (app(self, &args[0], None), app(self, &f, v));
                quote!((match #recv { Some(v__) => #b, None => #d }))
            }
            "map_or_else" if params(&args[0]) == Some(1) => {
                let (d, b) = (app(self, &args[0], ev), app(self, &f, v));
                quote!((match #recv { Ok(v__) => #b, Err(e__) => #d }))
            }
            _ => return None,
        })
    }
}
