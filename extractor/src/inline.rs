//! Calls of functions that the baseline does not know (helpers split off by an edit) are replaced by the helper's body,
//! so that the function that calls it is verified under its own contract.  Only shapes whose meaning is plain are taken:
//! anything else is left alone (and the run is then degraded, as before).
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct Def {
    file: PathBuf,
    owner: String,
    sig: Signature,
    block: Block,
    nested_in: String,
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Plain,
    Try,
    Tail,
}

pub struct Inliner {
    defs: BTreeMap<String, Vec<Def>>,
    count: usize,
    pub done: BTreeSet<String>,
    io_result: BTreeSet<PathBuf>,
}

fn base(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => base(&r.elem),
        _ => String::new(),
    }
}

fn walk_items(items: &mut Vec<Item>, f: &mut dyn FnMut(&str, &mut Vec<Attribute>, &mut Signature, &mut Block)) {
    for it in items {
        match it {
            Item::Fn(x) => f("", &mut x.attrs, &mut x.sig, &mut x.block),
            Item::Mod(m) => {
                if crate::cfg_on(&m.attrs) {
                    if let Some((_, i)) = &mut m.content {
                        walk_items(i, f)
                    }
                }
            }
            Item::Impl(i) => {
                let o = base(&i.self_ty);
                for x in &mut i.items {
                    if let ImplItem::Fn(x) = x {
                        f(&o, &mut x.attrs, &mut x.sig, &mut x.block)
                    }
                }
            }
            Item::Trait(t) => {
                let o = format!("trait {}", t.ident);
                for x in &mut t.items {
                    if let TraitItem::Fn(x) = x {
                        if let Some(b) = &mut x.default {
                            f(&o, &mut x.attrs, &mut x.sig, b)
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// the methods of impls of traits are not candidates
fn trait_impl_names(items: &[Item], out: &mut BTreeSet<String>) {
    for it in items {
        match it {
            Item::Impl(i) if i.trait_.is_some() => {
                for x in &i.items {
                    if let ImplItem::Fn(x) = x {
                        out.insert(x.sig.ident.to_string());
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(x) = x {
                        if x.default.is_none() {
                            out.insert(x.sig.ident.to_string());
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    trait_impl_names(i, out)
                }
            }
            _ => {}
        }
    }
}

pub fn run(files: &mut BTreeMap<PathBuf, File>, known: &BTreeSet<String>) -> (BTreeSet<String>, Vec<String>) {
    let mut il = Inliner { defs: Default::default(), count: 0, done: Default::default(), io_result: Default::default() };
    let mut traits = BTreeSet::new();
    for f in files.values() {
        trait_impl_names(&f.items, &mut traits);
    }
    for (p, f) in files.iter_mut() {
        for i in &f.items {
            if let Item::Use(u) = i {
                let t = u.to_token_stream().to_string().replace(' ', "");
                if t.contains("io::Result") || t.contains("io::{") && t.contains("Result") {
                    il.io_result.insert(p.clone());
                }
            }
        }
        let mut found: Vec<Def> = vec![];
        walk_items(&mut f.items, &mut |o, attrs, sig, block| {
            if !crate::cfg_on(attrs) {
                return;
            }
            let n = sig.ident.to_string();
            if !known.contains(&n) && !traits.contains(&n) {
                found.push(Def { file: p.clone(), owner: o.into(), sig: sig.clone(), block: block.clone(), nested_in: String::new() });
            }
            for s in &block.stmts {
                if let Stmt::Item(Item::Fn(x)) = s {
                    let m = x.sig.ident.to_string();
                    if !known.contains(&m) && !traits.contains(&m) {
                        found.push(Def { file: p.clone(), owner: String::new(), sig: x.sig.clone(), block: (*x.block).clone(), nested_in: n.clone() });
                    }
                }
            }
        });
        for d in found {
            il.defs.entry(d.sig.ident.to_string()).or_default().push(d);
        }
    }
    if il.defs.is_empty() {
        return Default::default();
    }
    for (p, f) in files.iter_mut() {
        walk_items(&mut f.items, &mut |o, attrs, sig, block| {
            if crate::cfg_on(attrs) {
                let mut v = InlineCalls { il: &mut il, file: p.clone(), owner: o.into(), ret: sig.output.clone(), closure: 0, stack: vec![sig.ident.to_string()], fname: sig.ident.to_string() };
                v.body(block);
            }
        });
    }
    // helpers that are no longer mentioned go
    let names: Vec<String> = il.done.iter().cloned().collect();
    let mut gone = BTreeSet::new();
    loop {
        let mut more = false;
        for n in &names {
            if gone.contains(n) {
                continue;
            }
            let mut left = 0;
            for f in files.values() {
                let mut c = Count { n: n.clone(), hits: 0, gone: &gone };
                c.visit_file(f);
                left += c.hits;
            }
            if left == 0 {
                gone.insert(n.clone());
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    for f in files.values_mut() {
        remove(&mut f.items, &gone);
        struct Nested<'a>(&'a BTreeSet<String>);
        impl<'a> VisitMut for Nested<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(x)) if self.0.contains(&x.sig.ident.to_string())));
                visit_mut::visit_block_mut(self, b);
            }
        }
        Nested(&gone).visit_file_mut(f);
    }
    (gone, names)
}

fn remove(items: &mut Vec<Item>, gone: &BTreeSet<String>) {
    items.retain(|i| !matches!(i, Item::Fn(f) if gone.contains(&f.sig.ident.to_string())));
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, i)) = &mut m.content {
                    remove(i, gone)
                }
            }
            Item::Impl(i) if i.trait_.is_none() => i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if gone.contains(&f.sig.ident.to_string()))),
            Item::Trait(t) => t.items.retain(|x| !matches!(x, TraitItem::Fn(f) if gone.contains(&f.sig.ident.to_string()))),
            _ => {}
        }
    }
}

/// mentions of a name outside its own definition, `use` items and tests
struct Count<'a> {
    n: String,
    hits: usize,
    gone: &'a BTreeSet<String>,
}
impl<'a> Count<'a> {
    fn skip(&self, s: &Signature) -> bool {
        s.ident == self.n || self.gone.contains(&s.ident.to_string())
    }
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) if i == self.n => self.hits += 1,
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}
impl<'a> Visit<'_> for Count<'a> {
    fn visit_item(&mut self, i: &Item) {
        let on = match i {
            Item::Fn(f) => crate::cfg_on(&f.attrs) && !self.skip(&f.sig),
            Item::Mod(m) => crate::cfg_on(&m.attrs),
            Item::Use(_) => false,
            _ => true,
        };
        if on {
            visit::visit_item(self, i)
        }
    }
    fn visit_impl_item_fn(&mut self, f: &ImplItemFn) {
        if crate::cfg_on(&f.attrs) && !self.skip(&f.sig) {
            visit::visit_impl_item_fn(self, f)
        }
    }
    fn visit_trait_item_fn(&mut self, f: &TraitItemFn) {
        if !self.skip(&f.sig) {
            visit::visit_trait_item_fn(self, f)
        }
    }
    fn visit_ident(&mut self, i: &Ident) {
        if i == &self.n {
            self.hits += 1
        }
    }
    fn visit_macro(&mut self, m: &Macro) {
        self.tokens(m.tokens.clone());
        visit::visit_macro(self, m)
    }
}

// ------------------------------------------------------------------ shape of a body
#[derive(Default)]
struct Exits {
    tries: usize,
    returns: Vec<Option<Expr>>,
    me: bool,
    big_self: bool,
    paths: BTreeSet<String>,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let (t, r) = (self.tries, self.returns.clone());
        visit::visit_expr_closure(self, c);
        self.tries = t;
        self.returns = r;
    }
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, t: &'a ExprReturn) {
        self.returns.push(t.expr.as_ref().map(|e| (**e).clone()));
        visit::visit_expr_return(self, t);
    }
    fn visit_path(&mut self, p: &'a Path) {
        let i = p.segments[0].ident.to_string();
        if i == "self" {
            self.me = true;
        }
        if i == "Self" {
            self.big_self = true;
        }
        self.paths.insert(i);
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for t in m.tokens.clone() {
            fn go(t: proc_macro2::TokenTree, out: &mut BTreeSet<String>) {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => g.stream().into_iter().for_each(|x| go(x, out)),
                    _ => {}
                }
            }
            go(t, &mut self.paths);
        }
    }
}
fn exits(b: &Block) -> Exits {
    let mut e = Exits::default();
    e.visit_block(b);
    e
}

fn is_err(e: &Option<Expr>) -> bool {
    matches!(e, Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")))
}

/// `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }`, and a final `return x` becomes `x`
fn structured(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last().cloned() {
        if let Some(e) = r.expr {
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(*e, None));
        }
    }
    let mut at = None;
    for (i, s) in b.stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::If(x), _) = s {
            if x.else_branch.is_none() && i + 1 < b.stmts.len() {
                if let Some(Stmt::Expr(Expr::Return(r), _)) = x.then_branch.stmts.last() {
                    if r.expr.is_some() && !is_err(&r.expr.as_ref().map(|e| (**e).clone())) {
                        at = Some(i);
                        break;
                    }
                }
            }
        }
    }
    if let Some(i) = at {
        let rest = b.stmts.split_off(i + 1);
        if let Some(Stmt::Expr(Expr::If(mut x), _)) = b.stmts.pop() {
            structured(&mut x.then_branch);
            let mut r = Block { brace_token: Default::default(), stmts: rest };
            structured(&mut r);
            let e: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: r });
            x.else_branch = Some((Default::default(), Box::new(e)));
            b.stmts.push(Stmt::Expr(Expr::If(x), None));
        }
    }
    // branches of a final if
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        structured_tail(e);
    }
}
fn structured_tail(e: &mut Expr) {
    match e {
        Expr::If(x) if x.else_branch.is_some() => {
            structured(&mut x.then_branch);
            if let Some((_, e)) = &mut x.else_branch {
                structured_tail(e)
            }
        }
        Expr::Block(x) => structured(&mut x.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                structured_tail(&mut a.body)
            }
        }
        Expr::Return(r) => {
            if let Some(x) = &r.expr {
                *e = (**x).clone();
            }
        }
        _ => {}
    }
}

/// the value of a Result-valued tail in a context that propagates its error
fn unwrapped(e: Expr, same: bool) -> Expr {
    match e {
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => {
            let x = c.args.first().unwrap();
            parse_quote!((#x))
        }
        Expr::Call(c) if same && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => parse_quote!(return #c),
        Expr::If(mut x) if x.else_branch.is_some() => {
            x.then_branch = unwrapped_block(x.then_branch, same);
            if let Some((_, b)) = &mut x.else_branch {
                **b = unwrapped((**b).clone(), same);
            }
            Expr::If(x)
        }
        Expr::Match(mut m) => {
            for a in &mut m.arms {
                *a.body = unwrapped((*a.body).clone(), same);
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Expr::Block(mut b) if b.label.is_none() => {
            b.block = unwrapped_block(b.block, same);
            Expr::Block(b)
        }
        Expr::Return(r) => Expr::Return(r),
        Expr::Paren(p) => unwrapped(*p.expr, same),
        e @ (Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) | Expr::Await(_) | Expr::Macro(_)) => parse_quote!(#e?),
        e => parse_quote!((#e)?),
    }
}
fn unwrapped_block(mut b: Block, same: bool) -> Block {
    match b.stmts.pop() {
        Some(Stmt::Expr(e, None)) => b.stmts.push(Stmt::Expr(unwrapped(e, same), None)),
        Some(Stmt::Macro(m)) if m.semi_token.is_none() => b.stmts.push(Stmt::Macro(m)),
        Some(s) => b.stmts.push(s),
        None => {}
    }
    b
}

// ------------------------------------------------------------------ names
#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        // an identifier pattern in capitals is a constant
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.insert(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
struct Rename {
    map: BTreeMap<String, Ident>,
    /// parameters replaced by an expression (an exclusive borrow of a place)
    subst: BTreeMap<String, Expr>,
    me: Option<Expr>,
    types: BTreeMap<String, Type>,
    bad: bool,
}
impl Rename {
    fn tokens(&mut self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let mut dot = false;
        t.into_iter()
            .map(|x| {
                let was = dot;
                dot = matches!(&x, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
                match x {
                    proc_macro2::TokenTree::Ident(i) if !was => {
                        if self.subst.contains_key(&i.to_string()) || i == "self" && self.me.is_some() {
                            self.bad = true;
                        }
                        match self.map.get(&i.to_string()) {
                            Some(n) => proc_macro2::TokenTree::Ident(n.clone()),
                            None => proc_macro2::TokenTree::Ident(i),
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                    x => x,
                }
            })
            .collect()
    }
    fn place(&self, e: &Expr) -> Option<Expr> {
        let n = match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident()?.to_string(),
            _ => return None,
        };
        let x = if n == "self" { self.me.as_ref()? } else { self.subst.get(&n)? };
        match x {
            Expr::Reference(r) => Some((*r.expr).clone()),
            x => Some(x.clone()),
        }
    }
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(n) = p.path.get_ident() {
                if let Some(x) = self.types.get(&n.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let (Some(p), Expr::Path(q)) = (self.place(expr), &**expr) {
                    let n = q.path.get_ident().unwrap().to_string();
                    if matches!(self.subst.get(&n), Some(Expr::Reference(_))) {
                        *e = p;
                        return;
                    }
                }
            }
            Expr::Field(f) => {
                if let Some(p) = self.place(&f.base) {
                    *f.base = p;
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(p) = self.place(&m.receiver) {
                    *m.receiver = p;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if let Some(t) = &mut m.turbofish {
                        self.visit_angle_bracketed_generic_arguments_mut(t);
                    }
                    return;
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if n == "self" {
                        if let Some(x) = &self.me {
                            *e = x.clone();
                        }
                        return;
                    }
                    if let Some(x) = self.subst.get(&n) {
                        *e = x.clone();
                        return;
                    }
                    if let Some(x) = self.map.get(&n) {
                        let x = x.clone();
                        *e = parse_quote!(#x);
                        return;
                    }
                } else if let Some(t) = self.types.get(&p.path.segments[0].ident.to_string()) {
                    let rest: Vec<_> = p.path.segments.iter().skip(1).collect();
                    *e = parse_quote!(<#t>::#(#rest)::*);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ calls
struct InlineCalls<'a> {
    il: &'a mut Inliner,
    file: PathBuf,
    owner: String,
    ret: ReturnType,
    closure: usize,
    stack: Vec<String>,
    fname: String,
}

struct Call {
    def: Def,
    recv: Option<Expr>,
    args: Vec<Expr>,
    turbo: Vec<Type>,
}

fn no_ref(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => no_ref(&p.expr),
        e => e,
    }
}
fn is_self(e: &Expr) -> bool {
    matches!(no_ref(e), Expr::Path(p) if p.path.is_ident("self"))
}
fn is_place(e: &Expr) -> bool {
    match no_ref(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

fn root(e: &Expr) -> Option<String> {
    match no_ref(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        _ => None,
    }
}

impl<'a> InlineCalls<'a> {
    fn body(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.tail(e);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(x) if x.else_branch.is_some() => {
                self.visit_expr_mut(&mut x.cond);
                self.body(&mut x.then_branch);
                if let Some((_, e)) = &mut x.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(x) if x.label.is_none() => self.body(&mut x.block),
            e => {
                if !self.expand(e, Pos::Tail) {
                    self.visit_expr_mut(e);
                }
            }
        }
    }

    fn find(&self, name: &str, method: bool, recv: Option<&Expr>, owner: Option<&str>) -> Option<Def> {
        let ds = self.il.defs.get(name)?;
        if self.stack.iter().any(|s| s == name) {
            return None;
        }
        let c: Vec<&Def> = if method || owner.is_some() {
            let all: Vec<&Def> = ds.iter().filter(|d| !d.owner.is_empty()).collect();
            let want = match owner {
                Some("Self") | None => self.owner.clone(),
                Some(o) => o.to_string(),
            };
            if owner.is_some() || recv.map_or(false, is_self) {
                all.into_iter().filter(|d| d.owner == want || d.owner == format!("trait {want}") || format!("trait {}", d.owner) == want).collect()
            } else {
                all
            }
        } else {
            let all: Vec<&Def> = ds.iter().filter(|d| d.owner.is_empty() && (d.nested_in.is_empty() || d.nested_in == self.fname)).collect();
            let here: Vec<&Def> = all.iter().copied().filter(|d| d.file == self.file).collect();
            if here.is_empty() { all } else { here }
        };
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn call(&self, e: &Expr) -> Option<Call> {
        let (e, awaited) = match e {
            Expr::Await(a) => (&*a.base, true),
            e => (e, false),
        };
        let turbofish = |a: &PathArguments| -> Vec<Type> {
            match a {
                PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect(),
                _ => vec![],
            }
        };
        let c = match e {
            Expr::MethodCall(m) => {
                let def = self.find(&m.method.to_string(), true, Some(&m.receiver), None)?;
                let turbo = m.turbofish.as_ref().map(|t| turbofish(&PathArguments::AngleBracketed(t.clone()))).unwrap_or_default();
                Call { def, recv: Some((*m.receiver).clone()), args: m.args.iter().cloned().collect(), turbo }
            }
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let seg = p.segments.last().unwrap();
                let owner = if p.segments.len() > 1 { Some(p.segments[p.segments.len() - 2].ident.to_string()) } else { None };
                let owner = owner.filter(|o| o.chars().next().unwrap().is_uppercase());
                let def = self.find(&seg.ident.to_string(), false, None, owner.as_deref())?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if def.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    Some(args.remove(0))
                } else {
                    None
                };
                Call { def, recv, args, turbo: turbofish(&seg.arguments) }
            }
            _ => return None,
        };
        if c.def.sig.asyncness.is_some() != awaited {
            return None;
        }
        Some(c)
    }

    fn kind(&self, file: &PathBuf, r: &ReturnType) -> String {
        let t = match r {
            ReturnType::Type(_, t) => t,
            _ => return "()".into(),
        };
        if let Type::Path(p) = &**t {
            let seg = p.path.segments.last().unwrap();
            if seg.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if a.args.len() == 2 {
                        return format!("E {}", a.args[1].to_token_stream());
                    }
                }
                let io = p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "io" || p.path.segments.len() == 1 && self.il.io_result.contains(file);
                return if io { "io".into() } else { "thrift".into() };
            }
            if seg.ident == "Option" {
                return "option".into();
            }
        }
        "other".into()
    }

    /// replaces the call at e, which stands in the given position, by the body of what it calls
    fn expand(&mut self, e: &mut Expr, pos: Pos) -> bool {
        let inner = match (&*e, pos) {
            (Expr::Try(t), Pos::Try) => (*t.expr).clone(),
            (x, _) => x.clone(),
        };
        let mut c = match self.call(&inner) {
            Some(c) => c,
            None => return false,
        };
        let d = c.def.clone();
        let mut b = d.block.clone();
        let same = self.kind(&d.file, &d.sig.output) == self.kind(&self.file, &self.ret) && self.closure == 0;
        let whole = squash(&d.sig.output) == squash(&self.ret) && same;
        if pos != Pos::Tail || !whole {
            structured(&mut b);
        }
        let x = exits(&b);
        let ok = match pos {
            Pos::Tail if whole => true,
            Pos::Try => same && x.returns.iter().all(is_err) || x.tries == 0 && x.returns.is_empty(),
            // what is not a Result's own error path cannot leave the caller
            _ => x.tries == 0 && x.returns.is_empty(),
        };
        if !ok || x.paths.contains(&d.sig.ident.to_string()) {
            return false;
        }
        if x.big_self && !c.recv.as_ref().map_or(true, is_self) {
            return false;
        }
        // generic parameters
        let mut types = BTreeMap::new();
        let params: Vec<String> = d.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        for (i, p) in params.iter().enumerate() {
            match c.turbo.get(i) {
                Some(t) => {
                    types.insert(p.clone(), t.clone());
                }
                None => {
                    let named = d.block.to_token_stream().to_string();
                    if named.split(|ch: char| !ch.is_alphanumeric() && ch != '_').any(|w| w == p) {
                        return false;
                    }
                }
            }
        }
        self.il.count += 1;
        let k = self.il.count;
        let mut bound = Bound::default();
        bound.visit_block(&b);
        let inner = bound.0.clone();
        for a in &d.sig.inputs {
            bound.visit_fn_arg(a);
        }
        let mut rn = Rename { map: bound.0.iter().map(|n| (n.clone(), format_ident!("{}__h{}", n, k))).collect(), subst: Default::default(), me: None, types, bad: false };
        let mut lets: Vec<Stmt> = vec![];
        if let (Some(r), Some(rc)) = (&c.recv, d.sig.receiver()) {
            if !is_self(r) {
                let r = match no_ref(r) {
                    Expr::Reference(x) => (*x.expr).clone(),
                    r => r.clone(),
                };
                if !is_place(&r) || rc.mutability.is_some() && rc.reference.is_none() {
                    return false;
                }
                rn.me = Some(r);
            }
        }
        for e in c.args.iter_mut() {
            self.visit_expr_mut(e);
        }
        let typed: Vec<&PatType> = d.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if typed.len() != c.args.len() {
            return false;
        }
        let mut exclusive_roots: BTreeSet<String> = c.args.iter().filter_map(|a| match no_ref(a) {
            Expr::Reference(r) if r.mutability.is_some() => root(&r.expr),
            _ => None,
        }).collect();
        exclusive_roots.extend(c.recv.as_ref().and_then(root));
        for (p, a) in typed.iter().zip(&c.args) {
            let ts = p.ty.to_token_stream().to_string();
            if ts.contains("Fn (") || ts.contains("FnMut") || ts.contains("FnOnce") {
                return false;
            }
            let exclusive = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
            if let (true, Pat::Ident(i)) = (exclusive, &*p.pat) {
                let a = no_ref(a);
                let place = match a {
                    Expr::Reference(r) if r.mutability.is_some() && is_place(&r.expr) => true,
                    a => is_place(a),
                };
                if !place || i.mutability.is_some() || inner.contains(&i.ident.to_string()) {
                    return false;
                }
                rn.map.remove(&i.ident.to_string());
                rn.subst.insert(i.ident.to_string(), a.clone());
                continue;
            }
            // a value that is copied from a place nothing in the helper can change stands for the parameter itself
            if let Pat::Ident(i) = &*p.pat {
                let copied = matches!(squash(&*p.ty).as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "TType" | "TMessageType");
                let root = root(a);
                let free = root.as_ref().map_or(matches!(no_ref(a), Expr::Lit(_)), |r| r != "self" && !exclusive_roots.contains(r) && is_place(a));
                if copied && free && !inner.contains(&i.ident.to_string()) && i.mutability.is_none() && i.by_ref.is_none() {
                    rn.map.remove(&i.ident.to_string());
                    rn.subst.insert(i.ident.to_string(), no_ref(a).clone());
                    continue;
                }
            }
            let pat = &p.pat;
            let ty = &p.ty;
            let plain = !ts.contains("impl ") && !ts.contains("dyn ") && !ts.contains('\'') && !params.iter().any(|g| ts.split(|ch: char| !ch.is_alphanumeric() && ch != '_').any(|w| w == g)) && !ts.contains("Self");
            // the argument is the caller's own text: it is not renamed, only the pattern is
            let mut pt: Pat = (**pat).clone();
            rn.visit_pat_mut(&mut pt);
            lets.push(if plain { parse_quote!(let #pt: #ty = #a;) } else { parse_quote!(let #pt = #a;) });
        }
        // a name of the caller used for a substituted parameter must not be bound again inside (all inner ones are renamed)
        rn.visit_block_mut(&mut b);
        if rn.bad {
            return false;
        }
        if pos == Pos::Try {
            b = unwrapped_block(b, same);
        }
        self.il.done.insert(d.sig.ident.to_string());
        self.stack.push(d.sig.ident.to_string());
        let (f, o) = (self.file.clone(), self.owner.clone());
        self.file = d.file.clone();
        if !d.owner.is_empty() {
            self.owner = d.owner.clone();
        }
        if pos == Pos::Tail && whole {
            self.body(&mut b);
        } else {
            for s in &mut b.stmts {
                self.visit_stmt_mut(s);
            }
        }
        self.file = f;
        self.owner = o;
        self.stack.pop();
        let stmts = &b.stmts;
        if lets.is_empty() && stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &stmts[0] {
                *e = match x {
                    Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Paren(_) | Expr::Lit(_) | Expr::Try(_) => x.clone(),
                    x => parse_quote!((#x)),
                };
                return true;
            }
        }
        *e = parse_quote!({ #(#lets)* #(#stmts)* });
        true
    }
}
fn squash<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
impl<'a> VisitMut for InlineCalls<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closure += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closure -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(_) => {
                if self.expand(e, Pos::Try) {
                    return;
                }
            }
            Expr::Return(r) if self.closure == 0 => {
                if let Some(x) = &mut r.expr {
                    if self.expand(x, Pos::Tail) {
                        return;
                    }
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) | Expr::Await(_) => {
                if self.expand(e, Pos::Plain) {
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
#[allow(dead_code)]
fn _u() {
    let _ = quote!();
}
