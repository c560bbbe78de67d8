//! The source-to-source rules.  Each keeps the meaning of the executable text (see DESIGN.md, "Extraction").
use crate::spec::FnSpec;
use crate::Cx;
use proc_macro2::{Group, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ items

pub fn simple_macro(ts: &TokenStream) -> Option<TokenStream> {
    // () => { BODY } ;?
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    match (v.first(), v.get(1), v.get(2), v.get(3)) {
        (Some(TokenTree::Group(g)), Some(TokenTree::Punct(_)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(b))) if g.stream().is_empty() && v.len() <= 5 => Some(b.stream()),
        _ => None,
    }
}

fn map_path(segs: &[String]) -> Option<Vec<String>> {
    let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
    let j = |h: &[&str], t: &[&str]| Some(h.iter().chain(t.iter()).map(|s| s.to_string()).collect());
    match s.as_slice() {
        ["goblin" | "indexmap" | "string_interner" | "target_lexicon" | "scroll", ..] => j(&["crate"], &s),
        ["std", "collections", t @ ..] => j(&["crate", "std_collections"], t),
        ["std", "io", t @ ..] => j(&["crate", "std_io"], t),
        ["std", "fs", t @ ..] => j(&["crate", "std_fs"], t),
        ["std", "cmp", "max"] => j(&["crate", "prelude", "v_max"], &[]),
        ["std", "cmp", "min"] => j(&["crate", "prelude", "v_min"], &[]),
        ["std" | "core", "fmt", ..] | ["thiserror", ..] | ["log", ..] => None,
        _ => j(&[], &s),
    }
}
pub fn map_use(u: &ItemUse) -> Vec<String> {
    fn go(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
        match t {
            UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); go(&p.tree, q, out) }
            UseTree::Name(n) => { let mut q = pre; if n.ident != "self" { q.push(n.ident.to_string()) } out.push((q, None)) }
            UseTree::Rename(n) => { let mut q = pre; if n.ident != "self" { q.push(n.ident.to_string()) } out.push((q, Some(n.rename.to_string()))) }
            UseTree::Glob(_) => { let mut q = pre; q.push("*".into()); out.push((q, None)) }
            UseTree::Group(g) => for t in &g.items { go(t, pre.clone(), out) },
        }
    }
    let mut o = vec![];
    go(&u.tree, vec![], &mut o);
    let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
    o.into_iter().filter_map(|(p, r)| {
        if p.last().map(|s| s == "triple").unwrap_or(false) { return None }
        let q = map_path(&p)?;
        Some(format!("{}use {}{};", vis, q.join("::"), r.map(|r| format!(" as {}", r)).unwrap_or_default()))
    }).collect()
}
/// is Ord derived (then it compares every field)
pub fn derives_ord(attrs: &[Attribute]) -> bool {
    let mut have = false;
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { have |= m.path.segments.last().unwrap().ident == "Ord"; Ok(()) }); } }
    have
}
/// Copy types keep Copy, Clone and equality; the others keep no derive (none is called on them)
pub fn derives(attrs: &[Attribute]) -> String {
    let mut have: Vec<String> = vec![];
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { have.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    if !have.iter().any(|d| d == "Copy") { return String::new() }
    let k: Vec<&str> = ["Copy", "Clone", "PartialEq", "Eq"].into_iter().filter(|d| have.iter().any(|h| h == d)).collect();
    format!("#[derive({})]", k.join(", "))
}

struct Types<'a> { subst: &'a HashMap<String, Type> }
impl VisitMut for Types<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(id) = p.path.get_ident() { if let Some(s) = self.subst.get(&id.to_string()) { *t = s.clone(); return } }
                if let Some(s) = p.path.segments.last() { if s.ident == "Box" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() {
                    if let Some(item) = iterator_item(o.bounds.iter()) { *t = parse_quote!(VIter<#item>); return }
                } } } }
                map_syn_path(&mut p.path);
            }
        }
        if let Type::ImplTrait(o) = t { if let Some(item) = iterator_item(o.bounds.iter()) { *t = parse_quote!(VIter<#item>) } }
    }
}
fn iterator_item<'a>(bounds: impl Iterator<Item = &'a TypeParamBound>) -> Option<Type> {
    for b in bounds { if let TypeParamBound::Trait(t) = b { let s = t.path.segments.last()?; if s.ident == "Iterator" { if let PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { if let GenericArgument::AssocType(at) = x { return Some(at.ty.clone()) } } } } } }
    None
}
fn map_syn_path(p: &mut Path) {
    if p.leading_colon.is_some() || p.segments.len() < 2 { return }
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if let Some(q) = map_path(&segs) {
        if q == segs { return }
        // the mapping replaces a prefix and keeps the tail
        let keep = segs.iter().rev().zip(q.iter().rev()).take_while(|(a, b)| a == b).count();
        let mut out: Punctuated<PathSegment, Token![::]> = Punctuated::new();
        let sp = p.segments.span();
        for s in &q[..q.len() - keep] { out.push(PathSegment::from(Ident::new(s, sp))) }
        for s in p.segments.iter().skip(segs.len() - keep) { out.push(s.clone()) }
        p.segments = out;
    }
}
pub fn types(t: &mut Type) { let h = HashMap::new(); Types { subst: &h }.visit_type_mut(t) }

pub fn rename_tokens(ts: TokenStream, f: &dyn Fn(&str) -> Option<String>) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) => match f(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(&n, i.span())), None => TokenTree::Ident(i) },
        TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), rename_tokens(g.stream(), f)); h.set_span(g.span()); TokenTree::Group(h) }
        t => t,
    }).collect()
}
pub fn rename_self(b: &mut Block) {
    let ts = rename_tokens(b.to_token_stream(), &|s| if s == "self" { Some("self_".into()) } else { None });
    *b = parse2(ts).expect("renamed block");
}

/// generics to concrete types, mutable and pattern parameters to local bindings
pub fn signature(sig: &mut Signature, block: &mut Block) {
    let mut subst: HashMap<String, Type> = HashMap::new();
    let mut kind: HashMap<String, &'static str> = HashMap::new();
    let mut bounds: Vec<(String, Vec<TypeParamBound>)> = vec![];
    for g in &sig.generics.params { if let GenericParam::Type(t) = g { bounds.push((t.ident.to_string(), t.bounds.iter().cloned().collect())) } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { let n = t.bounded_ty.to_token_stream().to_string(); for b in bounds.iter_mut() { if b.0 == n { b.1.extend(t.bounds.iter().cloned()) } } } } }
    for _ in 0..2 {
        for (n, bs) in &bounds {
            for b in bs { if let TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap();
                let arg = if let PathArguments::AngleBracketed(a) = &s.arguments { a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }) } else { None };
                match (s.ident.to_string().as_str(), arg) {
                    ("AsRef", Some(a)) => { subst.insert(n.clone(), parse_quote!(&#a)); kind.insert(n.clone(), "as_ref"); }
                    ("Into", Some(a)) => { subst.insert(n.clone(), a); kind.insert(n.clone(), "into"); }
                    ("Iterator" | "IntoIterator", _) => { if let Some(mut it) = iterator_item(std::iter::once(b)) { Types { subst: &subst }.visit_type_mut(&mut it); subst.insert(n.clone(), parse_quote!(VIter<#it>)); } }
                    ("Write" | "Seek", _) => { subst.insert(n.clone(), parse_quote!(&mut crate::std_io::Cursor)); }
                    _ => {}
                }
            } }
        }
    }
    let mut g = Generics::default();
    for p in &sig.generics.params { if let GenericParam::Lifetime(l) = p { g.params.push(GenericParam::Lifetime(l.clone())) } }
    if !g.params.is_empty() { g.lt_token = Some(Default::default()); g.gt_token = Some(Default::default()) }
    sig.generics = g;
    let mut lets: Vec<Stmt> = vec![];
    let mut conv: HashMap<String, &'static str> = HashMap::new();
    let mut n = 0usize;
    let mut ren = false;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; ren = true; lets.push(parse_quote!(let mut self_ = self;)); }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                if let Pat::Ident(i) = &*t.pat { if let Type::Path(p) = &*t.ty { if let Some(id) = p.path.get_ident() { if let Some(k) = kind.get(&id.to_string()) { conv.insert(i.ident.to_string(), k); } } } }
                Types { subst: &subst }.visit_type_mut(&mut t.ty);
                if let Type::Path(p) = &*t.ty { if p.path.segments.last().map(|s| s.ident == "File").unwrap_or(false) { *t.ty = parse_quote!(&mut crate::std_fs::File) } }
                match &mut *t.pat {
                    Pat::Ident(i) => if i.mutability.is_some() { i.mutability = None; let id = &i.ident; lets.push(parse_quote!(let mut #id = #id;)) },
                    Pat::Wild(_) => { let id = format_ident!("__p{}", n); n += 1; *t.pat = parse_quote!(#id) }
                    p => { let id = format_ident!("__p{}", n); n += 1; let q = p.clone(); lets.push(parse_quote!(let #q = #id;)); *t.pat = parse_quote!(#id) }
                }
            }
        }
    }
    if ren { rename_self(block) }
    if let ReturnType::Type(_, t) = &mut sig.output { Types { subst: &subst }.visit_type_mut(t) }
    struct Conv<'a>(&'a HashMap<String, &'static str>);
    impl VisitMut for Conv<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e { if let Expr::Path(p) = &*m.receiver { if let Some(id) = p.path.get_ident() { if self.0.get(&id.to_string()).map(|k| m.method == k && m.args.is_empty()).unwrap_or(false) { *e = (*m.receiver).clone() } } } }
        }
    }
    Conv(&conv).visit_block_mut(block);
    for (i, l) in lets.into_iter().enumerate() { block.stmts.insert(i, l) }
}

// ------------------------------------------------------------------ bodies

/// methods that are called under the name v_X (a repository method of that name is printed so too)
pub const RENAMED: &[&str] = &["len", "iter", "into_iter", "as_bytes", "to_string", "starts_with", "ends_with", "is_empty", "into", "cloned", "copied", "is_power_of_two", "checked_next_power_of_two", "as_str", "next_power_of_two", "trailing_zeros"];

/// the verifier's keywords; an identifier of that name gets a trailing underscore
pub const KEYWORDS: &[&str] = &["exec", "spec", "proof", "ghost", "tracked", "has", "is", "invariant", "ensures", "requires", "decreases", "recommends", "choose", "forall", "exists", "int", "nat", "via", "broadcast", "axiom", "returns", "opens_invariants", "no_unwind"];
pub struct Rewriter { n: usize, closures: HashMap<String, ExprClosure>, pub dropped: Vec<String>, depth: usize, bound: HashMap<String, usize> }

const ITER: &[&str] = &["iter", "iter_mut", "into_iter", "chain", "filter", "enumerate", "values", "values_mut", "keys", "drain", "zip", "skip", "rev", "cloned", "copied", "peekable", "definitions", "imports", "links"];
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => { let n = m.method.to_string(); if n == "map" || n == "filter" || n == "cloned" || n == "copied" { is_iter(&m.receiver) } else { ITER.contains(&n.as_str()) } }
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}
fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.by_ref.is_some() { self.0 = true } visit::visit_pat_ident(self, i) } fn visit_pat_reference(&mut self, _: &'a PatReference) { self.0 = true } }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
fn unwrap_paren(e: Expr) -> Expr { match e { Expr::Paren(p) => unwrap_paren(*p.expr), e => e } }

/// a closure that leaves by `return` or `?` cannot stand at its call
fn leaves(c: &ExprClosure) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} }
    let mut v = V(false);
    v.visit_expr(&c.body);
    v.0
}
/// the plain names a closure's body mentions (those in its macros included)
fn uses(c: &ExprClosure) -> Vec<String> {
    fn go(ts: TokenStream, o: &mut Vec<String>) { for t in ts { match t { TokenTree::Ident(i) => o.push(i.to_string()), TokenTree::Group(g) => go(g.stream(), o), _ => {} } } }
    let mut o = vec![];
    go(c.body.to_token_stream(), &mut o);
    struct P(Vec<String>);
    impl<'a> Visit<'a> for P { fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()) } }
    let mut p = P(vec![]);
    for i in &c.inputs { p.visit_pat(i) }
    p.visit_expr(&c.body);
    o.retain(|n| !p.0.contains(n));
    o
}
/// how often each name is bound in a function
fn bindings(sig: &Signature, b: &Block) -> HashMap<String, usize> {
    struct P(HashMap<String, usize>);
    impl<'a> Visit<'a> for P { fn visit_pat_ident(&mut self, i: &'a PatIdent) { *self.0.entry(i.ident.to_string()).or_default() += 1 } }
    let mut p = P(HashMap::new());
    p.visit_signature(sig);
    p.visit_block(b);
    p.0
}

impl Rewriter {
    pub fn new() -> Self { Rewriter { n: 0, closures: HashMap::new(), dropped: vec![], depth: 0, bound: HashMap::new() } }
    pub fn function(&mut self, sig: &Signature, b: &mut Block) { self.bound = bindings(sig, b); self.block(b) }
    fn fresh(&mut self, p: &str) -> Ident { self.n += 1; format_ident!("__{}a{}", p, self.n) }

    fn block(&mut self, b: &mut Block) {
        self.depth += 1;
        let old = std::mem::take(&mut b.stmts);
        for s in old { self.stmt(s, &mut b.stmts) }
        self.depth -= 1;
    }
    fn stmt(&mut self, s: Stmt, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Macro(m) => {
                if let Some(e) = self.mac(&m.mac, m.semi_token.is_some()) { if let Expr::Tuple(t) = &e { if t.elems.is_empty() { return } } out.push(Stmt::Expr(e, m.semi_token)) }
            }
            Stmt::Item(Item::Use(u)) => for l in map_use(&u) { out.push(parse_str(&l).unwrap()) },
            Stmt::Item(i) => out.push(Stmt::Item(i)),
            Stmt::Local(mut l) => {
                l.attrs.clear();
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) { if let Expr::Closure(c) = &*init.expr { if leaves(c) || uses(c).iter().any(|n| self.bound.get(n).copied().unwrap_or(0) > 1) { out.push(parse_quote!(__vx_unsupported!();)); return } self.closures.insert(id.ident.to_string(), c.clone()); self.dropped.push(format!("closure {} inlined at its calls", id.ident)); return } }
                if let Some(i) = &mut l.init { self.expr(&mut i.expr); if let Some((_, d)) = &mut i.diverge { self.expr(d) } }
                let (pat, ty) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
                if let Some(mut ty) = ty { types(&mut ty); l.pat = parse_quote!(#pat); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(pat.clone()), colon_token: Default::default(), ty: Box::new(ty) }); }
                if has_ref(&pat) && l.init.as_ref().map(|i| i.diverge.is_none()).unwrap_or(false) {
                    let e = *l.init.unwrap().expr;
                    self.bind(&pat, e, false, out);
                } else { out.push(Stmt::Local(l)) }
            }
            Stmt::Expr(Expr::ForLoop(f), semi) => self.for_loop(f, semi, out),
            Stmt::Expr(mut e, semi) => {
                if let Expr::While(w) = &e { if let Some((p, r)) = while_let_next(w) { let body = w.body.clone(); let label = w.label.clone(); self.while_iter(label, p, r, None, body, semi, out); return } }
                self.expr(&mut e);
                let semi = if matches!(e, Expr::While(_)) { Some(Default::default()) } else { semi };
                out.push(Stmt::Expr(e, semi));
            }
        }
    }
    fn for_loop(&mut self, mut f: ExprForLoop, semi: Option<Token![;]>, out: &mut Vec<Stmt>) {
        self.expr(&mut f.expr);
        let it = self.fresh("it");
        let e = unwrap_paren((*f.expr).clone());
        out.push(parse_quote!(let mut #it = (#e).v_into_iter();));
        self.while_iter(f.label.clone(), (*f.pat).clone(), parse_quote!(#it), Some(()), f.body, semi, out);
    }
    fn while_iter(&mut self, label: Option<Label>, pat: Pat, it: Expr, _own: Option<()>, mut body: Block, semi: Option<Token![;]>, out: &mut Vec<Stmt>) {
        self.block(&mut body);
        let mut st: Vec<Stmt> = vec![];
        self.bind(&pat, parse_quote!(#it.v_take()), false, &mut st);
        if st.is_empty() { st.push(parse_quote!(let _ = #it.v_take();)) }
        st.extend(body.stmts);
        let w: Expr = parse_quote!(#label while #it.v_more() { #(#st)* });
        let _ = semi;
        out.push(Stmt::Expr(w, Some(Default::default())));
    }
    /// `let pat = e` for an irrefutable pattern; `place` says e is a place behind a reference
    fn bind(&mut self, pat: &Pat, e: Expr, place: bool, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Paren(p) => self.bind(&p.pat, e, place, out),
            Pat::Type(t) if has_ref(&t.pat) => self.bind(&t.pat, e, place, out),
            Pat::Wild(_) => { if !place && matches!(e, Expr::MethodCall(_) | Expr::Call(_)) { out.push(parse_quote!(let _ = #e;)) } }
            Pat::Ident(i) if i.subpat.is_none() => {
                let id = &i.ident;
                if i.by_ref.is_some() && place { if i.mutability.is_some() { out.push(parse_quote!(let #id = &mut #e;)) } else { out.push(parse_quote!(let #id = &#e;)) } }
                else if i.by_ref.is_some() { out.push(parse_quote!(let #id = #e;)) }
                else { let m = &i.mutability; out.push(parse_quote!(let #m #id = #e;)) }
            }
            Pat::Reference(r) => {
                let simple = matches!(e, Expr::Path(_) | Expr::Field(_));
                let e2 = if simple { e } else { let p = self.fresh("p"); out.push(parse_quote!(let #p = #e;)); parse_quote!(#p) };
                // &mut (ref mut a, ref mut b): fields of a mutable reference
                let inner: Expr = if matches!(&*r.pat, Pat::Tuple(_)) && matches!(e2, Expr::Path(_)) { e2 } else { parse_quote!((*#e2)) };
                self.bind(&r.pat, inner, true, out)
            }
            Pat::Tuple(t) if place || has_ref(pat) => {
                if place { for (k, p) in t.elems.iter().enumerate() { let ix = Index::from(k); self.bind(p, parse_quote!(#e.#ix), true, out) } }
                else {
                    let ids: Vec<(Ident, &Pat)> = t.elems.iter().map(|p| (self.fresh("p"), p)).collect();
                    let pats: Vec<Pat> = ids.iter().map(|(i, p)| if has_ref(p) { parse_quote!(#i) } else { (*p).clone() }).collect();
                    out.push(parse_quote!(let (#(#pats),*) = #e;));
                    for (i, p) in ids { if has_ref(p) { self.bind(p, parse_quote!(#i), false, out) } }
                }
            }
            p => out.push(parse_quote!(let #p = #e;)),
        }
    }
    /// in refutable patterns: drop `ref`, turn `&x` into x and rebind
    fn refutable(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct V<'a> { r: &'a mut Rewriter, st: Vec<Stmt> }
        impl VisitMut for V<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    match &*r.pat {
                        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => { let id = i.ident.clone(); let m = &i.mutability; self.st.push(parse_quote!(let #m #id = *#id;)); *p = parse_quote!(#id) }
                        q => { let q = q.clone(); let id = self.r.fresh("p"); let mut o = vec![]; self.r.bind(&q, parse_quote!((*#id)), true, &mut o); self.st.extend(o); *p = parse_quote!(#id) }
                    }
                    return;
                }
                visit_mut::visit_pat_mut(self, p)
            }
            fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) { if i.by_ref.is_some() { i.by_ref = None; i.mutability = None } visit_mut::visit_pat_ident_mut(self, i) }
            fn visit_path_mut(&mut self, p: &mut Path) { map_syn_path(p) }
        }
        let mut v = V { r: self, st: vec![] };
        v.visit_pat_mut(p);
        v.st
    }

    fn args(&self, m: &Macro) -> Vec<Expr> { m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default() }
    fn mac(&mut self, m: &Macro, stmt: bool) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "debug" | "info" | "trace" | "warn" | "error" | "println" | "eprintln" => Some(parse_quote!(())),
            "assert" | "debug_assert" => { let mut a = self.args(m); let mut c = a.remove(0); self.expr(&mut c); Some(parse_quote!(v_assert(#c))) }
            "assert_eq" | "debug_assert_eq" => { let mut a = self.args(m); let mut y = a.remove(1); let mut x = a.remove(0); self.expr(&mut x); self.expr(&mut y); Some(parse_quote!(v_assert(#x == #y))) }
            "assert_ne" | "debug_assert_ne" => { let mut a = self.args(m); let mut y = a.remove(1); let mut x = a.remove(0); self.expr(&mut x); self.expr(&mut y); Some(parse_quote!(v_assert(#x != #y))) }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(if stmt { parse_quote!(return v_panic()) } else { parse_quote!(v_panic()) }),
            "format" => {
                let mut a = self.args(m);
                if a.is_empty() { return Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })) }
                let lit = match a.remove(0) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })) };
                let mut parts: Vec<Expr> = vec![];
                let mut cur = String::new();
                let mut args = a.into_iter();
                let cs: Vec<char> = lit.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if cs[i] == '{' && cs.get(i + 1) == Some(&'{') { cur.push('{'); i += 2; continue }
                    if cs[i] == '}' && cs.get(i + 1) == Some(&'}') { cur.push('}'); i += 2; continue }
                    if cs[i] == '{' {
                        let e = cs[i..].iter().position(|c| *c == '}').map(|k| i + k).unwrap_or(cs.len() - 1);
                        let name: String = cs[i + 1..e].iter().collect();
                        let mut x: Expr = if name.is_empty() { match args.next() { Some(x) => x, None => return Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })) } } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') { let id = Ident::new(&name, m.span()); parse_quote!(#id) } else { return Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })) };
                        self.expr(&mut x);
                        if !cur.is_empty() { let l = LitStr::new(&cur, m.span()); parts.push(parse_quote!((#l).v_str())); cur.clear() }
                        parts.push(parse_quote!((#x).v_str()));
                        i = e + 1;
                        continue;
                    }
                    cur.push(cs[i]);
                    i += 1;
                }
                if !cur.is_empty() || parts.is_empty() { let l = LitStr::new(&cur, m.span()); parts.push(parse_quote!((#l).v_str())) }
                let mut it = parts.into_iter();
                let mut e = it.next().unwrap();
                let mut first = true;
                for p in it { e = if first { parse_quote!(v_cat(#e, #p)) } else { parse_quote!(v_cat((#e).v_str(), #p)) }; first = false }
                if first { e = parse_quote!((#e).v_to_string()) }
                Some(e)
            }
            "vec" => {
                // vec![a; n] or vec![a, b]
                if let Ok((x, k)) = m.parse_body_with(|i: parse::ParseStream| { let x: Expr = i.parse()?; let _: Token![;] = i.parse()?; let k: Expr = i.parse()?; Ok((x, k)) }) { let (mut x, mut k) = (x, k); self.expr(&mut x); self.expr(&mut k); return Some(parse_quote!(v_vec_n(#x, #k))) }
                let mut a = self.args(m);
                for x in &mut a { self.expr(x) }
                Some(parse_quote!(vec![#(#a),*]))
            }
            _ => Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })),
        }
    }
    fn closure(e: &Expr) -> Option<ExprClosure> { match e { Expr::Closure(c) => Some(c.clone()), Expr::Paren(p) => Self::closure(&p.expr), _ => None } }
    fn body(&mut self, c: &ExprClosure) -> Expr { let mut b = (*c.body).clone(); self.expr(&mut b); b }

    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(m) => { let mm = m.mac.clone(); if let Some(x) = self.mac(&mm, false) { *e = x } return }
            Expr::ForLoop(f) => { let f = f.clone(); let mut st = vec![]; self.for_loop(f, None, &mut st); *e = parse_quote!({ #(#st)* }); return }
            Expr::While(w) => {
                if let Some((p, r)) = while_let_next(w) { let body = w.body.clone(); let label = w.label.clone(); let mut st = vec![]; self.while_iter(label, p, r, None, body, None, &mut st); *e = parse_quote!({ #(#st)* }); return }
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                for a in &mut m.arms {
                    a.attrs.clear();
                    let st = self.refutable(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard { self.expr(g) }
                    self.expr(&mut a.body);
                    if !st.is_empty() { let b = &a.body; a.body = Box::new(parse_quote!({ #(#st)* #b })); a.comma = Some(Default::default()) }
                }
                return;
            }
            Expr::If(i) => {
                let mut st = vec![];
                self.cond(&mut i.cond, &mut st);
                self.block(&mut i.then_branch);
                for (k, s) in st.into_iter().enumerate() { i.then_branch.stmts.insert(k, s) }
                if let Some((_, b)) = &mut i.else_branch { self.expr(b) }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let iter = is_iter(&m.receiver);
                if m.args.iter().filter_map(Self::closure).any(|c| leaves(&c)) { *e = parse_quote!(__vx_unsupported!()); return }
                if let (Some(c), 1) = (m.args.first().and_then(Self::closure), m.args.len()) {
                    let mut recv = (*m.receiver).clone();
                    if ["map", "filter", "for_each"].contains(&name.as_str()) && iter {
                        self.expr(&mut recv);
                        let (it, o) = (self.fresh("it"), self.fresh("out"));
                        let mut st: Vec<Stmt> = vec![];
                        if name == "filter" {
                            let x = self.fresh("x");
                            st.push(parse_quote!(let #x = #it.v_take();));
                            match &c.inputs[0] { Pat::Reference(r) => self.bind(&r.pat, parse_quote!(#x), true, &mut st), p => self.bind(p, parse_quote!(&#x), false, &mut st) }
                            let b = self.body(&c);
                            st.push(parse_quote!(if #b { #o.push(#x); }));
                        } else {
                            self.bind(&c.inputs[0], parse_quote!(#it.v_take()), false, &mut st);
                            let b = self.body(&c);
                            if name == "map" { let y = self.fresh("y"); st.push(parse_quote!(let #y = #b;)); st.push(parse_quote!(#o.push(#y);)) } else { st.push(parse_quote!(#b;)) }
                        }
                        *e = if name == "for_each" { parse_quote!({ let mut #it = (#recv).v_into_iter(); while #it.v_more() { #(#st)* } }) } else { parse_quote!({ let mut #it = (#recv).v_into_iter(); let mut #o = Vec::new(); while #it.v_more() { #(#st)* } v_from_vec(#o) }) };
                        return;
                    }
                    if !iter && ["map", "and_then", "unwrap_or_else", "or_else", "filter", "ok_or_else", "map_err", "is_some_and"].contains(&name.as_str()) {
                        self.expr(&mut recv);
                        let p = self.fresh("p");
                        let mut st: Vec<Stmt> = vec![];
                        if let Some(q) = c.inputs.first() { self.bind(q, parse_quote!(#p), false, &mut st) }
                        let b = self.body(&c);
                        match name.as_str() {
                            "map" => { *e = parse_quote!(match #recv { Some(#p) => { #(#st)* Some(#b) } None => None }); return }
                            "and_then" => { *e = parse_quote!(match #recv { Some(#p) => { #(#st)* #b } None => None }); return }
                            "unwrap_or_else" if c.inputs.is_empty() => { *e = parse_quote!(match #recv { Some(#p) => #p, None => #b }); return }
                            "or_else" if c.inputs.is_empty() => { *e = parse_quote!(match #recv { Some(#p) => Some(#p), None => #b }); return }
                            "ok_or_else" if c.inputs.is_empty() => { *e = parse_quote!(match #recv { Some(#p) => Ok(#p), None => Err(#b) }); return }
                            "map_err" => { let q = self.fresh("p"); *e = parse_quote!(match #recv { Ok(#q) => Ok(#q), Err(#p) => { #(#st)* Err(#b) } }); return }
                            "is_some_and" => { *e = parse_quote!(match #recv { Some(#p) => { #(#st)* #b } None => false }); return }
                            _ => {}
                        }
                    }
                }
                if name == "map_or" && !iter && m.args.len() == 2 { if let (Some(c), true) = (Self::closure(&m.args[1]), matches!(m.args[0], Expr::Lit(_) | Expr::Path(_))) {
                    let mut recv = (*m.receiver).clone();
                    self.expr(&mut recv);
                    let d = m.args[0].clone();
                    let p = self.fresh("p");
                    let mut st: Vec<Stmt> = vec![];
                    if let Some(q) = c.inputs.first() { self.bind(q, parse_quote!(#p), false, &mut st) }
                    let b = self.body(&c);
                    *e = parse_quote!(match #recv { Some(#p) => { #(#st)* #b } None => #d });
                    return;
                } }
                if name == "ok_or" && m.args.len() == 1 && !iter {
                    let mut recv = (*m.receiver).clone();
                    self.expr(&mut recv);
                    let mut b = m.args[0].clone();
                    self.expr(&mut b);
                    let (p, d) = (self.fresh("p"), self.fresh("d"));
                    *e = parse_quote!({ let #p = #recv; let #d = #b; match #p { Some(#p) => Ok(#p), None => Err(#d) } });
                    return;
                }
                if name == "fold" && iter && m.args.len() == 2 { if let Some(c) = Self::closure(&m.args[1]) {
                    let mut recv = (*m.receiver).clone();
                    self.expr(&mut recv);
                    let mut init = m.args[0].clone();
                    self.expr(&mut init);
                    let (it, acc) = (self.fresh("it"), self.fresh("acc"));
                    let mut st: Vec<Stmt> = vec![];
                    self.bind(&c.inputs[0], parse_quote!(#acc), false, &mut st);
                    self.bind(&c.inputs[1], parse_quote!(#it.v_take()), false, &mut st);
                    let b = self.body(&c);
                    st.push(parse_quote!(#acc = #b;));
                    *e = parse_quote!({ let mut #it = (#recv).v_into_iter(); let mut #acc = #init; while #it.v_more() { #(#st)* } #acc });
                    return;
                } }
                let mutating = ["push", "insert", "extend", "pop", "clear", "push_str", "remove", "append"].contains(&name.as_str());
                if mutating { mark_mut(&mut m.receiver) }
                self.expr(&mut m.receiver);
                for a in m.args.iter_mut() { self.expr(a) }
                if let Some(t) = &mut m.turbofish { let h = HashMap::new(); Types { subst: &h }.visit_angle_bracketed_generic_arguments_mut(t) }
                if ["get", "get_mut", "contains_key", "get_full"].contains(&name.as_str()) {
                    for a in m.args.iter_mut() { if let Expr::Reference(r) = a { if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &mut *r.expr { if i.suffix().is_empty() { *i = LitInt::new(&format!("{}usize", i.base10_digits()), i.span()) } } } }
                }
                let new = match name.as_str() {
                    n if RENAMED.contains(&n) => Some(format!("v_{}", name)),
                    "to_owned" => Some("v_to_string".into()),
                    "drain" => { if !matches!(m.args.first(), Some(Expr::Range(r)) if r.start.is_none() && r.end.is_none()) { *e = parse_quote!(__vx_unsupported!()); return } m.args.clear(); Some("v_drain".into()) }
                    "next" => Some("v_next".into()),
                    _ => None,
                };
                if let Some(nw) = new { m.method = Ident::new(&nw, m.method.span()) }
                return;
            }
            Expr::Try(t) => {
                if let Expr::Call(c) = &mut *t.expr { if let Expr::Path(p) = &*c.func { if p.path.is_ident("Err") { let mut a = c.args[0].clone(); self.expr(&mut a); *e = parse_quote!(return Err(#a)); return } } }
                let mut x = (*t.expr).clone();
                self.expr(&mut x);
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(__e.v_into()) });
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr { if let Expr::Range(g) = &*ix.index {
                    let mut b = (*ix.expr).clone();
                    self.expr(&mut b);
                    let f = |r: &mut Rewriter, x: &Option<Box<Expr>>| x.as_ref().map(|x| { let mut x = (**x).clone(); r.expr(&mut x); x });
                    let (s, t) = (f(self, &g.start), f(self, &g.end));
                    *e = match (s, t) { (Some(s), None) => parse_quote!((#b).v_slice_from(#s)), (None, Some(t)) => parse_quote!((#b).v_slice_to(#t)), (Some(s), Some(t)) => parse_quote!((#b).v_slice(#s, #t)), (None, None) => parse_quote!((#b).v_slice_from(0)) };
                    return;
                } }
                if r.mutability.is_none() { if let Expr::Unary(u) = &*r.expr { if matches!(u.op, UnOp::Deref(_)) { let mut x = (*u.expr).clone(); self.expr(&mut x); *e = parse_quote!((#x).v_deref()); return } } }
                if r.mutability.is_some() { mark_mut(&mut r.expr) }
            }
            Expr::Assign(a) => { mark_mut(&mut a.left) }
            Expr::Binary(b) => { if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::MulAssign(_)) { mark_mut(&mut b.left) } }
            Expr::Index(ix) => {
                self.expr(&mut ix.expr);
                self.expr(&mut ix.index);
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!((*(#b).v_index(#i)));
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
                    match s.as_slice() {
                        ["Box", "new"] | ["BufWriter", "new"] => { let mut a = c.args[0].clone(); self.expr(&mut a); *e = a; return }
                        ["String", "from"] => { let mut a = c.args[0].clone(); self.expr(&mut a); *e = parse_quote!((#a).v_to_string()); return }
                        [.., "PhantomData", "default"] => { *e = parse_quote!(::std::marker::PhantomData); return }
                        [n] => if let Some(cl) = self.closures.get(*n).cloned() {
                            let mut st: Vec<Stmt> = vec![];
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in &mut args { self.expr(a) }
                            if args.len() > 1 { for a in &mut args { let n = self.fresh("a"); st.push(parse_quote!(let #n = #a;)); *a = parse_quote!(#n) } }
                            for (q, a) in cl.inputs.iter().zip(args.iter()) { let (q, ty) = match q { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), q => (q.clone(), None) }; match ty { Some(t) => st.push(parse_quote!(let #q: #t = #a;)), None => st.push(parse_quote!(let #q = #a;)) } }
                            let mut b = match &*cl.body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
                            self.block(&mut b);
                            st.extend(b.stmts);
                            *e = parse_quote!({ #(#st)* });
                            return;
                        },
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        // children
        struct Kids<'a>(&'a mut Rewriter);
        impl VisitMut for Kids<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) { self.0.expr(e) }
            fn visit_block_mut(&mut self, b: &mut Block) { self.0.block(b) }
            fn visit_type_mut(&mut self, t: &mut Type) { types(t) }
            fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); map_syn_path(p) }
        }
        let mut k = Kids(self);
        visit_mut::visit_expr_mut(&mut k, e);
    }
    fn cond(&mut self, c: &mut Expr, st: &mut Vec<Stmt>) {
        match c {
            Expr::Let(l) => { self.expr(&mut l.expr); st.extend(self.refutable(&mut l.pat)) }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => { self.cond(&mut b.left, st); self.cond(&mut b.right, st) }
            e => self.expr(e),
        }
    }
}
/// an index expression in a mutated place becomes v_index_mut
fn mark_mut(e: &mut Expr) {
    match e {
        Expr::Field(f) => mark_mut(&mut f.base),
        Expr::Paren(p) => mark_mut(&mut p.expr),
        Expr::MethodCall(m) if m.method == "unwrap" => mark_mut(&mut m.receiver),
        Expr::Index(ix) => { mark_mut(&mut ix.expr); let (b, i) = (&ix.expr, &ix.index); *e = parse_quote!((*(#b).v_index_mut(#i))) }
        _ => {}
    }
}
fn while_let_next(w: &ExprWhile) -> Option<(Pat, Expr)> {
    if let Expr::Let(l) = &*w.cond {
        if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) { if t.path.is_ident("Some") && m.method == "next" && matches!(&*m.receiver, Expr::Path(_)) { return Some((t.elems[0].clone(), (*m.receiver).clone())) } }
    }
    None
}

// ------------------------------------------------------------------ analysis and attachment

pub fn calls(b: &Block) -> Vec<String> {
    struct V(HashSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.0.insert(m.method.to_string()); visit::visit_expr_method_call(self, m) }
        fn visit_expr_call(&mut self, c: &'a ExprCall) { if let Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); } visit::visit_expr_call(self, c) }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(HashSet::new());
    v.visit_block(b);
    let mut o: Vec<String> = v.0.into_iter().collect();
    o.sort();
    o
}

pub fn number_loops(b: &mut Block) -> usize {
    struct V { n: usize, map: HashMap<String, usize> }
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::While(w) => {
                    if let Expr::MethodCall(m) = &*w.cond { if let Expr::Path(p) = &*m.receiver { if let Some(id) = p.path.get_ident() { let s = id.to_string(); if let Some(k) = s.strip_prefix("__ita") { self.map.insert(k.to_string(), self.n); } } } }
                    self.n += 1;
                }
                Expr::Loop(_) | Expr::ForLoop(_) => self.n += 1,
                _ => {}
            }
            visit::visit_expr(self, e)
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V { n: 0, map: HashMap::new() };
    v.visit_block(b);
    // the accumulator of an unfolded adapter has the next fresh number after its iterator's
    let map = v.map.clone();
    let ts = rename_tokens(b.to_token_stream(), &|s| {
        for (pre, off, new) in [("__ita", 0usize, "__it"), ("__outa", 1, "__out"), ("__acca", 1, "__acc")] {
            if let Some(k) = s.strip_prefix(pre) { if let Ok(k) = k.parse::<usize>() { if let Some(n) = map.get(&(k - off).to_string()) { return Some(format!("{}{}", new, n)) } } }
        }
        None
    });
    *b = parse2(ts).expect("numbered block");
    v.n
}

struct Loops<'a> { n: usize, target: usize, f: &'a mut dyn FnMut(&mut Block) }
impl VisitMut for Loops<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let b = match e { Expr::While(w) => Some(&mut w.body), Expr::Loop(w) => Some(&mut w.body), Expr::ForLoop(w) => Some(&mut w.body), _ => None };
        if let Some(b) = b { if self.n == self.target { (self.f)(b) } self.n += 1; }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn at_loop(b: &mut Block, n: usize, f: &mut dyn FnMut(&mut Block)) { Loops { n: 0, target: n, f }.visit_block_mut(b) }
fn raw_stmt(k: usize) -> Stmt { let l = proc_macro2::Literal::usize_unsuffixed(k); parse_quote!(__vx_raw!(#l);) }

enum Want { Loop(usize), Call(String, usize), Let(String, usize) }
struct Near { want: Want, seen: usize, hit: bool, before: bool, raw: usize, done: bool, bad: bool }
impl VisitMut for Near {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if !self.done {
                if let (Stmt::Local(l), Want::Let(n, k)) = (&b.stmts[i], &self.want) {
                    let nm = match &l.pat { Pat::Ident(x) => Some(x.ident.to_string()), Pat::Type(t) => if let Pat::Ident(x) = &*t.pat { Some(x.ident.to_string()) } else { None }, _ => None };
                    if nm.as_deref() == Some(n) { if self.seen == *k { self.hit = true } self.seen += 1; }
                }
                if !self.hit { self.visit_stmt_mut(&mut b.stmts[i]) }
                if self.hit {
                    self.hit = false;
                    self.done = true;
                    if self.before { b.stmts.insert(i, raw_stmt(self.raw)); i += 1 } else {
let last = i + 1 == b.stmts.len();
                        if let Stmt::Expr(e, None) = &b.stmts[i] { if last && !matches!(e, Expr::While(_) | Expr::ForLoop(_)) { self.bad = true } }
                        b.stmts.insert(i + 1, raw_stmt(self.raw)); i += 1
                    }
                }
            }
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.done { return }
        match (&self.want, &*e) {
            (Want::Loop(n), Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) => { if self.seen == *n { self.hit = true; return } self.seen += 1; }
            (Want::Call(n, k), Expr::MethodCall(m)) if m.method == n.as_str() => { if self.seen == *k { self.hit = true; return } self.seen += 1 }
            (Want::Call(n, k), Expr::Call(c)) => { if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == n.as_str() { if self.seen == *k { self.hit = true; return } self.seen += 1 } } }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// the proof text at the end of a function or loop body, also where the code leaves it early
struct Exits { raw: usize, lp: bool, depth: usize }
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; return }
            Expr::Continue(c) if self.lp && self.depth == 0 && c.label.is_none() => { let r = raw_stmt(self.raw); *e = parse_quote!({ #r continue; }); return }
            Expr::Return(r) if !self.lp => {
                let t = r.expr.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                if t.starts_with("Err (") || t.starts_with("v_panic") { return }
                let x = raw_stmt(self.raw);
                *e = match &r.expr { Some(v) => parse_quote!({ let __ret = #v; #x return __ret; }), None => parse_quote!({ #x return; }) };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn attach(cx: &mut Cx, b: &mut Block, s: &FnSpec, nl: usize, sig: &Signature, exits: bool) -> std::result::Result<(), String> {
    for k in 0..nl { if !s.loops.contains_key(&k) { return Err(format!("{} loops, the contract knows {}", nl, s.loops.len())) } }
    if s.loops.len() != nl { return Err(format!("{} loops, the contract knows {}", nl, s.loops.len())) }
    // place proofs at statement anchors before anything shifts the statements
    for (a, text) in &s.proofs {
        let w: Vec<&str> = a.split_whitespace().collect();
        let raw = cx.raw(text.clone());
        match w.as_slice() {
            ["head"] | ["start"] | ["end"] => {}
            ["loop", n, "start"] => { let mut hit = false; at_loop(b, n.parse().unwrap(), &mut |b| { hit = true; let k = if b.stmts.is_empty() { 0 } else { take_count(b) }; b.stmts.insert(k, raw_stmt(raw)) }); if !hit { return Err(format!("anchor {}", a)) } }
            ["loop", n, "top"] => { let mut hit = false; at_loop(b, n.parse().unwrap(), &mut |b| { hit = true; b.stmts.insert(0, raw_stmt(raw)) }); if !hit { return Err(format!("anchor {}", a)) } }
            ["loop", n, "end"] => { let mut hit = false; let again = cx.raw(text.clone()); at_loop(b, n.parse().unwrap(), &mut |b| { hit = true; if exits { Exits { raw: again, lp: true, depth: 0 }.visit_block_mut(b) } if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()) } b.stmts.push(raw_stmt(raw)) }); if !hit { return Err(format!("anchor {}", a)) } }
            [ba, kind, name, rest @ ..] if (*ba == "before" || *ba == "after") => {
                let k: usize = rest.first().map(|k| k.parse().unwrap()).unwrap_or(0);
                let want = match *kind { "loop" => Want::Loop(name.parse().unwrap()), "call" => Want::Call(name.to_string(), k), "let" => Want::Let(name.to_string(), k), _ => panic!("anchor {}", a) };
                let mut v = Near { want, seen: 0, hit: false, before: *ba == "before", raw, done: false, bad: false };
                v.visit_block_mut(b);
                if !v.done || v.bad { return Err(format!("no place for the proof anchored {}", a)) }
            }
            _ => panic!("unknown anchor {}", a),
        }
    }
    for (a, text) in &s.proofs {
        if a == "end" {
            let raw = cx.raw(text.clone());
            let unit = matches!(sig.output, ReturnType::Default);
            if exits { Exits { raw: cx.raw(text.clone()), lp: false, depth: 0 }.visit_block_mut(b) }
            match b.stmts.last().cloned() {
                Some(Stmt::Expr(e, None)) if !unit => { b.stmts.pop(); b.stmts.push(parse_quote!(let __ret = #e;)); b.stmts.push(raw_stmt(raw)); b.stmts.push(Stmt::Expr(parse_quote!(__ret), None)) }
                Some(Stmt::Expr(e, None)) => { b.stmts.pop(); b.stmts.push(Stmt::Expr(e, Some(Default::default()))); b.stmts.push(raw_stmt(raw)) }
                _ => b.stmts.push(raw_stmt(raw)),
            }
        }
    }
    for (n, text) in &s.loops { let raw = cx.raw(text.clone()); let l = proc_macro2::Literal::usize_unsuffixed(raw); at_loop(b, *n, &mut |b| b.stmts.insert(0, parse_quote!(__vx_inv!(#l);))) }
    let k = b.stmts.iter().take_while(|s| if let Stmt::Local(l) = s { l.init.as_ref().map(|i| matches!(&*i.expr, Expr::Path(p) if p.path.is_ident("self") || sig.inputs.iter().any(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { p.path.is_ident(&i.ident) } else { false } } else { false }))).unwrap_or(false) } else { false }).count();
    for (a, text) in s.proofs.iter().rev() { if a == "start" { let raw = cx.raw(text.clone()); b.stmts.insert(k, raw_stmt(raw)) } }
    for (a, text) in s.proofs.iter() { if a == "head" { let raw = cx.raw(text.clone()); b.stmts.insert(0, raw_stmt(raw)) } }
    Ok(())
}
/// statements that bind the loop's item
fn take_count(b: &Block) -> usize {
    let mut n = 0;
    let mut last = 0;
    for s in &b.stmts { n += 1; if let Stmt::Local(l) = s { let t = l.to_token_stream().to_string(); if (t.contains("v_take") || t.contains("__pa")) && !t.contains('{') { last = n; continue } } break }
    last
}

pub fn take_nested(b: &mut Block, out: &mut Vec<ItemFn>) {
    let old = std::mem::take(&mut b.stmts);
    for s in old { if let Stmt::Item(Item::Fn(f)) = s { out.push(f) } else { b.stmts.push(s) } }
    let _ = (Span::call_site(), quote!());
}

/// gives a `let` without a type the one its contract names (the verifier needs it before it reads an invariant)
pub fn annotate(b: &mut Block, name: &str, ty: &str) {
    struct A<'a>(&'a str, Type);
    impl<'a> VisitMut for A<'a> {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if let Pat::Ident(i) = &l.pat { if i.ident == self.0 {
                let p = l.pat.clone();
                l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(self.1.clone()) });
            } }
            visit_mut::visit_local_mut(self, l);
        }
    }
    A(name, parse_str(ty).expect("type in a contract")).visit_block_mut(b);
}
