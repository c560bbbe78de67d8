//! A function without a contract is not a unit of verification: where a contracted function calls one (a helper
//! that was extracted from it, typically) the call is replaced by the helper's own body, arguments bound first.
//! What cannot be replaced faithfully is left alone, and the caller is then undecided.
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper { pub owner: Option<String>, pub sig: Signature, pub block: Block, ambiguous: bool }
#[derive(Clone, Default)]
pub struct Helpers { free: HashMap<String, Helper>, assoc: HashMap<(String, String), Helper>, methods: HashMap<String, Vec<String>> }

impl Helpers {
    pub fn add(&mut self, owner: Option<&str>, sig: &Signature, block: &Block) {
        let n = sig.ident.to_string();
        let mut h = Helper { owner: owner.map(|s| s.to_string()), sig: sig.clone(), block: block.clone(), ambiguous: false };
        match owner {
            None => { if self.free.contains_key(&n) { h.ambiguous = true } self.free.insert(n, h); }
            Some(o) => {
                if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) { self.methods.entry(n.clone()).or_default().push(o.to_string()) }
                if self.assoc.contains_key(&(o.to_string(), n.clone())) { h.ambiguous = true }
                self.assoc.insert((o.to_string(), n), h);
            }
        }
    }
    pub fn is_empty(&self) -> bool { self.free.is_empty() && self.assoc.is_empty() }
}

fn idents(ts: TokenStream, o: &mut HashSet<String>) { for t in ts { match t { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), o), _ => {} } } }
/// names a block binds
fn bound(b: &Block) -> HashSet<String> {
    struct B(HashSet<String>);
    impl VisitMut for B { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.insert(p.ident.to_string()); syn::visit_mut::visit_pat_ident_mut(self, p) } }
    let mut v = B(HashSet::new());
    v.visit_block_mut(&mut b.clone());
    v.0
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}
/// name -> place, wherever the name stands for a mutable reference to it
fn subst_place(ts: TokenStream, name: &str, pl: &TokenStream, refd: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = TokenStream::new();
    let is = |t: &TokenTree, c: char| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '*' && i + 1 < v.len() && matches!(&v[i + 1], TokenTree::Ident(n) if n == name)
                && !(i > 0 && matches!(&v[i - 1], TokenTree::Ident(_) | TokenTree::Literal(_) | TokenTree::Group(_)) && !matches!(&v[i - 1], TokenTree::Ident(n) if ["return", "in", "if", "match", "while", "else", "mut"].contains(&n.to_string().as_str()))) => { o.extend(pl.clone()); i += 2; continue }
            TokenTree::Ident(n) if n == name && !(i > 0 && is(&v[i - 1], '.') && !(i > 1 && is(&v[i - 2], '.'))) => {
                if i + 1 < v.len() && is(&v[i + 1], '.') && !(i + 2 < v.len() && is(&v[i + 2], '.')) { o.extend(pl.clone()) } else { o.extend(refd.clone()) }
            }
            TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), subst_place(g.stream(), name, pl, refd)); h.set_span(g.span()); o.extend([TokenTree::Group(h)]) }
            t => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}
struct Leave { ret: usize, err_ret: usize, q: usize, bad: bool }
impl VisitMut for Leave {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => { let s = r.expr.as_ref().map(|e| e.to_token_stream().to_string()).unwrap_or_default(); if s.starts_with("Err (") { self.err_ret += 1 } else { self.ret += 1 } }
            Expr::Try(_) => self.q += 1,
            Expr::Await(_) | Expr::Yield(_) | Expr::Async(_) | Expr::Unsafe(_) => self.bad = true,
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, i: &mut Item) { if !matches!(i, Item::Use(_)) { self.bad = true } }
}
fn leave(b: &Block) -> Leave { let mut l = Leave { ret: 0, err_ret: 0, q: 0, bad: false }; l.visit_block_mut(&mut b.clone()); l }
/// `if c { ..; return x; } rest` to `if c { ..; x } else { rest }`, and a last `return x;` to `x`
fn desugar(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last().cloned() {
        b.stmts.pop();
        match r.expr { Some(e) => b.stmts.push(Stmt::Expr(*e, None)), None => {} }
        return desugar(b);
    }
    // arms and branches of the last expression
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if let Expr::If(i) = e {
            desugar(&mut i.then_branch);
            if let Some((_, el)) = &mut i.else_branch { match &mut **el { Expr::Block(bl) => desugar(&mut bl.block), Expr::If(_) => { let inner = (**el).clone(); let mut bl = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(inner, None)] }; desugar(&mut bl); **el = Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl }) } _ => {} } }
            if i.else_branch.is_some() { *semi = None }
        } else if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() { let body = (*a.body).clone(); let mut bl = match body { Expr::Block(b) => b.block, x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x, None)] } }; desugar(&mut bl); *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl }) }
            *semi = None;
        } else if let Expr::Block(bl) = e { desugar(&mut bl.block) }
    }
    for k in 0..b.stmts.len() {
        let hit = match &b.stmts[k] { Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && k + 1 < b.stmts.len() => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))), _ => false };
        if hit {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            if let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() {
                desugar(&mut i.then_branch);
                let mut r = Block { brace_token: Default::default(), stmts: rest };
                desugar(&mut r);
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: r }))));
                b.stmts.push(Stmt::Expr(Expr::If(i), None));
            }
            return;
        }
    }
}
fn err_ty(s: &Signature) -> Option<String> { if let ReturnType::Type(_, t) = &s.output { if let Type::Path(p) = &**t { let l = p.path.segments.last()?; if l.ident == "Result" { let pre: String = p.path.segments.iter().take(p.path.segments.len() - 1).map(|s| s.ident.to_string() + "::").collect(); if let PathArguments::AngleBracketed(a) = &l.arguments { return Some(pre + &a.args.iter().nth(1).map(|x| x.to_token_stream().to_string()).unwrap_or_default()) } } } } None }

pub struct Inliner<'a> { h: &'a Helpers, own: Option<String>, caller_err: Option<String>, n: usize, depth: usize, pub done: Vec<String> }
impl Inliner<'_> {
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, under_try: bool) -> Option<Expr> {
        if h.ambiguous || self.depth > 4 || h.sig.asyncness.is_some() || h.sig.unsafety.is_some() { return None }
        let mut b = h.block.clone();
        desugar(&mut b);
        let l = leave(&b);
        if l.bad || l.ret > 0 { return None }
        if (l.q > 0 || l.err_ret > 0) && !(under_try && err_ty(&h.sig).is_some() && err_ty(&h.sig) == self.caller_err) { return None }
        let names = bound(&b);
        let mut body = b.to_token_stream();
        let mut pre: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        let generics: HashSet<String> = h.sig.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Lifetime(l) => Some(l.lifetime.ident.to_string()), GenericParam::Const(c) => Some(c.ident.to_string()) }).collect();
        let params: HashSet<String> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { return Some(i.ident.to_string()) } None } else { None }).collect();
        let mut it = h.sig.inputs.iter();
        let mut args = args.into_iter();
        if let Some(FnArg::Receiver(r)) = h.sig.inputs.first() {
            it.next();
            let e = match recv { Some(e) => e.clone(), None => args.next()? };
            let is_self = matches!(&e, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let inner = match &e { Expr::Reference(x) => (*x.expr).clone(), x => x.clone() };
                if r.reference.is_some() && place(&inner) {
                    let mut u = HashSet::new(); idents(inner.to_token_stream(), &mut u);
                    if u.iter().any(|x| names.contains(x) || params.contains(x)) { return None }
                    let t = inner.to_token_stream();
                    let rf = if r.mutability.is_some() { quote!(&mut #t) } else { quote!(&#t) };
                    body = subst_place(body, "self", &t, &rf);
                } else {
                    self.n += 1;
                    let id = format_ident!("__s{}", self.n);
                    if r.reference.is_some() { return None }
                    let m = r.mutability;
                    pre.push(parse_quote!(let #m #id = #e;));
                    body = super::rules::rename_tokens(body, &|s| if s == "self" { Some(id.to_string()) } else { None });
                }
            } else if h.owner != self.own { return None }
        }
        if h.owner != self.own { if let Some(o) = &h.owner { let o = o.clone(); body = super::rules::rename_tokens(body, &|s| if s == "Self" { Some(o.clone()) } else { None }) } else { let mut u = HashSet::new(); idents(body.clone(), &mut u); if u.contains("Self") { return None } } }
        for a in it {
            let FnArg::Typed(t) = a else { return None };
            let e = args.next()?;
            let is_mut_ref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
            if is_mut_ref {
                let Pat::Ident(pi) = &*t.pat else { return None };
                let pn = pi.ident.to_string();
                if names.contains(&pn) || pi.mutability.is_some() { return None }
                let (pl, rf) = match &e {
                    Expr::Reference(r) if r.mutability.is_some() && place(&r.expr) => { let x = &r.expr; (quote!(#x), quote!(&mut #x)) }
                    Expr::Path(p) if p.path.get_ident().is_some() => (quote!((*#e)), quote!(#e)),
                    _ => return None,
                };
                let mut u = HashSet::new(); idents(pl.clone(), &mut u);
                u.remove("self"); u.remove("mut");
                if u.iter().any(|x| names.contains(x) || (params.contains(x) && *x != pn)) { return None }
                if matches!(&e, Expr::Path(_)) { body = super::rules::rename_tokens(body, &|s| if s == pn { Some(e.to_token_stream().to_string()) } else { None }) }
                else { body = subst_place(body, &pn, &pl, &rf) }
                continue;
            }
            self.n += 1;
            let id = format_ident!("__h{}", self.n);
            let pat = &t.pat;
            let mut u = HashSet::new(); idents(t.ty.to_token_stream(), &mut u);
            let plain = !matches!(&*t.ty, Type::Reference(_) | Type::ImplTrait(_)) && !u.iter().any(|x| generics.contains(x) || x == "Self") && !t.ty.to_token_stream().to_string().contains('\'');
            if let Type::Reference(_) = &*t.ty {
                // a shared reference to a place stays that place
                if let Expr::Path(p) = &e { if p.path.get_ident().is_some() { if let Pat::Ident(pi) = &**pat { if pi.ident == *p.path.get_ident().unwrap() { continue } } } }
            }
            let ty = &t.ty;
            if plain { pre.push(parse_quote!(let #id: #ty = #e;)) } else { pre.push(parse_quote!(let #id = #e;)) }
            second.push(parse_quote!(let #pat = #id;));
        }
        if args.next().is_some() { return None }
        let inner: Block = parse2(body).ok()?;
        let mut all = Block { brace_token: Default::default(), stmts: vec![] };
        // one binding needs no second name
        if pre.len() == 1 && second.len() == 1 {
            if let (Stmt::Local(p), Stmt::Local(s)) = (&pre[0], &second[0]) {
                let mut p = p.clone();
                p.pat = match &p.pat { Pat::Type(t) => { let mut t = t.clone(); t.pat = Box::new(s.pat.clone()); Pat::Type(t) } _ => s.pat.clone() };
                all.stmts.push(Stmt::Local(p));
            }
        } else { all.stmts.extend(pre); all.stmts.extend(second) }
        all.stmts.extend(inner.stmts);
        self.done.push(h.sig.ident.to_string());
        self.depth += 1;
        let saved = self.own.clone();
        self.visit_block_mut(&mut all);
        self.own = saved;
        self.depth -= 1;
        if all.stmts.len() == 1 { if let Stmt::Expr(e, None) = &all.stmts[0] { return Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) })) } }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: all }))
    }
    fn try_call(&mut self, e: &Expr, under_try: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match s.len() {
                    1 => self.h.free.get(&s[0]).cloned(),
                    2 => { let o = if s[0] == "Self" { self.own.clone()? } else { s[0].clone() }; self.h.assoc.get(&(o, s[1].clone())).cloned() }
                    _ => None,
                }?;
                self.expand(&h, None, c.args.iter().cloned().collect(), under_try)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let owners = self.h.methods.get(&n)?;
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let o = if is_self { self.own.clone()? } else if owners.len() == 1 { owners[0].clone() } else { return None };
                let h = self.h.assoc.get(&(o, n)).cloned()?;
                self.expand(&h, Some(&m.receiver), m.args.iter().cloned().collect(), under_try)
            }
            _ => None,
        }
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e { if let Some(x) = self.try_call(&t.expr, true) { *t.expr = x; return } }
        if let Some(x) = self.try_call(e, false) { *e = x; return }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        syn::visit_mut::visit_stmt_mut(self, s);
        // a block statement and a parenthesised unit
        if let Stmt::Expr(Expr::Paren(p), Some(_)) = s { if let Expr::Block(_) = &*p.expr { let b = (*p.expr).clone(); *s = Stmt::Expr(b, Some(Default::default())) } }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// inline the helpers a contracted function calls; the names inlined
pub fn inline(h: &Helpers, own: Option<&str>, sig: &Signature, b: &mut Block) -> Vec<String> {
    if h.is_empty() { return vec![] }
    let mut i = Inliner { h, own: own.map(|s| s.to_string()), caller_err: err_ty(sig), n: 0, depth: 0, done: vec![] };
    i.visit_block_mut(b);
    let _ = (Span::call_site(), Ident::new("x", Span::call_site()));
    i.done
}
