//! vx: extracts the Rust sources of /repo mechanically into one Verus file.
//!   vx --repo DIR --specs DIR --out FILE --map FILE [--external path,path] [--bare path,path] [--lax]
//!   --external keeps the contract and drops the body; --bare drops both (the contract does not fit this tree)
//! The executable text of every function is the repository's, after the source-to-source rules listed in
//! DESIGN.md ("Extraction"); contracts, invariants and proof text come from --specs and are attached by
//! function path, loop number and anchor.  Nothing of a function's body comes from --specs.
mod inline;
mod printer;
mod rules;
mod spec;

use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Cx {
    pub specs: BTreeMap<String, spec::FnSpec>,
    pub external: HashSet<String>,
    pub bare: HashSet<String>,
    /// functions whose closing proof text is repeated at every early exit
    pub exits: HashSet<String>,
    pub report: Vec<FnReport>,
    pub raws: Vec<String>,
    pub dropped: Vec<String>,
    pub macros: HashMap<String, TokenStream>,
    pub calls: HashMap<String, Vec<String>>,
    pub extra_mods: HashSet<String>,
    pub helpers: inline::Helpers,
    pub inlined: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct FnReport { pub path: String, pub file: String, pub line: usize, pub status: String, pub why: String, pub clauses: usize, pub calls: Vec<String>, pub loops: usize }

impl Cx {
    pub fn raw(&mut self, s: String) -> usize { self.raws.push(s); self.raws.len() - 1 }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let repo = PathBuf::from(opt("--repo").unwrap_or("/repo".into()));
    let specs_dir = PathBuf::from(opt("--specs").unwrap());
    let out = opt("--out").unwrap();
    let mut cx = Cx { specs: spec::load(&specs_dir), external: opt("--external").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), bare: opt("--bare").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), exits: opt("--exits").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), report: vec![], raws: vec![], dropped: vec![], macros: HashMap::new(), calls: HashMap::new(), extra_mods: HashSet::new(), helpers: Default::default(), inlined: vec![] };
    if let Ok(rd) = std::fs::read_dir(&specs_dir) {
        for e in rd { let n = e.unwrap().file_name().into_string().unwrap(); if let Some(m) = n.strip_suffix("_spec.rs") { cx.extra_mods.insert(m.to_string()); } }
    }
    let mut pr = printer::Printer::default();
    pr.line("// generated by vx from the current tree; do not edit");
    pr.line("#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, dead_code)]");
    pr.line("#![verifier::loop_isolation(false)]");
    pr.line("use vstd::prelude::*;");
    pr.line("verus! {");
    for f in ["prelude.rs"] { pr.text(&std::fs::read_to_string(specs_dir.join(f)).unwrap()); }
    let mut ms: Vec<_> = cx.extra_mods.iter().cloned().collect();
    ms.sort();
    for m in ms { pr.text(&std::fs::read_to_string(specs_dir.join(format!("{}_spec.rs", m))).unwrap()); }
    module(&mut cx, &mut pr, &repo.join("src/lib.rs"), &repo.join("src"), "", true);
    if let Some(w) = opt("--with") { pr.text(&std::fs::read_to_string(w).unwrap()); pr.nl(); }
    pr.line("} // verus!");
    pr.line("fn main() {}");
    let raws = cx.raws.clone();
    let (text, map) = pr.finish(&raws);
    std::fs::write(&out, text).unwrap();
    // report
    let missing: Vec<String> = cx.specs.keys().filter(|k| !cx.report.iter().any(|r| &r.path == *k)).cloned().collect();
    let js = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
    let mut j = String::from("{\n\"functions\":[\n");
    for (i, r) in cx.report.iter().enumerate() {
        let sp = cx.specs.get(&r.path);
        j.push_str(&format!("{}{{\"path\":{},\"file\":{},\"line\":{},\"status\":{},\"why\":{},\"clauses\":{},\"loops\":{},\"props\":[{}],\"calls\":[{}]}}", if i > 0 { ",\n" } else { "" }, js(&r.path), js(&r.file), r.line, js(&r.status), js(&r.why), r.clauses, r.loops, sp.map(|s| s.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(",")).unwrap_or_default(), r.calls.iter().map(|p| js(p)).collect::<Vec<_>>().join(",")));
    }
    j.push_str("\n],\n\"missing\":[");
    j.push_str(&missing.iter().map(|m| js(m)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"dropped\":[");
    j.push_str(&cx.dropped.iter().map(|m| js(m)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"inlined\":[");
    j.push_str(&cx.inlined.iter().map(|m| js(m)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"lines\":[");
    j.push_str(&map.iter().map(|(g, f, l, file)| format!("[{},{},{},{}]", g, js(f), l, js(file))).collect::<Vec<_>>().join(",\n"));
    j.push_str("]}\n");
    std::fs::write(opt("--map").unwrap_or(format!("{}.json", out)), j).unwrap();
}

fn cfg_test(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

fn module(cx: &mut Cx, pr: &mut printer::Printer, file: &Path, dir: &Path, path: &str, root: bool) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{}: {}", file.display(), e); std::process::exit(3) });
    let toks: TokenStream = match text.parse() { Ok(t) => t, Err(e) => { eprintln!("{}: {}", file.display(), e); std::process::exit(3) } };
    let toks = rules::rename_tokens(toks, &|s| if rules::KEYWORDS.contains(&s) { Some(format!("{}_", s)) } else { None });
    let ast = match syn::parse2::<File>(toks) { Ok(a) => a, Err(e) => { eprintln!("{}: {}", file.display(), e); std::process::exit(3) } };
    pr.set_file(&file.display().to_string());
    items(cx, pr, ast.items, file, dir, path, root);
}

fn items(cx: &mut Cx, pr: &mut printer::Printer, its: Vec<Item>, file: &Path, dir: &Path, path: &str, root: bool) {
    // macro_rules first: they may be used anywhere below
    for it in &its { if let Item::Macro(m) = it { if let (true, Some(id)) = (m.mac.path.is_ident("macro_rules"), &m.ident) { if let Some(b) = rules::simple_macro(&m.mac.tokens) { cx.macros.insert(id.to_string(), b); } } } }
    // functions without a contract, to be inlined where a contracted one calls them
    let saved = std::mem::take(&mut cx.helpers);
    let under = |p: &str, n: &str| if p.is_empty() { n.to_string() } else { format!("{}::{}", p, n) };
    for it in &its {
        match it {
            Item::Fn(f) if !cfg_test(&f.attrs) && !cx.specs.contains_key(&under(path, &f.sig.ident.to_string())) => cx.helpers.add(None, &f.sig, &f.block),
            Item::Impl(i) if i.trait_.is_none() && !cfg_test(&i.attrs) => { let t = ty_name(&i.self_ty); for x in &i.items { if let ImplItem::Fn(f) = x { if !cfg_test(&f.attrs) && !cx.specs.contains_key(&under(&under(path, &t), &f.sig.ident.to_string())) { cx.helpers.add(Some(&t), &f.sig, &f.block) } } } }
            _ => {}
        }
    }
    items_(cx, pr, its, file, dir, path, root);
    cx.helpers = saved;
}

fn items_(cx: &mut Cx, pr: &mut printer::Printer, its: Vec<Item>, file: &Path, dir: &Path, path: &str, root: bool) {
    if !root {
        pr.line("use vstd::prelude::*;");
        pr.line("use crate::prelude::*;");
        let mut ms: Vec<_> = cx.extra_mods.iter().cloned().collect();
        ms.sort();
        for m in ms { pr.line(&format!("use crate::{}_spec::*;", m)); }
    }
    for it in its {
        match it {
            Item::Mod(m) => {
                if cfg_test(&m.attrs) { continue }
                let name = m.ident.to_string();
                let sub = if path.is_empty() { name.clone() } else { format!("{}::{}", path, name) };
                pr.line(&format!("pub mod {} {{", name));
                match m.content {
                    Some((_, v)) => items(cx, pr, v, file, &dir.join(&name), &sub, false),
                    None => {
                        let mut f = dir.join(format!("{}.rs", name));
                        if !f.exists() { f = dir.join(&name).join("mod.rs") }
                        module(cx, pr, &f, &dir.join(&name), &sub, false);
                        pr.set_file(&file.display().to_string());
                    }
                }
                pr.line("}");
            }
            Item::Use(u) => { if cfg_test(&u.attrs) { continue } for s in rules::map_use(&u) { pr.line(&s) } }
            Item::ExternCrate(_) | Item::Macro(_) => {}
            Item::Struct(mut s) => {
                if cfg_test(&s.attrs) { continue }
                let d = rules::derives(&s.attrs);
                let derives_ord = rules::derives_ord(&s.attrs);
                s.vis = parse_quote!(pub);
                s.attrs.clear();
                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); rules::types(&mut f.ty) }
                if !d.is_empty() { pr.line(&d) }
                let id = s.ident.clone();
                let plain = s.generics.params.is_empty();
                pr.tokens(s.to_token_stream());
                pr.nl();
                // the derived order compares every field
                if plain { pr.line(&format!("impl {} {{ pub open spec fn ord_derived() -> bool {{ {} }} }}", id, derives_ord)) }
                // the derived equality is structural
                if d.contains("PartialEq") && plain { pr.line(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {0} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{0}) -> bool {{ *self == *o }} }}", id)) }
            }
            Item::Enum(mut s) => {
                if cfg_test(&s.attrs) { continue }
                let d = rules::derives(&s.attrs);
                s.vis = parse_quote!(pub);
                s.attrs.clear();
                for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); rules::types(&mut f.ty) } }
                if !d.is_empty() { pr.line(&d) }
                let id = s.ident.clone();
                let plain = s.generics.params.is_empty();
                pr.tokens(s.to_token_stream());
                pr.nl();
                // the derived equality is structural
                if d.contains("PartialEq") && plain { pr.line(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {0} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{0}) -> bool {{ *self == *o }} }}", id)) }
            }
            Item::Type(mut t) => { t.vis = parse_quote!(pub); t.attrs.clear(); rules::types(&mut t.ty); pr.tokens(t.to_token_stream()); pr.nl() }
            Item::Const(mut c) => { c.vis = parse_quote!(pub); c.attrs.clear(); pr.tokens(c.to_token_stream()); pr.nl() }
            Item::Fn(f) => { if cfg_test(&f.attrs) || f.attrs.iter().any(|a| a.path().is_ident("test")) { continue } function(cx, pr, f.sig, Some(*f.block), path, file, &HashMap::new()) }
            Item::Impl(i) => implementation(cx, pr, i, path, file),
            Item::Static(_) | Item::Trait(_) | Item::TraitAlias(_) | Item::Union(_) | _ => cx.dropped.push(format!("{}: item not extracted", path)),
        }
    }
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn implementation(cx: &mut Cx, pr: &mut printer::Printer, mut i: ItemImpl, path: &str, file: &Path) {
    if cfg_test(&i.attrs) { return }
    let tname = ty_name(&i.self_ty);
    let p = if path.is_empty() { tname.clone() } else { format!("{}::{}", path, tname) };
    if let Some((_, tp, _)) = &i.trait_ {
        let tn = tp.segments.last().unwrap().ident.to_string();
        match tn.as_str() {
            "Default" | "Into" | "From" => {}
            _ => { cx.dropped.push(format!("impl {} for {}", tp.to_token_stream(), p)); return }
        }
        if tn == "Into" && !["Path"].contains(&"") {
            // an Into for a foreign type becomes a free function
            if let Type::Path(q) = &*i.self_ty { if q.path.segments.last().unwrap().ident == "Vec" {
                for it in i.items { if let ImplItem::Fn(mut f) = it {
                    f.sig.ident = Ident::new("vec_into", f.sig.ident.span());
                    let st = i.self_ty.clone();
                    let self_arg: FnArg = parse_quote!(self_: #st);
                    f.sig.inputs = std::iter::once(self_arg).collect();
                    rules::rename_self(&mut f.block);
                    function(cx, pr, f.sig, Some(f.block), &format!("{}::Vec", path), file, &HashMap::new());
                } }
                return
            } }
        }
    }
    i.trait_ = None;
    i.attrs.clear();
    let g = i.generics.clone();
    let (ig, _, wc) = g.split_for_impl();
    let st = &i.self_ty;
    pr.tokens(quote!(impl #ig #st #wc));
    pr.line(" {");
    let mut its: Vec<ImplItem> = vec![];
    for it in i.items {
        match it {
            ImplItem::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match cx.macros.get(&n) {
                    Some(b) => { let blk: ItemImpl = syn::parse2(quote!(impl X { #b })).expect("macro body"); its.extend(blk.items) }
                    None => cx.dropped.push(format!("macro {}! in {}", n, p)),
                }
            }
            x => its.push(x),
        }
    }
    for it in its {
        match it {
            ImplItem::Fn(f) => { if cfg_test(&f.attrs) { continue } function(cx, pr, f.sig, Some(f.block), &p, file, &HashMap::new()) }
            ImplItem::Const(mut c) => { c.vis = parse_quote!(pub); c.attrs.clear(); pr.tokens(c.to_token_stream()); pr.nl() }
            ImplItem::Type(_) => {}
            _ => cx.dropped.push(format!("{}: impl item", p)),
        }
    }
    pr.line("}");
}

/// Print one function: mapped signature, contract, rewritten body with the proof text attached.
pub fn function(cx: &mut Cx, pr: &mut printer::Printer, mut sig: Signature, block: Option<Block>, path: &str, file: &Path, _env: &HashMap<String, String>) {
    let fpath = format!("{}::{}", path, sig.ident).trim_start_matches("::").to_string();
    let line = sig.ident.span().start().line;
    let mut block = block.unwrap();
    let mut rep = FnReport { path: fpath.clone(), file: file.display().to_string(), line, status: "verified".into(), why: String::new(), clauses: 0, calls: vec![], loops: 0 };
    if cx.specs.contains_key(&fpath) && !cx.bare.contains(&fpath) {
        // helpers nested in the function come with it
        let mut h = cx.helpers.clone();
        let nested: Vec<ItemFn> = block.stmts.iter().filter_map(|s| if let Stmt::Item(Item::Fn(f)) = s { Some(f.clone()) } else { None }).collect();
        for f in nested { if !cx.specs.contains_key(&format!("{}::{}", fpath, f.sig.ident)) { h.add(None, &f.sig, &f.block) } }
        let own = path.rsplit("::").next().filter(|s| s.chars().next().map_or(false, |c| c.is_uppercase())).map(|s| s.to_string());
        for n in inline::inline(&h, own.as_deref(), &sig, &mut block) { cx.inlined.push(format!("{} <- {}", fpath, n)) }
    }
    rules::signature(&mut sig, &mut block);
    let mut rw = rules::Rewriter::new();
    rw.function(&sig, &mut block);
    for d in rw.dropped.drain(..) { cx.dropped.push(format!("{}: {}", fpath, d)) }
    rep.calls = rules::calls(&block);
    // nested functions are printed inside the body; their contracts are attached by path too
    let bare = cx.bare.contains(&fpath);
    let sp = if bare { None } else { cx.specs.get(&fpath).cloned() };
    let mut external = bare || cx.external.contains(&fpath);
    if external { rep.status = "undecided".into(); rep.why = "outside the verifier's reach on this tree".into() }
    if let Some(s) = &sp { if let Some(w) = &s.skip { external = true; rep.status = "trusted".into(); rep.why = w.clone() } }
    let nl = rules::number_loops(&mut block);
    rep.loops = nl;
    let mut ret = "r".to_string();
    let mut clauses = String::new();
    if let Some(s) = &sp {
        ret = s.ret.clone().unwrap_or(ret);
        rep.clauses = s.nclauses();
        clauses = s.clauses();
        if !external {
            for (n, t) in &s.types { rules::annotate(&mut block, n, t) }
            match rules::attach(cx, &mut block, s, nl, &sig, cx.exits.contains(&fpath)) {
                Ok(()) => {}
                Err(w) => { external = true; rep.status = "undecided".into(); rep.why = w }
            }
        }
    } else if !external {
        rep.status = "uncontracted".into();
        if !std::env::args().any(|a| a == "--lax") { external = true }
    }
    pr.set_fn(&fpath);
    if external { pr.line("#[verifier::external_body]") }
    if let Some(s) = &sp { for a in &s.attrs { pr.line(a) } }
    if rules::RENAMED.contains(&sig.ident.to_string().as_str()) { sig.ident = Ident::new(&format!("v_{}", sig.ident), sig.ident.span()) }
    let out = std::mem::replace(&mut sig.output, ReturnType::Default);
    pr.tokens(quote!(pub #sig));
    // the where clause is part of sig's tokens; none of the extracted functions keeps one
    if let ReturnType::Type(_, t) = out { pr.text(&format!(" -> ({}: ", ret)); pr.tokens(t.to_token_stream()); pr.text(")"); }
    pr.nl();
    pr.text(&clauses);
    pr.nl();
    if external { pr.line("{ unimplemented!() }") } else {
        // nested functions
        let mut nested = vec![];
        rules::take_nested(&mut block, &mut nested);
        pr.line("{");
        for f in nested { function(cx, pr, f.sig, Some(*f.block), &fpath, file, &HashMap::new()); pr.set_fn(&fpath) }
        let mut ts = TokenStream::new();
        for s in &block.stmts { s.to_tokens(&mut ts) }
        pr.tokens(ts);
        pr.line("");
        pr.line("}");
    }
    pr.set_fn("");
    cx.report.push(rep);
    let _ = Span::call_site();
}
