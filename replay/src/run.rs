//! Runs a case against the real crate and against the model, and reports every difference, per property.
use crate::case::*;
use crate::model::*;
use faerie::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub type Bad = Vec<(&'static str, String)>;
pub const ELF_PROPS: &[&str] = &["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22"];
pub const MAC_PROPS: &[&str] = &["C12", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];

fn bf(f: Fmt) -> BinaryFormat { if f == Fmt::Elf { BinaryFormat::Elf } else { BinaryFormat::Macho } }

fn prop_of(op: &str) -> &'static str { match op { "declare" => "C01", "define" => "C02", "link" => "C03", _ => "C05" } }

fn cmp(bad: &mut Bad, what: &str, desc: &str, got: std::thread::Result<Result<(), ArtifactError>>, want: Result<(), Vec<E>>) {
    let p = prop_of(what);
    match (got, want) {
        (Err(_), w) => bad.push((p, format!("{} panicked; expected {:?}", desc, w))),
        (Ok(Ok(())), Ok(())) => {}
        (Ok(Err(e)), Ok(())) => bad.push((p, format!("{} was refused with {:?}; it is legal", desc, err(e)))),
        (Ok(Ok(())), Err(w)) => bad.push((p, format!("{} was accepted; expected one of {:?}", desc, w))),
        (Ok(Err(e)), Err(w)) => { let e = err(e); if !w.contains(&e) { bad.push((p, format!("{} was refused with {:?}; expected one of {:?}", desc, e, w))) } }
    }
}

fn state(bad: &mut Bad, a: &Artifact, m: &Model, p: &'static str, when: &str) {
    let mut im: Vec<(String, ImportKind)> = a.imports().map(|(n, k)| (n.to_string(), k.clone())).collect();
    im.sort();
    let w = m.imports();
    if im != w { bad.push(("C04", format!("{}: imports are {:?}, expected {:?}", when, im, w))) }
    let u = catch_unwind(AssertUnwindSafe(|| a.undefined_symbols()));
    let w = m.undefined();
    match u {
        Ok(u) => if u != w {
            let (mut us, mut ws) = (u.clone(), w.clone());
            us.sort(); ws.sort();
            bad.push(("C05", format!("{}: undefined symbols are {:?}, expected {:?}", when, u, w)));
            if us != ws && p != "C05" { bad.push((p, format!("{}: undefined symbols are {:?}, expected {:?}", when, u, w))) }
        },
        Err(_) => bad.push(("C05", format!("{}: undefined_symbols panicked", when))),
    }
}

fn emission(bad: &mut Bad, c: &Case, a: &Artifact, m: &Model, t: &Triple, last: bool) {
    let undef = m.undefined();
    for f in [BinaryFormat::Coff, BinaryFormat::Wasm, BinaryFormat::Unknown] {
        let want_u = E::Unsupported(format!("{:?}", f));
        match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) {
            Err(_) => bad.push(("C05", format!("emit_as({:?}) panicked", f))),
            Ok(Ok(_)) => bad.push(("C05", format!("emit_as({:?}) produced bytes", f))),
            Ok(Err(e)) => { let e = err(e); if !(e == want_u || (!undef.is_empty() && e == E::Undefined(undef.clone()))) { bad.push(("C05", format!("emit_as({:?}) failed with {:?}, expected {:?}", f, e, want_u))) } }
        }
        if !last { break }
    }
    let f = bf(c.fmt);
    if !undef.is_empty() {
        match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) {
            Ok(Err(e)) if err_eq(&e, &undef) => {}
            Ok(Err(e)) => bad.push(("C05", format!("emission failed with {:?}, expected the undefined symbols {:?}", err(e), undef))),
            Ok(Ok(_)) => bad.push(("C05", format!("emission succeeded although {:?} are undefined", undef))),
            Err(_) => bad.push(("C05", format!("emission panicked although it should report the undefined symbols {:?}", undef))),
        }
        return;
    }
    if m.domain(c.fmt, &c.name, t).is_err() { return }
    let props = if c.fmt == Fmt::Elf { ELF_PROPS } else { MAC_PROPS };
    let b = match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => { let e = err(e); bad.push(("C05", format!("emission of a complete artifact failed with {:?}", e))); for p in props { bad.push((p, format!("no object was emitted: {:?}", e))) } return }
        Err(_) => { bad.push(("C05", "emission of a complete artifact panicked".into())); for p in props { bad.push((p, "no object was emitted: emission panicked".into())) } return }
    };
    match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) { Ok(Ok(x)) if x == b => {} _ => bad.push(("C05", "a second emission gave different bytes".into())) }
    if t.binary_format == f { match catch_unwind(AssertUnwindSafe(|| a.emit())) { Ok(Ok(x)) if x == b => {} _ => bad.push(("C05", "emit() differs from emit_as(the target's format)".into())) } }
    let mut here: Bad = vec![];
    check(c.fmt, m, c, t, &b, &mut here);
    // a fault that shows in both formats lies in what the artifact recorded
    if !here.is_empty() {
        let other = if c.fmt == Fmt::Elf { Fmt::Macho } else { Fmt::Elf };
        if m.domain(other, &c.name, t).is_ok() {
            let mut there: Bad = vec![];
            match catch_unwind(AssertUnwindSafe(|| a.emit_as(bf(other)))) { Ok(Ok(b)) => check(other, m, c, t, &b, &mut there), _ => {} }
            for (p, e, k) in [("C01", &["C07", "C08"][..], &["C17", "C18"][..]), ("C02", &["C06"], &["C16"]), ("C02", &["C08", "C10"], &["C18", "C19"]), ("C03", &["C11"], &["C20"])] {
                let (x, y): (&[&str], &[&str]) = if c.fmt == Fmt::Elf { (e, k) } else { (k, e) };
                let about = |h: &&(&str, String)| p != "C02" || k[0] == "C16" || h.1.contains("custom symbol") || h.1.contains("symbols named") || h.1.contains(" times, found ");
                if let (Some(h), Some(g)) = (here.iter().filter(about).find(|h| x.contains(&h.0)), there.iter().filter(about).find(|h| y.contains(&h.0))) { bad.push((p, format!("what was recorded differs in both formats: {} / {}", h.1, g.1))) }
            }
        }
    }
    // the same history again, without the emissions in between, on another thread
    if last && (c.ops.len() % 4 == 0 || c.ops.iter().filter(|o| matches!(o, Op::Emit)).count() > 1) && m.decls.len() < 400 {
        let again = std::thread::scope(|s| s.spawn(|| build(c, t).0.emit_as(f).ok()).join());
        if !matches!(again, Ok(Some(x)) if x == b) { bad.push(("C05", "the same history gives other bytes when it does not emit in between".into())) }
    }
    if last && here.is_empty() && m.decls.len() < 100 { without_zero(bad, c, m, t, f, &b) }
    bad.extend(here);
}
/// the contents of all other definitions are placed as if the zero-initialized ones were not there
fn without_zero(bad: &mut Bad, c: &Case, m: &Model, t: &Triple, f: BinaryFormat, b: &[u8]) {
    let zero: std::collections::HashSet<&str> = m.defs().filter(|d| d.2.bytes.is_zero()).map(|d| d.0).collect();
    if zero.is_empty() || c.ops.iter().any(|o| matches!(o, Op::Bulk(..) | Op::BulkSect(..) | Op::BulkLink(..))) { return }
    let z = |n: &String| zero.contains(n.as_str());
    let mut d = c.clone();
    d.ops.retain(|o| match o { Op::Declare(n, _) | Op::Import(n, _) | Op::Define(n, _, _) | Op::DeclareWith(n, _, _) => !z(n), Op::Link(x, y, _, _) => !z(x) || !z(y), _ => true });
    // a name mentioned by a link for the first time counts, so the other end stays
    for o in &mut d.ops { if let Op::Link(x, y, _, _) = o { if z(x) { *x = y.clone() } else if z(y) { *y = x.clone() } } }
    for o in &mut d.ops { if let Op::Declarations(v) = o { if v.iter().any(|x| z(&x.0)) { return } } }
    let (a2, m2) = match catch_unwind(AssertUnwindSafe(|| build(&d, t))) { Ok(x) => x, _ => return };
    let b2 = match catch_unwind(AssertUnwindSafe(|| a2.emit_as(f))) { Ok(Ok(x)) => x, _ => return };
    let (p, p2) = match c.fmt {
        Fmt::Elf => (crate::elf::places(m, b), crate::elf::places(&m2, &b2)),
        Fmt::Macho => { let (mut p, mut q) = Default::default(); crate::mach::check_places(m, t, b, &mut |_, _| {}, &mut p); crate::mach::check_places(&m2, t, &b2, &mut |_, _| {}, &mut q); (p, q) }
    };
    for (n, x) in &p2 { if p.get(n) != Some(x) { bad.push(("C22", format!("the contents of {:?} lie at {:?}; without the zero-initialized objects they lie at {:#x}", n, p.get(n), x))); break } }
}
fn check(f: Fmt, m: &Model, c: &Case, t: &Triple, b: &[u8], bad: &mut Bad) {
    match f {
        Fmt::Elf => crate::elf::check(m, &c.name, t, b, &mut |p, s| bad.push((p, s))),
        Fmt::Macho => crate::mach::check(m, t, b, &mut |p, s| bad.push((p, s))),
    }
}
fn err_eq(e: &ArtifactError, u: &[String]) -> bool { matches!(e, ArtifactError::UndefinedSymbols(v) if v == u) }

/// through a file: what is written is what emit_as returns, and an error writes nothing
pub fn file_check(c: &Case, dir: &std::path::Path) -> Bad {
    let mut bad = vec![];
    let t = match Triple::from_str(&c.triple) { Ok(t) => t, _ => return bad };
    let (a, m) = build(c, &t);
    if m.undefined().is_empty() && m.domain(c.fmt, &c.name, &t).is_err() { return bad }
    let f = bf(c.fmt);
    let p = dir.join("out.o");
    for direct in [false, true] {
        if direct && t.binary_format != f { continue }
        let h = match std::fs::File::create(&p) { Ok(h) => h, _ => return bad };
        let w = catch_unwind(AssertUnwindSafe(|| if direct { a.write(h) } else { a.write_as(h, f) }));
        let got = std::fs::read(&p).unwrap_or_default();
        let e = catch_unwind(AssertUnwindSafe(|| a.emit_as(f)));
        match (w, e) {
            (Ok(Ok(())), Ok(Ok(x))) => if x != got { bad.push(("C05", format!("the file holds {} bytes that differ from the {} emitted", got.len(), x.len()))) },
            (Ok(Err(e1)), Ok(Err(e2))) => { if err(e1) != err(e2) { bad.push(("C05", "write and emit fail differently".into())) } if !got.is_empty() { bad.push(("C05", "a failed write left bytes in the file".into())) } }
            (Err(_), Err(_)) => {}
            _ => bad.push(("C05", "write and emit disagree about success".into())),
        }
    }
    let _ = std::fs::remove_file(&p);
    bad
}

fn build(c: &Case, t: &Triple) -> (Artifact, Model) {
    let mut a = Artifact::new(t.clone(), c.name.clone());
    let mut m = Model::default();
    let mut bad = vec![];
    for op in &c.ops { if let Op::Emit = op { continue } step(&mut a, &mut m, op, &mut bad, false) }
    (a, m)
}

fn define(a: &mut Artifact, n: &str, b: &Bytes, s: &[(String, u64)]) -> std::thread::Result<Result<(), ArtifactError>> {
    let d = match b { Bytes::Zero(k) => Data::ZeroInit(*k), _ => Data::Blob(b.blob().unwrap()) };
    let s: std::collections::BTreeMap<String, u64> = s.iter().cloned().collect();
    catch_unwind(AssertUnwindSafe(|| if s.is_empty() { match d { Data::Blob(v) => a.define(n, v), Data::ZeroInit(k) => a.define_zero_init(n, k) } } else { a.define_with_symbols(n, d, s) }))
}

fn step(a: &mut Artifact, m: &mut Model, op: &Op, bad: &mut Bad, states: bool) {
    let (p, when) = match op {
        Op::Declare(n, d) => { let g = catch_unwind(AssertUnwindSafe(|| a.declare(n.as_str(), *d))); let w = m.declare(n, *d); cmp(bad, "declare", &format!("declare({:?}, {})", n, decl_str(d)), g, w); ("C01", format!("after declare({:?}, {})", n, decl_str(d))) }
        Op::Import(n, k) => { let g = catch_unwind(AssertUnwindSafe(|| a.import(n.as_str(), k.clone()))); let w = m.declare(n, Decl::Import(k.clone())); cmp(bad, "declare", &format!("import({:?}, {:?})", n, k), g, w); ("C01", format!("after import({:?}, {:?})", n, k)) }
        Op::Declarations(v) => {
            let vv = v.clone();
            let g = catch_unwind(AssertUnwindSafe(|| a.declarations(vv.into_iter())));
            let mut w = Ok(());
            for (n, d) in v { w = m.declare(n, *d); if w.is_err() { break } }
            cmp(bad, "declare", &format!("declarations({:?})", v), g, w);
            ("C01", "after declarations".into())
        }
        Op::Define(n, b, s) => { let g = define(a, n, b, s); let w = m.define(n, b, s); cmp(bad, "define", &format!("define({:?})", n), g, w); ("C02", format!("after define({:?})", n)) }
        Op::DeclareWith(n, d, b) => {
            let bb = b.blob().unwrap_or_default();
            let g = catch_unwind(AssertUnwindSafe(|| a.declare_with(n.as_str(), *d, bb)));
            let w = m.declare(n, *d).and_then(|_| m.define(n, b, &[]));
            let r = matches!(&w, Err(e) if matches!(e[0], E::Incompatible(..)));
            cmp(bad, if r { "declare" } else { "define" }, &format!("declare_with({:?}, {})", n, decl_str(d)), g, w);
            ("C02", format!("after declare_with({:?})", n))
        }
        Op::Link(f, t, at, r) => { let g = catch_unwind(AssertUnwindSafe(|| { let l = Link { from: f, to: t, at: *at }; if *r == Reloc::Auto { a.link(l) } else { a.link_with(l, *r) } })); let w = m.link(f, t, *at, *r); cmp(bad, "link", &format!("link({:?} -> {:?} at {})", f, t, at), g, w); ("C03", format!("after link({:?} -> {:?})", f, t)) }
        Op::Bulk(pfx, n) => { for i in 0..*n { let nm = format!("{}{}", pfx, i); let d: Decl = if i % 3 == 0 { Decl::function().into() } else { Decl::function().global().into() }; let g = a.declare_with(&nm, d, vec![i as u8]); let w = m.declare(&nm, d).and_then(|_| m.define(&nm, &Bytes::Raw(vec![i as u8]), &[])); cmp(bad, "define", &nm, Ok(g), w) } ("C02", "after bulk".into()) }
        Op::BulkSect(pfx, n) => { for i in 0..*n { let nm = format!("{}{}", pfx, i); let d: Decl = Decl::section(SectionKind::Debug).into(); let g = a.declare_with(&nm, d, vec![i as u8]); let w = m.declare(&nm, d).and_then(|_| m.define(&nm, &Bytes::Raw(vec![i as u8]), &[])); cmp(bad, "define", &nm, Ok(g), w) } ("C02", "after bulk".into()) }
        Op::BulkLink(pfx, n, t) => { for i in 0..*n { let nm = format!("{}{}", pfx, i); let r = Reloc::Raw { reloc: 1, addend: 0 }; let g = a.link_with(Link { from: &nm, to: t, at: 0 }, r); let w = m.link(&nm, t, 0, r); cmp(bad, "link", &nm, Ok(g), w) } ("C03", "after bulk".into()) }
        Op::Emit => return,
    };
    if states { state(bad, a, m, p, &when) }
}

pub fn run(c: &Case) -> Bad {
    let mut bad = vec![];
    let t = match Triple::from_str(&c.triple) { Ok(t) => t, _ => return bad };
    let mut a = Artifact::new(t.clone(), c.name.clone());
    let mut m = Model::default();
    let big = c.ops.iter().any(|o| matches!(o, Op::Bulk(..) | Op::BulkSect(..) | Op::BulkLink(..)));
    let n = c.ops.len();
    for (i, op) in c.ops.iter().enumerate() {
        if let Op::Emit = op { emission(&mut bad, c, &a, &m, &t, i + 1 == n); if !big { state(&mut bad, &a, &m, "C05", "after emission") } }
        else { step(&mut a, &mut m, op, &mut bad, !big) }
        if bad.len() > 40 { break }
    }
    if big { state(&mut bad, &a, &m, "C05", "at the end") }
    bad
}
