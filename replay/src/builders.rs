//! C23 and the pairwise part of C01: exhaustive over the finite attribute space.
use crate::model::{err, merge, E};
use crate::run::Bad;
use faerie::artifact::DefinedDecl;
use faerie::*;

const SC: [Scope; 3] = [Scope::Global, Scope::Local, Scope::Weak];
const VI: [Visibility; 3] = [Visibility::Default, Visibility::Protected, Visibility::Hidden];
const DT: [DataType; 2] = [DataType::Bytes, DataType::String];
const SK: [SectionKind; 3] = [SectionKind::Data, SectionKind::Debug, SectionKind::Text];

fn aligns(all: bool) -> Vec<Option<u64>> { let mut v = vec![None]; if all { v.extend((0..64).map(|i| Some(1u64 << i))) } else { v.extend([Some(1), Some(16), Some(1 << 40)]) } v }

type F = (Scope, Visibility, Option<u64>);
type D = (Scope, Visibility, bool, DataType, Option<u64>);
type S = (SectionKind, DataType, Option<u64>);
fn of(f: &FunctionDecl) -> F { (f.get_scope(), f.get_visibility(), f.get_align()) }
fn od(f: &DataDecl) -> D { (f.get_scope(), f.get_visibility(), f.is_writable(), f.get_datatype(), f.get_align()) }
fn os(f: &SectionDecl) -> S { (f.kind(), f.get_datatype(), f.get_align()) }

pub fn all_decls(alg: bool) -> Vec<Decl> {
    let mut v: Vec<Decl> = vec![Decl::function_import().into(), Decl::data_import().into()];
    for a in aligns(alg) {
        for s in SC { for vi in VI {
            v.push(crate::case::mk_fn(s, vi, a).into());
            for w in [false, true] { for d in DT { v.push(crate::case::mk_data(s, vi, a, w, d).into()) } }
        } }
        for k in SK { for d in DT { v.push(crate::case::mk_sect(k, d, a).into()) } }
    }
    v
}

pub fn absorb_pairs() -> (u64, Bad) {
    let ds = all_decls(false);
    let mut bad = vec![];
    let mut n = 0;
    for x in &ds { for y in &ds {
        n += 1;
        let mut z = *x;
        let r = z.absorb(*y);
        let desc = || format!("absorb({} <- {})", crate::case::decl_str(x), crate::case::decl_str(y));
        match (r, merge(*x, *y)) {
            (Ok(()), Some(w)) => if z != w { bad.push(("C01", format!("{} gives {}, expected {}", desc(), crate::case::decl_str(&z), crate::case::decl_str(&w)))) },
            (Ok(()), None) => bad.push(("C01", format!("{} was accepted", desc()))),
            (Err(e), Some(_)) => bad.push(("C01", format!("{} was refused: {:?}", desc(), err(e)))),
            (Err(e), None) => { let e = err(e); if e != E::Incompatible(*x, *y) { bad.push(("C01", format!("{} fails with {:?}", desc(), e))) } if z != *x { bad.push(("C01", format!("{} failed but changed the declaration", desc()))) } }
        }
        if bad.len() > 20 { return (n, bad) }
    } }
    (n, bad)
}

macro_rules! eq { ($bad:expr, $n:expr, $a:expr, $b:expr, $($d:tt)*) => { { $n += 1; let (a, b) = ($a, $b); if a != b { $bad.push(("C23", format!("{}: {:?}, expected {:?}", format!($($d)*), a, b))) } } } }

pub fn builders() -> (u64, Bad) {
    let mut bad: Bad = vec![];
    let mut n = 0;
    eq!(bad, n, of(&Decl::function()), (Scope::Local, Visibility::Default, None), "Decl::function()");
    eq!(bad, n, od(&Decl::data()), (Scope::Local, Visibility::Default, false, DataType::Bytes, None), "Decl::data()");
    eq!(bad, n, od(&Decl::cstring()), (Scope::Local, Visibility::Default, false, DataType::String, None), "Decl::cstring()");
    for k in SK { eq!(bad, n, os(&Decl::section(k)), (k, DataType::Bytes, None), "Decl::section({:?})", k) }
    eq!(bad, n, Decl::from_fi(), Decl::Import(ImportKind::Function), "function_import");
    eq!(bad, n, Decl::from_di(), Decl::Import(ImportKind::Data), "data_import");
    for a in aligns(true) {
        for s in SC { for v in VI {
            let base = { let mut f = Decl::function(); f.set_scope(s); f.set_visibility(v); f.set_align(a); f };
            eq!(bad, n, of(&base), (s, v, a), "function setters");
            eq!(bad, n, of(&base.global()), (Scope::Global, v, a), "global");
            eq!(bad, n, of(&base.local()), (Scope::Local, v, a), "local");
            eq!(bad, n, of(&base.weak()), (Scope::Weak, v, a), "weak");
            for s2 in SC { eq!(bad, n, of(&base.with_scope(s2)), (s2, v, a), "with_scope"); let mut b = base; b.set_scope(s2); eq!(bad, n, of(&b), (s2, v, a), "set_scope") }
            eq!(bad, n, of(&base.default_visibility()), (s, Visibility::Default, a), "default_visibility");
            eq!(bad, n, of(&base.protected()), (s, Visibility::Protected, a), "protected");
            eq!(bad, n, of(&base.hidden()), (s, Visibility::Hidden, a), "hidden");
            for v2 in VI { eq!(bad, n, of(&base.with_visibility(v2)), (s, v2, a), "with_visibility"); let mut b = base; b.set_visibility(v2); eq!(bad, n, of(&b), (s, v2, a), "set_visibility") }
            for a2 in aligns(false) { eq!(bad, n, of(&base.with_align(a2)), (s, v, a2), "with_align"); let mut b = base; b.set_align(a2); eq!(bad, n, of(&b), (s, v, a2), "set_align") }
            eq!(bad, n, base.is_global(), s == Scope::Global, "is_global");
            for w in [false, true] { for d in DT {
                let db = { let mut f = Decl::data(); f.set_scope(s); f.set_visibility(v); f.set_align(a); f.set_writable(w); f.set_datatype(d); f };
                eq!(bad, n, od(&db), (s, v, w, d, a), "data setters");
                eq!(bad, n, od(&db.global()), (Scope::Global, v, w, d, a), "data global");
                eq!(bad, n, od(&db.local()), (Scope::Local, v, w, d, a), "data local");
                eq!(bad, n, od(&db.weak()), (Scope::Weak, v, w, d, a), "data weak");
                for s2 in SC { eq!(bad, n, od(&db.with_scope(s2)), (s2, v, w, d, a), "data with_scope"); let mut b = db; b.set_scope(s2); eq!(bad, n, od(&b), (s2, v, w, d, a), "data set_scope") }
                eq!(bad, n, od(&db.default_visibility()), (s, Visibility::Default, w, d, a), "data default_visibility");
                eq!(bad, n, od(&db.protected()), (s, Visibility::Protected, w, d, a), "data protected");
                eq!(bad, n, od(&db.hidden()), (s, Visibility::Hidden, w, d, a), "data hidden");
                for v2 in VI { eq!(bad, n, od(&db.with_visibility(v2)), (s, v2, w, d, a), "data with_visibility"); let mut b = db; b.set_visibility(v2); eq!(bad, n, od(&b), (s, v2, w, d, a), "data set_visibility") }
                for a2 in aligns(false) { eq!(bad, n, od(&db.with_align(a2)), (s, v, w, d, a2), "data with_align"); let mut b = db; b.set_align(a2); eq!(bad, n, od(&b), (s, v, w, d, a2), "data set_align") }
                for d2 in DT { eq!(bad, n, od(&db.with_datatype(d2)), (s, v, w, d2, a), "data with_datatype"); let mut b = db; b.set_datatype(d2); eq!(bad, n, od(&b), (s, v, w, d2, a), "data set_datatype") }
                eq!(bad, n, od(&db.writable()), (s, v, true, d, a), "writable");
                eq!(bad, n, od(&db.read_only()), (s, v, false, d, a), "read_only");
                for w2 in [false, true] { eq!(bad, n, od(&db.with_writable(w2)), (s, v, w2, d, a), "with_writable"); let mut b = db; b.set_writable(w2); eq!(bad, n, od(&b), (s, v, w2, d, a), "set_writable") }
                eq!(bad, n, db.is_global(), s == Scope::Global, "data is_global");
            } }
        } }
        for k in SK { for d in DT {
            let sb = { let mut f = Decl::section(k); f.set_align(a); f.set_datatype(d); f };
            eq!(bad, n, os(&sb), (k, d, a), "section setters");
            for a2 in aligns(false) { eq!(bad, n, os(&sb.with_align(a2)), (k, d, a2), "section with_align"); let mut b = sb; b.set_align(a2); eq!(bad, n, os(&b), (k, d, a2), "section set_align") }
            for d2 in DT { eq!(bad, n, os(&sb.with_datatype(d2)), (k, d2, a), "section with_datatype"); let mut b = sb; b.set_datatype(d2); eq!(bad, n, os(&b), (k, d2, a), "section set_datatype") }
            eq!(bad, n, sb.is_global(), false, "section is_global");
            eq!(bad, n, sb.is_writable(), k == SectionKind::Data, "section is_writable");
        } }
    }
    for d in all_decls(true) {
        eq!(bad, n, d.is_import(), matches!(d, Decl::Import(_)), "is_import");
        eq!(bad, n, d.is_section(), matches!(d, Decl::Defined(DefinedDecl::Section(_))), "is_section");
        eq!(bad, n, ImportKind::from_decl(&d), if let Decl::Import(k) = d { Some(k) } else { None }, "ImportKind::from_decl");
        if let Decl::Defined(x) = d {
            eq!(bad, n, (x.is_function(), x.is_data(), x.is_section()), (matches!(x, DefinedDecl::Function(_)), matches!(x, DefinedDecl::Data(_)), matches!(x, DefinedDecl::Section(_))), "is_function/is_data/is_section");
            let (g, w, a) = match &x { DefinedDecl::Function(f) => (f.get_scope() == Scope::Global, false, f.get_align()), DefinedDecl::Data(f) => (f.get_scope() == Scope::Global, f.is_writable(), f.get_align()), DefinedDecl::Section(f) => (false, f.kind() == SectionKind::Data, f.get_align()) };
            eq!(bad, n, (x.is_global(), x.is_writable(), x.get_align()), (g, w, a), "DefinedDecl accessors of {}", crate::case::decl_str(&d));
        }
    }
    let t: Triple = "x86_64-unknown-linux-gnu".parse().unwrap();
    let a = ArtifactBuilder::new(t.clone()).name("n1".into()).library(true).finish();
    eq!(bad, n, (a.name.clone(), a.is_library, a.target.clone()), ("n1".to_string(), true, t.clone()), "ArtifactBuilder");
    let a = ArtifactBuilder::new(t.clone()).finish();
    eq!(bad, n, (a.name.clone(), a.is_library, a.target.clone()), ("faerie.o".to_string(), false, t.clone()), "ArtifactBuilder defaults");
    let a = ArtifactBuilder::new(t.clone()).library(true).library(false).name("x".into()).name("y".into()).finish();
    eq!(bad, n, (a.name.clone(), a.is_library), ("y".to_string(), false), "ArtifactBuilder last setting wins");
    for d in [Data::Blob(vec![]), Data::Blob(vec![1, 2, 3]), Data::ZeroInit(0), Data::ZeroInit(7)] {
        let w = match &d { Data::Blob(v) => (v.len(), v.is_empty(), false), Data::ZeroInit(n) => (0, *n == 0, true) };
        eq!(bad, n, (d.file_size(), d.is_empty(), d.is_zero_init()), w, "Data accessors of {:?}", d);
    }
    (n, bad)
}
trait FromI { fn from_fi() -> Decl; fn from_di() -> Decl; }
impl FromI for Decl { fn from_fi() -> Decl { Decl::function_import().into() } fn from_di() -> Decl { Decl::data_import().into() } }
