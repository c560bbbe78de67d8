//! The abstract artifact: what a history of calls means, written from the property statements only.
use crate::case::*;
use faerie::artifact::DefinedDecl;
use faerie::{Decl, ImportKind, Reloc, Scope, DataType};
use std::collections::{BTreeMap, HashMap, HashSet};

/// set when a recorded finding (an input outside the domain) is replayed
pub static NO_DOMAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct MDef { pub bytes: Bytes, pub syms: BTreeMap<String, u64> }
#[derive(Clone, Debug)]
pub struct MDecl { pub name: String, pub decl: Decl, pub def: Option<MDef> }
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub decls: Vec<MDecl>,
    pub ix: HashMap<String, usize>,
    pub links: Vec<(String, String, u64, Reloc)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Undeclared(String), ImportDefined(String), RelocateImport(String), Incompatible(Decl, Decl), Duplicate(String),
    ZeroInit(DefinedDecl), Syms(DefinedDecl, BTreeMap<String, u64>), Unsupported(String), Undefined(Vec<String>), Other(String),
}
pub fn err(e: faerie::ArtifactError) -> E {
    use faerie::ArtifactError::*;
    match e {
        Undeclared(s) => E::Undeclared(s), ImportDefined(s) => E::ImportDefined(s), RelocateImport(s) => E::RelocateImport(s),
        IncompatibleDeclaration { old, new } => E::Incompatible(old, new), DuplicateDefinition(s) => E::Duplicate(s),
        InvalidZeroInit(d) => E::ZeroInit(d), NonSectionCustomSymbols(d, m) => E::Syms(d, m),
        UnsupportedBinaryFormat(f) => E::Unsupported(format!("{:?}", f)), UndefinedSymbols(v) => E::Undefined(v), e => E::Other(format!("{}", e)),
    }
}

/// C-like merge rule
pub fn merge(prev: Decl, new: Decl) -> Option<Decl> {
    if prev == new { return Some(prev) }
    match (prev, new) {
        (Decl::Import(ImportKind::Function), Decl::Defined(DefinedDecl::Function(_))) => Some(new),
        (Decl::Import(ImportKind::Data), Decl::Defined(DefinedDecl::Data(_))) => Some(new),
        (Decl::Defined(DefinedDecl::Function(_)), Decl::Import(ImportKind::Function)) => Some(prev),
        (Decl::Defined(DefinedDecl::Data(_)), Decl::Import(ImportKind::Data)) => Some(prev),
        _ => None,
    }
}

impl Model {
    pub fn get(&self, n: &str) -> Option<&MDecl> { self.ix.get(n).map(|&i| &self.decls[i]) }
    /// Ok, or the set of acceptable errors
    pub fn declare(&mut self, n: &str, d: Decl) -> Result<(), Vec<E>> {
        match self.ix.get(n) {
            None => { self.ix.insert(n.into(), self.decls.len()); self.decls.push(MDecl { name: n.into(), decl: d, def: None }); Ok(()) }
            Some(&i) => {
                let old = self.decls[i].decl;
                match merge(old, d) { Some(x) => { self.decls[i].decl = x; Ok(()) } None => Err(vec![E::Incompatible(old, d)]) }
            }
        }
    }
    pub fn define(&mut self, n: &str, b: &Bytes, syms: &[(String, u64)]) -> Result<(), Vec<E>> {
        let m: BTreeMap<String, u64> = syms.iter().cloned().collect();
        let i = match self.ix.get(n) { None => return Err(vec![E::Undeclared(n.into())]), Some(&i) => i };
        let mut errs = vec![];
        match self.decls[i].decl {
            Decl::Import(_) => errs.push(E::ImportDefined(n.into())),
            Decl::Defined(d) => {
                if self.decls[i].def.is_some() { errs.push(E::Duplicate(n.into())) }
                if !matches!(d, DefinedDecl::Section(_)) && !m.is_empty() { errs.push(E::Syms(d, m.clone())) }
                if !matches!(d, DefinedDecl::Data(_)) && matches!(b, Bytes::Zero(_)) { errs.push(E::ZeroInit(d)) }
            }
        }
        if errs.is_empty() { self.decls[i].def = Some(MDef { bytes: b.clone(), syms: m }); Ok(()) } else { Err(errs) }
    }
    pub fn link(&mut self, f: &str, t: &str, at: u64, r: Reloc) -> Result<(), Vec<E>> {
        let mut errs = vec![];
        match self.get(f) { None => errs.push(E::Undeclared(f.into())), Some(d) => if d.decl.is_import() { errs.push(E::RelocateImport(f.into())) } }
        if self.get(t).is_none() { errs.push(E::Undeclared(t.into())) }
        if errs.is_empty() { self.links.push((f.into(), t.into(), at, r)); Ok(()) } else { Err(errs) }
    }
    pub fn undefined(&self) -> Vec<String> {
        self.decls.iter().filter(|d| d.def.is_none() && matches!(d.decl, Decl::Defined(_))).map(|d| d.name.clone()).collect()
    }
    pub fn imports(&self) -> Vec<(String, ImportKind)> {
        let mut v: Vec<_> = self.decls.iter().filter_map(|d| if let Decl::Import(k) = d.decl { Some((d.name.clone(), k)) } else { None }).collect();
        v.sort();
        v
    }
    pub fn defs(&self) -> impl Iterator<Item = (&str, DefinedDecl, &MDef)> {
        self.decls.iter().filter_map(|d| match (&d.decl, &d.def) { (Decl::Defined(x), Some(m)) => Some((d.name.as_str(), *x, m)), _ => None })
    }
    pub fn is_debug_or_sect(d: &Decl) -> bool { matches!(d, Decl::Defined(DefinedDecl::Section(_))) }

    /// The inputs the emission properties quantify over (see DESIGN.md "domain"); the reason when outside.
    pub fn domain(&self, fmt: Fmt, art_name: &str, target: &target_lexicon::Triple) -> Result<(), String> {
        use target_lexicon::Architecture as A;
        if NO_DOMAIN.load(std::sync::atomic::Ordering::SeqCst) { return Ok(()) }
        let mut names: HashSet<&str> = HashSet::new();
        if art_name.contains('\0') { return Err("NUL in artifact name".into()) }
        for d in &self.decls {
            if d.name.contains('\0') { return Err("NUL in name".into()) }
            names.insert(&d.name);
        }
        for (_, _, m) in self.defs() {
            for s in m.syms.keys() {
                if s.contains('\0') { return Err("NUL in name".into()) }
                if !names.insert(s) { return Err(format!("custom symbol {} collides", s)) }
            }
        }
        let zero: HashSet<&str> = self.defs().filter(|d| matches!(d.2.bytes, Bytes::Zero(_))).map(|d| d.0).collect();
        match fmt {
            Fmt::Elf => {
                if !matches!(target.architecture, A::X86_64 | A::X86_32(_) | A::Aarch64(_) | A::Arm(_) | A::Mips32(_) | A::Mips64(_) | A::Powerpc | A::Powerpc64 | A::Powerpc64le | A::Riscv32(_) | A::Riscv64(_) | A::S390x | A::Sparc | A::Sparc64 | A::Sparcv9 | A::Msp430 | A::Unknown) { return Err("arch".into()) }
                let mut sect: HashSet<String> = HashSet::new();
                for (n, d, m) in self.defs() { if !sect.insert(elf_section_name(n, &d, m)) { return Err(format!("section name of {} collides", n)) } }
                for (f, t, at, r) in &self.links {
                    let (fd, td) = (self.get(f).unwrap().decl, self.get(t).unwrap().decl);
                    match r {
                        Reloc::Auto => match fd {
                            Decl::Defined(DefinedDecl::Function(_)) => if Self::is_debug_or_sect(&td) { return Err("auto link to section".into()) },
                            Decl::Defined(DefinedDecl::Data(_)) => {}
                            _ => return Err("auto link from section".into()),
                        },
                        Reloc::Debug { size, .. } => if *size != 4 && *size != 8 { return Err("debug size".into()) },
                        Reloc::Raw { reloc, .. } => if !is64(target) && *reloc > 255 { return Err("raw reloc does not fit".into()) },
                    }
                    if !is64(target) && *at > u32::MAX as u64 { return Err("offset does not fit".into()) }
                }
                if !is64(target) {
                    for (_, d, m) in self.defs() {
                        if d.get_align().unwrap_or(1) > u32::MAX as u64 { return Err("alignment does not fit".into()) }
                        if let Bytes::Zero(n) = m.bytes { if n > u32::MAX as usize { return Err("size does not fit".into()) } }
                        if m.syms.values().any(|v| *v > u32::MAX as u64) { return Err("value does not fit".into()) }
                    }
                }
            }
            Fmt::Macho => {
                if !matches!(target.architecture, A::X86_64 | A::X86_32(_) | A::Aarch64(_) | A::Arm(_) | A::Sparc | A::Powerpc | A::Powerpc64 | A::Powerpc64le | A::Unknown) { return Err("arch".into()) }
                let mut nsect = 0;
                let mut snames: HashSet<String> = HashSet::new();
                for d in &self.decls { if d.name.is_empty() && !Self::is_debug_or_sect(&d.decl) { return Err("empty name".into()) } }
                let mut total: u128 = 0;
                for (n, d, m) in self.defs() {
                    if let DefinedDecl::Section(_) = d {
                        nsect += 1;
                        if !snames.insert(macho_sectname(n)) { return Err("section names collide".into()) }
                        if macho_sectname(n).len() > 16 { return Err("section name too long".into()) }
                        if ["__text", "__data", "__cstring", "__bss"].contains(&n) { return Err("section name reserved".into()) }
                        if m.syms.keys().any(|s| s.is_empty()) { return Err("empty name".into()) }
                    }
                    total += match &m.bytes { Bytes::Raw(v) => v.len() as u128, Bytes::Fill(_, n) => *n as u128, Bytes::Zero(n) => *n as u128 };
                    total += d.get_align().unwrap_or(1) as u128 * 2;
                    if d.get_align().unwrap_or(1) > 1 << 20 { return Err("alignment too large".into()) }
                }
                if total > (1u128 << 60) { return Err("too large".into()) }
                if !is64(target) && total > (1u128 << 31) { return Err("too large".into()) }
                if nsect > 251 { return Err("too many sections".into()) }
                for (f, t, at, r) in &self.links {
                    let (fd, td) = (self.get(f).unwrap().decl, self.get(t).unwrap().decl);
                    if Self::is_debug_or_sect(&td) { return Err("link to section".into()) }
                    if *at > 0x3fff_ffff { return Err("offset".into()) }
                    if zero.contains(f.as_str()) { return Err("link from zero-init".into()) }
                    match r {
                        Reloc::Auto => if Self::is_debug_or_sect(&fd) { return Err("auto link from section".into()) },
                        Reloc::Debug { size, addend } => if (*size != 4 && *size != 8) || *addend != 0 || !Self::is_debug_or_sect(&fd) { return Err("debug link".into()) },
                        Reloc::Raw { reloc, addend } => if *reloc > 15 || *addend != 0 || Self::is_debug_or_sect(&fd) { return Err("raw link".into()) },
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn is64(t: &target_lexicon::Triple) -> bool { ctx(t).0 }
/// (64-bit, little endian) the object must have
pub fn ctx(t: &target_lexicon::Triple) -> (bool, bool) {
    use target_lexicon::{Endianness, PointerWidth};
    let host = (cfg!(target_pointer_width = "64"), cfg!(target_endian = "little"));
    let w = match t.pointer_width() { Ok(PointerWidth::U32) => false, Ok(PointerWidth::U64) => true, _ => return host };
    let e = match t.endianness() { Ok(Endianness::Little) => true, Ok(Endianness::Big) => false, _ => return host };
    (w, e)
}
pub fn scope_of(d: &DefinedDecl) -> Scope {
    match d { DefinedDecl::Function(f) => f.get_scope(), DefinedDecl::Data(f) => f.get_scope(), DefinedDecl::Section(_) => Scope::Local }
}
pub fn elf_section_name(n: &str, d: &DefinedDecl, m: &MDef) -> String {
    match d {
        DefinedDecl::Function(_) => format!(".text.{}", n),
        DefinedDecl::Data(x) => match m.bytes { Bytes::Zero(_) => format!(".bss.{}", n), _ => format!(".{}.{}", if x.is_writable() { "data" } else { "rodata" }, n) },
        DefinedDecl::Section(_) => n.to_string(),
    }
}
pub fn macho_sectname(n: &str) -> String { if let Some(r) = n.strip_prefix(".debug") { format!("__debug{}", r) } else { n.to_string() } }
pub fn is_cstring(d: &DefinedDecl) -> bool { if let DefinedDecl::Data(x) = d { x.get_datatype() == DataType::String } else { false } }
