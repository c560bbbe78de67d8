//! Own ELF reader (no goblin) and the per-property oracle on emitted ELF bytes.
use crate::case::*;
use crate::model::*;
use faerie::artifact::DefinedDecl;
use faerie::{DataType, Decl, ImportKind, Reloc, Scope, Visibility};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Sh { pub name: u64, pub typ: u32, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64, pub link: u32, pub info: u32, pub align: u64, pub entsize: u64 }
#[derive(Clone, Debug)]
pub struct Sym { pub raw: u32, pub name: u64, pub info: u8, pub other: u8, pub shndx: u32, pub value: u64, pub size: u64 }
impl Sym { pub fn bind(&self) -> u8 { self.info >> 4 } pub fn typ(&self) -> u8 { self.info & 15 } }
pub struct Rela { pub off: u64, pub sym: u64, pub typ: u64, pub addend: i64 }

pub struct Rd<'a> { pub b: &'a [u8], pub le: bool }
impl<'a> Rd<'a> {
    pub fn n(&self, off: u64, n: u64) -> Option<u64> {
        let end = off.checked_add(n)?;
        let s = self.b.get(off as usize..end as usize)?;
        let mut v = 0u64;
        for i in 0..n as usize { let x = if self.le { s[n as usize - 1 - i] } else { s[i] }; v = v << 8 | x as u64 }
        Some(v)
    }
}

pub struct File<'a> {
    pub rd: Rd<'a>, pub is64: bool, pub etype: u64, pub machine: u64, pub version: u64, pub shoff: u64, pub ehsize: u64, pub phnum: u64, pub shentsize: u64, pub e_shnum: u64, pub shstrndx: u64,
    pub sh: Vec<Sh>, pub symtab: usize, pub syms: Vec<Sym>, pub strtab: usize, pub shndx: Option<usize>, pub reserved: Vec<usize>,
}

fn cstr<'a>(b: &'a [u8], off: u64) -> Option<&'a [u8]> {
    let s = b.get(off as usize..)?;
    let e = s.iter().position(|x| *x == 0)?;
    Some(&s[..e])
}

impl<'a> File<'a> {
    pub fn parse(b: &'a [u8]) -> Result<File<'a>, String> {
        if b.len() < 52 || &b[..4] != b"\x7fELF" { return Err("no ELF magic".into()) }
        let is64 = match b[4] { 1 => false, 2 => true, x => return Err(format!("EI_CLASS {}", x)) };
        let le = match b[5] { 1 => true, 2 => false, x => return Err(format!("EI_DATA {}", x)) };
        if b[6] != 1 { return Err("EI_VERSION".into()) }
        let rd = Rd { b, le };
        let g = |o, n| rd.n(o, n).ok_or_else(|| "header truncated".to_string());
        let (shoff, ehsize, phnum, shentsize, e_shnum, shstrndx) = if is64 { (g(40, 8)?, g(52, 2)?, g(56, 2)?, g(58, 2)?, g(60, 2)?, g(62, 2)?) } else { (g(32, 4)?, g(40, 2)?, g(44, 2)?, g(46, 2)?, g(48, 2)?, g(50, 2)?) };
        let (etype, machine, version) = (g(16, 2)?, g(18, 2)?, g(20, 4)?);
        let mut f = File { rd, is64, etype, machine, version, shoff, ehsize, phnum, shentsize, e_shnum, shstrndx, sh: vec![], symtab: 0, syms: vec![], strtab: 0, shndx: None, reserved: vec![] };
        let es = if is64 { 64 } else { 40 };
        if f.shentsize != es { return Err(format!("e_shentsize {}", f.shentsize)) }
        let first = f.shdr(0).ok_or("no section header 0")?;
        let count = if e_shnum == 0 { first.size } else { e_shnum };
        if count == 0 || count > b.len() as u64 / es { return Err(format!("section count {} does not fit the file", count)) }
        for i in 0..count { let s = f.shdr(i).ok_or(format!("section header {} outside the file", i))?; f.sh.push(s) }
        let st: Vec<usize> = (0..f.sh.len()).filter(|i| f.sh[*i].typ == 2).collect();
        if st.len() != 1 { return Err(format!("{} symbol tables", st.len())) }
        f.symtab = st[0];
        f.strtab = f.sh[f.symtab].link as usize;
        if f.strtab >= f.sh.len() || f.sh[f.strtab].typ != 3 { return Err("symtab link is not a string table".into()) }
        f.shndx = (0..f.sh.len()).find(|i| f.sh[*i].typ == 18);
        let ss = if is64 { 24 } else { 16 };
        let (o, n) = (f.sh[f.symtab].off, f.sh[f.symtab].size);
        if n % ss != 0 { return Err("symtab size is not a multiple of the entry size".into()) }
        for i in 0..n / ss {
            let p = o + i * ss;
            let g = |o: u64, n| f.rd.n(p + o, n).ok_or_else(|| format!("symbol {} outside the file", i));
            let mut s = if is64 { Sym { raw: g(6, 2)? as u32, name: g(0, 4)?, info: g(4, 1)? as u8, other: g(5, 1)? as u8, shndx: g(6, 2)? as u32, value: g(8, 8)?, size: g(16, 8)? } } else { Sym { raw: g(14, 2)? as u32, name: g(0, 4)?, value: g(4, 4)?, size: g(8, 4)?, info: g(12, 1)? as u8, other: g(13, 1)? as u8, shndx: g(14, 2)? as u32 } };
            if s.shndx == 0xffff {
                let t = f.shndx.ok_or(format!("symbol {} has an extended section index but there is no index table", i))?;
                s.shndx = f.rd.n(f.sh[t].off + 4 * i, 4).ok_or("extended index outside the file")? as u32;
            } else if s.shndx >= 0xff00 { if s.shndx != 0xfff1 { f.reserved.push(i as usize) } s.shndx = 0xffff_0000 | s.shndx }
            f.syms.push(s);
        }
        Ok(f)
    }
    fn shdr(&self, i: u64) -> Option<Sh> {
        let p = self.shoff + i * self.shentsize;
        let g = |o: u64, n| self.rd.n(p + o, n);
        Some(if self.is64 {
            Sh { name: g(0, 4)?, typ: g(4, 4)? as u32, flags: g(8, 8)?, addr: g(16, 8)?, off: g(24, 8)?, size: g(32, 8)?, link: g(40, 4)? as u32, info: g(44, 4)? as u32, align: g(48, 8)?, entsize: g(56, 8)? }
        } else {
            Sh { name: g(0, 4)?, typ: g(4, 4)? as u32, flags: g(8, 4)?, addr: g(12, 4)?, off: g(16, 4)?, size: g(20, 4)?, link: g(24, 4)? as u32, info: g(28, 4)? as u32, align: g(32, 4)?, entsize: g(36, 4)? }
        })
    }
    pub fn data(&self, i: usize) -> Option<&'a [u8]> { let s = &self.sh[i]; self.rd.b.get(s.off as usize..s.off.checked_add(s.size)? as usize) }
    pub fn str_in(&self, tab: usize, off: u64) -> Option<&'a [u8]> { cstr(self.data(tab)?, off) }
    pub fn shname(&self, i: usize) -> Option<&'a [u8]> { self.str_in(self.shstrndx as usize, self.sh[i].name) }
    pub fn symname(&self, i: usize) -> Option<&'a [u8]> { self.str_in(self.strtab, self.syms[i].name) }
    pub fn relas(&self, i: usize) -> Option<Vec<Rela>> {
        let s = &self.sh[i];
        let es = if self.is64 { 24 } else { 12 };
        let mut v = vec![];
        for k in 0..s.size / es {
            let p = s.off + k * es;
            v.push(if self.is64 { let inf = self.rd.n(p + 8, 8)?; Rela { off: self.rd.n(p, 8)?, sym: inf >> 32, typ: inf & 0xffff_ffff, addend: self.rd.n(p + 16, 8)? as i64 } } else { let inf = self.rd.n(p + 4, 4)?; Rela { off: self.rd.n(p, 4)?, sym: inf >> 8, typ: inf & 255, addend: self.rd.n(p + 8, 4)? as u32 as i32 as i64 } });
        }
        Some(v)
    }
}

pub fn machine(a: target_lexicon::Architecture) -> Option<u64> {
    use target_lexicon::Architecture::*;
    Some(match a { X86_64 => 62, X86_32(_) => 3, Aarch64(_) => 183, Arm(_) => 40, Mips32(_) | Mips64(_) => 8, Powerpc => 20, Powerpc64 | Powerpc64le => 21, Riscv32(_) | Riscv64(_) => 243, S390x => 22, Sparc => 2, Sparc64 | Sparcv9 => 43, Msp430 => 105, Unknown => 0, _ => return None })
}

pub fn check(m: &Model, art_name: &str, t: &target_lexicon::Triple, b: &[u8], bad: &mut dyn FnMut(&'static str, String)) {
    let f = match File::parse(b) { Ok(f) => f, Err(e) => {
        bad("C13", format!("the emitted bytes do not read as an ELF object: {}", e));
        if e.contains("EI_") { bad("C15", e.clone()) }
        return } };
    // ---- C15 target
    let (want64, wantle) = ctx(t);
    if f.is64 != want64 || f.rd.le != wantle { bad("C15", format!("class/data ({}, {}) differ from the target's ({}, {})", f.is64, f.rd.le, want64, wantle)) }
    if Some(f.machine) != machine(t.architecture) { bad("C15", format!("e_machine {} for {}", f.machine, t.architecture)) }
    let word: u64 = if f.is64 { 8 } else { 4 };

    // ---- C13 structure
    if f.etype != 1 { bad("C13", format!("e_type {}", f.etype)) }
    if f.version != 1 { bad("C13", "e_version".into()) }
    if f.phnum != 0 { bad("C13", "e_phnum".into()) }
    if f.ehsize != if f.is64 { 64 } else { 52 } { bad("C13", "e_ehsize".into()) }
    if f.shoff % word != 0 { bad("C13", format!("section headers at unaligned offset {:#x}", f.shoff)) }
    if f.sh[0].typ != 0 || f.sh[0].off != 0 || f.sh[0].name != 0 || f.sh[0].flags != 0 || f.sh[0].link != 0 { bad("C13", "section 0 is not the null section".into()) }
    if f.shstrndx as usize >= f.sh.len() || f.sh[f.shstrndx as usize].typ != 3 { bad("C13", "e_shstrndx is not a string table".into()); return }
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, f.ehsize, "ELF header".into()), (f.shoff, f.shoff + f.sh.len() as u64 * f.shentsize, "section headers".into())];
    for (i, s) in f.sh.iter().enumerate() {
        if s.typ == 0 || s.typ == 8 { continue }
        match s.off.checked_add(s.size) {
            Some(e) if e <= b.len() as u64 => if s.size > 0 { ranges.push((s.off, e, format!("section {}", i))) },
            _ => bad("C13", format!("section {} [{:#x}+{:#x}] lies outside the file", i, s.off, s.size)),
        }
        match s.typ {
            2 => { if s.entsize != if f.is64 { 24 } else { 16 } || s.off % word != 0 { bad("C13", "symtab entsize/alignment".into()) } if s.align != 8 { bad("C13", "symtab sh_addralign".into()) } }
            4 => {
                if s.entsize != if f.is64 { 24 } else { 12 } || s.off % word != 0 { bad("C13", format!("rela section {} entsize/alignment", i)) }
                if s.entsize != 0 && s.size % s.entsize != 0 { bad("C13", format!("rela section {} size", i)) }
            }
            9 => bad("C13", "REL section".into()),
            18 => { if s.entsize != 4 || s.off % 4 != 0 || s.size != 4 * f.syms.len() as u64 || s.link as usize != f.symtab { bad("C14", "section index table has the wrong shape".into()) } }
            _ => {}
        }
    }
    ranges.sort();
    for w in ranges.windows(2) { if w[0].1 > w[1].0 {
        bad("C13", format!("{} and {} overlap in the file", w[0].2, w[1].2));
        let content = |n: &str| n.strip_prefix("section ").and_then(|i| i.parse::<usize>().ok()).map_or(false, |i| f.sh[i].typ == 1);
        if content(&w[0].2) || content(&w[1].2) { bad("C06", format!("{} and {} overlap in the file", w[0].2, w[1].2)) }
    } }
    let note: Vec<usize> = (0..f.sh.len()).filter(|i| f.sh[*i].typ == 1 && f.sh[*i].size == 0 && f.sh[*i].flags == 0 && f.shname(*i) == Some(b".note.GNU-stack")).collect();
    if note.is_empty() { bad("C13", "no non-executable-stack note".into()) }

    // expected number of sections
    let ndefs = m.defs().count();
    let relocated: HashSet<&str> = m.links.iter().map(|l| l.0.as_str()).collect();
    let base = 4 + ndefs + relocated.len();
    let ext = base >= 0xff00;
    let expect = base + ext as usize;
    if f.sh.len() != expect { bad("C13", format!("{} section headers, expected {}", f.sh.len(), expect)) }
    // ---- C14 extended numbering
    if let Some(i) = f.reserved.first() { bad("C14", format!("symbol {} has the reserved section index {:#x}", i, f.syms[*i].shndx & 0xffff)) }
    if ext {
        if f.e_shnum != 0 { bad("C13", format!("e_shnum {} with {} sections", f.e_shnum, expect)); bad("C14", format!("e_shnum {} with {} sections", f.e_shnum, expect)) }
        if f.sh[0].size != expect as u64 { bad("C14", format!("section 0 records {} sections, there are {}", f.sh[0].size, expect)) }
        if f.shndx.is_none() { bad("C14", "no SHT_SYMTAB_SHNDX section".into()) }
    } else {
        if f.e_shnum != expect as u64 { bad("C13", format!("e_shnum {} with {} sections", f.e_shnum, expect)); bad("C14", format!("e_shnum {} with {} sections", f.e_shnum, expect)) }
        if f.sh[0].size != 0 { bad("C14", "section 0 has a size although the count fits".into()) }
        if f.shndx.is_some() { bad("C14", "unexpected SHT_SYMTAB_SHNDX section".into()) }
    }

    // ---- C10 string tables
    for tab in [f.strtab, f.shstrndx as usize] {
        match f.data(tab) { Some(d) if !d.is_empty() && d[0] == 0 && d[d.len() - 1] == 0 => {} _ => { bad("C10", "string table does not start and end with NUL".into()); return } }
    }
    let mut byname: HashMap<&[u8], Vec<usize>> = HashMap::new();
    let mut names: HashMap<Vec<u8>, i64> = HashMap::new();
    for i in 0..f.syms.len() {
        match f.symname(i) { Some(n) => { *names.entry(n.to_vec()).or_default() += 1; if f.syms[i].typ() != 3 && f.syms[i].typ() != 4 && i != 0 { byname.entry(n).or_default().push(i) } } None => bad("C10", format!("name of symbol {} does not resolve", i)) }
    }
    let mut want: HashMap<Vec<u8>, i64> = HashMap::new();
    *want.entry(vec![]).or_default() += 1 + ndefs as i64;
    *want.entry(art_name.as_bytes().to_vec()).or_default() += 1;
    for d in &m.decls { if !Model::is_debug_or_sect(&d.decl) { *want.entry(d.name.as_bytes().to_vec()).or_default() += 1 } }
    for (_, _, d) in m.defs() { for s in d.syms.keys() { *want.entry(s.as_bytes().to_vec()).or_default() += 1 } }
    if names != want {
        let mut diff: Vec<String> = vec![];
        for (k, v) in &want { if names.get(k) != Some(v) { diff.push(format!("{:?} expected {} times, found {}", String::from_utf8_lossy(k), v, names.get(k).unwrap_or(&0))) } }
        for (k, v) in &names { if !want.contains_key(k) { diff.push(format!("unexpected {:?} x{}", String::from_utf8_lossy(k), v)) } }
        diff.truncate(5);
        bad("C10", format!("symbol names: {}", diff.join("; ")));
    }
    let mut snames: HashMap<Vec<u8>, i64> = HashMap::new();
    for i in 0..f.sh.len() { match f.shname(i) { Some(n) => *snames.entry(n.to_vec()).or_default() += 1, None => bad("C10", format!("name of section {} does not resolve", i)) } }
    let mut swant: HashMap<Vec<u8>, i64> = HashMap::new();
    for n in ["", ".strtab", ".symtab", ".note.GNU-stack"] { *swant.entry(n.into()).or_default() += 1 }
    if ext { *swant.entry(b".symtab_shndx".to_vec()).or_default() += 1 }
    for (n, d, x) in m.defs() {
        let s = elf_section_name(n, &d, x);
        if relocated.contains(n) { *swant.entry(format!(".rela{}", s).into_bytes()).or_default() += 1 }
        *swant.entry(s.into_bytes()).or_default() += 1;
    }
    if snames != swant {
        let mut diff: Vec<String> = vec![];
        for (k, v) in &swant { if snames.get(k) != Some(v) { diff.push(format!("{:?} expected {} times, found {}", String::from_utf8_lossy(k), v, snames.get(k).unwrap_or(&0))) } }
        for (k, v) in &snames { if !swant.contains_key(k) { diff.push(format!("unexpected {:?} x{}", String::from_utf8_lossy(k), v)) } }
        diff.truncate(5);
        bad("C10", format!("section names: {}", diff.join("; ")));
    }

    // ---- per definition
    let mut sect_of: HashMap<&str, usize> = HashMap::new();
    let mut by_sname: HashMap<&[u8], Vec<usize>> = HashMap::new();
    for i in 0..f.sh.len() { if let Some(n) = f.shname(i) { by_sname.entry(n).or_default().push(i) } }
    let mut used: HashSet<usize> = HashSet::new();
    for (n, d, x) in m.defs() {
        let memsize = match &x.bytes { Bytes::Raw(v) => v.len() as u64, Bytes::Fill(_, k) => *k as u64, Bytes::Zero(k) => *k as u64 };
        let blob = x.bytes.blob();
        let si = match d {
            DefinedDecl::Section(_) => {
                let c: Vec<usize> = by_sname.get(n.as_bytes()).map(|v| v.iter().cloned().filter(|i| f.sh[*i].typ == 1 && !used.contains(i)).collect()).unwrap_or_default();
                let c2: Vec<usize> = c.iter().cloned().filter(|i| f.data(*i) == blob.as_deref()).collect();
                if let Some(i) = c2.first() { *i } else if let Some(i) = c.first() { *i } else { bad("C07", format!("no PROGBITS section for {:?}", n)); bad("C06", format!("no section for {:?}", n)); continue }
            }
            _ => {
                let c: Vec<usize> = byname.get(n.as_bytes()).cloned().unwrap_or_default();
                if c.len() != 1 { bad("C08", format!("{} symbols named {:?}", c.len(), n)); if c.is_empty() { bad("C06", format!("no section for {:?}", n)); continue } }
                let s = &f.syms[c[0]];
                let (st, sb) = (match d { DefinedDecl::Function(_) => 2, _ => 1 }, match scope_of(&d) { Scope::Local => 0, Scope::Global => 1, Scope::Weak => 2 });
                if s.typ() != st { bad("C08", format!("symbol {:?} has type {}, expected {}", n, s.typ(), st)) }
                if s.bind() != sb { bad("C08", format!("symbol {:?} has binding {}, expected {}", n, s.bind(), sb)) }
                let vis = match d { DefinedDecl::Function(f) => f.get_visibility(), DefinedDecl::Data(f) => f.get_visibility(), _ => unreachable!() };
                let sv = match vis { Visibility::Default => 0, Visibility::Hidden => 2, Visibility::Protected => 3 };
                if s.other != sv { bad("C08", format!("symbol {:?} has st_other {}, expected {}", n, s.other, sv)) }
                if s.value != 0 { bad("C08", format!("symbol {:?} has value {}", n, s.value)) }
                if s.size != memsize { for p in if blob.is_none() { &["C08", "C22"][..] } else { &["C08"] } { bad(p, format!("symbol {:?} has size {}, expected {}", n, s.size, memsize)) } }
                if s.shndx == 0 || s.shndx as usize >= f.sh.len() { bad("C08", format!("symbol {:?} is not defined in a section ({:#x})", n, s.shndx)); bad("C06", format!("no section for {:?}", n)); continue }
                // the section is also known by its name
                if let Some([i]) = by_sname.get(elf_section_name(n, &d, x).as_bytes()).map(|v| &v[..]) {
                    if *i != s.shndx as usize { bad("C08", format!("symbol {:?} has section index {}, its section is {}", n, s.shndx, i)); if ext { bad("C14", format!("symbol {:?} reads as section {}, its section is {}", n, s.shndx, i)) } }
                }
                s.shndx as usize
            }
        };
        if ext && si >= 0xff00 { if let Some(v) = byname.get(n.as_bytes()) { if v.len() == 1 && f.syms[v[0]].raw != 0xffff && !matches!(d, DefinedDecl::Section(_)) { bad("C14", format!("symbol {:?} of section {} does not carry the escape value", n, si)) } } }
        if !used.insert(si) { bad("C06", format!("{:?} shares section {} with another definition", n, si)) }
        sect_of.insert(n, si);
        let s = &f.sh[si];
        // ---- C06 / C22 contents
        match &blob {
            Some(v) => { if f.data(si) != Some(&v[..]) { bad("C06", format!("section {} of {:?} does not hold its bytes (size {}, expected {})", si, n, s.size, v.len())) } if s.size != v.len() as u64 { bad("C07", format!("section {} of {:?} has size {}, expected {}", si, n, s.size, v.len())) } }
            None => {
                if s.typ != 8 { bad("C22", format!("zero-initialized {:?} is not in a NOBITS section", n)) }
                if s.size != memsize { bad("C22", format!("zero-initialized {:?} of size {} has a section of size {}", n, memsize, s.size)) }
            }
        }
        // ---- C07 attributes
        let sname = elf_section_name(n, &d, x);
        if f.shname(si) != Some(sname.as_bytes()) { bad("C10", format!("section of {:?} is named {:?}, expected {:?}", n, f.shname(si).map(String::from_utf8_lossy), sname)) }
        let isstr = match d { DefinedDecl::Data(y) => y.get_datatype() == DataType::String, DefinedDecl::Section(y) => y.get_datatype() == DataType::String || n == ".debug_str" || n == ".debug_line_str", _ => false };
        let (w, a, e) = match d { DefinedDecl::Function(_) => (0, 2, 4), DefinedDecl::Data(y) => (if y.is_writable() || blob.is_none() { 1 } else { 0 }, 2, 0), DefinedDecl::Section(_) => (0, 0, 0) };
        let flags = w | a | e | if isstr && blob.is_some() { 0x30 } else { 0 };
        if s.flags != flags { bad("C07", format!("section of {:?} has flags {:#x}, expected {:#x}", n, s.flags, flags)); if blob.is_none() { bad("C22", format!("section of {:?} has flags {:#x}, expected {:#x}", n, s.flags, flags)) } }
        if blob.is_some() && s.typ != 1 { bad("C07", format!("section of {:?} has type {}", n, s.typ)) }
        let defalign = match d { DefinedDecl::Function(_) => 16, DefinedDecl::Data(y) if y.is_writable() => 8, _ => 1 };
        let al = d.get_align().unwrap_or(defalign);
        if s.align != al { bad("C07", format!("section of {:?} has alignment {}, expected {}", n, s.align, al)); if blob.is_none() && d.get_align().is_some() { bad("C22", format!("section of {:?} has alignment {}, expected {}", n, s.align, al)) } }
        if s.addr != 0 || s.link != 0 || s.info != 0 || s.entsize != 0 { bad("C07", format!("section of {:?} has addr/link/info/entsize set", n)) }
        // custom symbols
        for (cs, off) in &x.syms {
            let c: Vec<usize> = byname.get(cs.as_bytes()).cloned().unwrap_or_default();
            if c.len() != 1 { bad("C08", format!("{} symbols named {:?}", c.len(), cs)); continue }
            let y = &f.syms[c[0]];
            if y.info != 0 || y.other != 0 || y.size != 0 || y.value != *off || y.shndx as usize != si { bad("C08", format!("custom symbol {:?} of {:?} is {:?}, expected value {} in section {}", cs, n, y, off, si)) }
        }
    }
    // imports
    for (n, _) in m.imports() {
        let c: Vec<usize> = byname.get(n.as_bytes()).cloned().unwrap_or_default();
        if c.len() != 1 { bad("C08", format!("{} symbols named {:?}", c.len(), n)); continue }
        let y = &f.syms[c[0]];
        if y.info != 0x10 || y.other != 0 || y.size != 0 || y.value != 0 || y.shndx != 0 { bad("C08", format!("import {:?} is {:?}", n, y)) }
    }
    // null, file and section symbols, and nothing else
    let total: usize = 2 + ndefs + m.defs().map(|d| d.2.syms.len() + !matches!(d.1, DefinedDecl::Section(_)) as usize).sum::<usize>() + m.imports().len();
    if f.syms.len() != total { bad("C08", format!("{} symbols, expected {}", f.syms.len(), total)) }
    if let Some(s) = f.syms.first() { if s.name != 0 || s.info != 0 || s.other != 0 || s.shndx != 0 || s.value != 0 || s.size != 0 { bad("C08", "symbol 0 is not the null symbol".into()) } }
    let files: Vec<usize> = (0..f.syms.len()).filter(|i| f.syms[*i].typ() == 4).collect();
    if files.len() != 1 || f.syms[files[0]].bind() != 0 || f.syms[files[0]].shndx != 0xffff_fff1 || f.symname(files[0]) != Some(art_name.as_bytes()) { bad("C08", "the file symbol is not a local absolute symbol carrying the artifact's name".into()) }
    let mut ss: Vec<u32> = f.syms.iter().filter(|s| s.typ() == 3).map(|s| s.shndx).collect();
    for s in f.syms.iter().filter(|s| s.typ() == 3) { if s.bind() != 0 || s.value != 0 || s.size != 0 || s.other != 0 { bad("C08", format!("section symbol {:?}", s)) } }
    ss.sort();
    let mut sx: Vec<u32> = sect_of.values().map(|x| *x as u32).collect();
    sx.sort();
    if ss != sx && sect_of.len() == ndefs { if ext { bad("C14", "the section symbols' indices do not read as the definitions' sections".into()) } bad("C08", "section symbols do not correspond to the definitions' sections".into()) }

    // ---- C09 ordering
    let first = f.sh[f.symtab].info as usize;
    if first > f.syms.len() { bad("C09", format!("sh_info {} exceeds the {} symbols", first, f.syms.len())) }
    for (i, s) in f.syms.iter().enumerate() {
        if i < first && s.bind() != 0 { bad("C09", format!("symbol {} has binding {} but lies before sh_info {}", i, s.bind(), first)); break }
        if i >= first && s.bind() == 0 { bad("C09", format!("local symbol {} lies at or after sh_info {}", i, first)); break }
    }

    // ---- C11/C12 relocations
    let mut rel: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, s) in f.sh.iter().enumerate() {
        if s.typ == 4 {
            rel.entry(s.info as usize).or_default().push(i);
            if s.link as usize != f.symtab { bad("C11", format!("rela section {} links to {}", i, s.link)) }
            if s.flags != 0x40 { bad("C11", format!("rela section {} has flags {:#x}", i, s.flags)) }
        }
    }
    let mut order: Vec<&str> = vec![];
    let mut groups: HashMap<&str, Vec<&(String, String, u64, Reloc)>> = HashMap::new();
    for l in &m.links { let g = groups.entry(l.0.as_str()).or_default(); if g.is_empty() { order.push(&l.0) } g.push(l) }
    let nrel: usize = rel.values().map(|v| v.len()).sum();
    if nrel != order.len() { bad("C11", format!("{} relocation sections, expected {}", nrel, order.len())) }
    for from in order {
        let ls = &groups[from];
        let si = match sect_of.get(from) { Some(i) => *i, None => continue };
        let rs = match rel.get(&si) { Some(v) if v.len() == 1 => v[0], v => { bad("C11", format!("{} relocation sections for {:?}", v.map(|v| v.len()).unwrap_or(0), from)); continue } };
        let es = match f.relas(rs) { Some(x) => x, None => { bad("C11", "relocations outside the file".into()); continue } };
        if es.len() != ls.len() { bad("C11", format!("{} relocations for {:?}, expected {}", es.len(), from, ls.len())); continue }
        for (k, (e, (_, to, at, r))) in es.iter().zip(ls.iter()).enumerate() {
            if e.off != *at { bad("C11", format!("relocation {} of {:?} is at {}, expected {}", k, from, e.off, at)) }
            let td = m.get(to).unwrap().decl;
            let okt = match f.syms.get(e.sym as usize) {
                None => false,
                Some(s) => match td {
                    Decl::Import(_) => f.symname(e.sym as usize) == Some(to.as_bytes()) && s.shndx == 0 && s.bind() == 1,
                    Decl::Defined(_) => sect_of.get(to.as_str()).map(|x| *x as u32) == Some(s.shndx) && s.typ() == 3,
                },
            };
            if !okt { bad("C11", format!("relocation {} of {:?} refers to symbol {} {:?}, not to {:?}", k, from, e.sym, f.syms.get(e.sym as usize), to)) }
            let fd = m.get(from).unwrap().decl;
            match r {
                Reloc::Raw { reloc, addend } => if e.typ != *reloc as u64 || e.addend != *addend as i64 { bad("C11", format!("raw relocation {} of {:?} is ({}, {}), expected ({}, {})", k, from, e.typ, e.addend, reloc, addend)) },
                Reloc::Debug { size, addend } => { let ty = if *size == 4 { 10 } else { 1 }; if e.typ != ty || e.addend != *addend as i64 { bad("C11", format!("debug relocation {} of {:?} is ({}, {}), expected ({}, {})", k, from, e.typ, e.addend, ty, addend)) } }
                Reloc::Auto => {
                    let w = match fd {
                        Decl::Defined(DefinedDecl::Function(_)) => match td {
                            Decl::Defined(DefinedDecl::Function(_)) | Decl::Import(ImportKind::Function) => (4, -4),
                            Decl::Defined(DefinedDecl::Data(_)) => (2, -4),
                            Decl::Import(ImportKind::Data) => (9, -4),
                            _ => continue,
                        },
                        Decl::Defined(DefinedDecl::Data(_)) => if f.is64 { (1, 0) } else { (10, 0) },
                        _ => continue,
                    };
                    if (e.typ, e.addend) != w { bad("C12", format!("automatic relocation {} of {:?} to {:?} is ({}, {}), expected {:?}", k, from, to, e.typ, e.addend, w)) }
                }
            }
        }
    }
}

/// where the contents of every definition lie in the file
pub fn places(m: &Model, b: &[u8]) -> HashMap<String, u64> {
    let mut v = HashMap::new();
    if let Ok(f) = File::parse(b) {
        let mut by: HashMap<&[u8], usize> = HashMap::new();
        for i in 0..f.sh.len() { if i >= 3 && f.sh[i].typ == 1 { if let Some(n) = f.shname(i) { by.entry(n).or_insert(i); } } }
        for (n, d, x) in m.defs() { if let (Some(i), false) = (by.get(elf_section_name(n, &d, x).as_bytes()), x.bytes.is_zero()) { v.insert(n.to_string(), f.sh[*i].off); } }
    }
    v
}
