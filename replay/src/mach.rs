//! Own Mach-O reader (no goblin) and the per-property oracle on emitted Mach-O bytes.
use crate::case::*;
use crate::elf::Rd;
use crate::model::*;
use faerie::artifact::DefinedDecl;
use faerie::{Decl, ImportKind, Reloc, Scope, SectionKind};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Sect { pub name: Vec<u8>, pub seg: Vec<u8>, pub addr: u64, pub size: u64, pub off: u64, pub align: u64, pub reloff: u64, pub nreloc: u64, pub flags: u64 }
impl Sect { fn zerofill(&self) -> bool { self.flags & 0xff == 1 } }
#[derive(Clone, Debug)]
pub struct Nl { pub strx: u64, pub typ: u64, pub sect: u64, pub desc: u64, pub value: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Rel { pub addr: u64, pub sym: u64, pub pcrel: u64, pub len: u64, pub ext: u64, pub typ: u64 }

pub fn cputype(a: target_lexicon::Architecture) -> Option<u64> {
    use target_lexicon::Architecture::*;
    Some(match a { X86_64 => 0x0100_0007, X86_32(_) => 7, Aarch64(_) => 0x0100_000c, Arm(_) => 12, Sparc => 14, Powerpc => 18, Powerpc64 | Powerpc64le => 0x0100_0012, Unknown => 0, _ => return None })
}

fn name16(b: &[u8]) -> Vec<u8> { b.iter().cloned().take_while(|x| *x != 0).collect() }

/// where the contents of every definition lie in the file, from the start of the contents; filled by `check`
pub type Places = HashMap<String, u64>;
pub fn check(m: &Model, t: &target_lexicon::Triple, b: &[u8], bad: &mut dyn FnMut(&'static str, String)) { let mut p = Places::new(); check_places(m, t, b, bad, &mut p) }
pub fn check_places(m: &Model, t: &target_lexicon::Triple, b: &[u8], bad: &mut dyn FnMut(&'static str, String), places: &mut Places) {
    macro_rules! fail { ($($a:tt)*) => { { bad("C21", format!($($a)*)); return } } }
    if b.len() < 28 { fail!("too short for a Mach-O header") }
    let (is64, le) = match &b[..4] { [0xcf, 0xfa, 0xed, 0xfe] => (true, true), [0xce, 0xfa, 0xed, 0xfe] => (false, true), [0xfe, 0xed, 0xfa, 0xcf] => (true, false), [0xfe, 0xed, 0xfa, 0xce] => (false, false), x => { bad("C15", format!("magic {:x?}", x)); fail!("magic {:x?}", x) } };
    let rd = Rd { b, le };
    if ctx(t) != (is64, le) { bad("C15", format!("class/data ({}, {}) differ from the target's {:?}", is64, le, ctx(t))) }
    let u = |o: u64| rd.n(o, 4).unwrap_or(u64::MAX);
    if Some(u(4)) != cputype(t.architecture) { bad("C15", format!("cputype {:#x} for {}", u(4), t.architecture)) }
    let hs: u64 = if is64 { 32 } else { 28 };
    if u(12) != 1 { fail!("filetype {}", u(12)) }
    if u(24) != 0x2000 { bad("C21", format!("header flags {:#x}", u(24))) }
    let (ncmds, szcmds) = (u(16), u(20));
    if hs + szcmds > b.len() as u64 { fail!("load commands outside the file") }
    let mut o = hs;
    let (mut seg, mut sym) = (None, None);
    for _ in 0..ncmds {
        if o + 8 > hs + szcmds { fail!("load commands overrun sizeofcmds") }
        let (c, sz) = (u(o), u(o + 4));
        if sz < 8 || o + sz > hs + szcmds || sz % (if is64 { 8 } else { 4 }) != 0 { fail!("load command {:#x} has size {}", c, sz) }
        match c { 0x19 if is64 => { if seg.is_some() { fail!("two segments") } seg = Some((o, sz)) } 1 if !is64 => { if seg.is_some() { fail!("two segments") } seg = Some((o, sz)) } 2 => sym = Some((o, sz)), _ => fail!("unexpected load command {:#x}", c) }
        o += sz;
    }
    if o != hs + szcmds { fail!("sizeofcmds {} but the commands take {}", szcmds, o - hs) }
    let ((so, ssz), (yo, ysz)) = match (seg, sym) { (Some(a), Some(b)) => (a, b), _ => fail!("segment or symtab command missing") };
    if ysz != 24 { fail!("symtab command size {}", ysz) }
    let w: u64 = if is64 { 8 } else { 4 };
    let g = |o: u64| rd.n(o, w).unwrap_or(u64::MAX);
    let (vmaddr, vmsize, fileoff, filesize) = (g(so + 24), g(so + 24 + w), g(so + 24 + 2 * w), g(so + 24 + 3 * w));
    let nsects = u(so + 24 + 4 * w + 8);
    let (segsz, sectsz) = if is64 { (72, 80) } else { (56, 68) };
    if ssz != segsz + nsects * sectsz { fail!("segment command size {} with {} sections", ssz, nsects) }
    let mut sects: Vec<Sect> = vec![];
    for i in 0..nsects {
        let p = so + segsz + i * sectsz;
        let q = p + 32 + 2 * w;
        sects.push(Sect { name: name16(&b[p as usize..p as usize + 16]), seg: name16(&b[p as usize + 16..p as usize + 32]), addr: g(p + 32), size: g(p + 32 + w), off: u(q), align: u(q + 4), reloff: u(q + 8), nreloc: u(q + 12), flags: u(q + 16) });
        for k in 0..(if is64 { 3 } else { 2 }) { if u(q + 20 + 4 * k) != 0 { bad("C21", "reserved section field set".into()) } }
    }
    let (symoff, nsyms, stroff, strsize) = (u(yo + 8), u(yo + 12), u(yo + 16), u(yo + 20));
    let nls: u64 = if is64 { 16 } else { 12 };
    // ---- C21: everything the commands promise lies inside the file and does not overlap
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, hs + szcmds, "header and load commands".into())];
    ranges.push((symoff, symoff + nsyms * nls, "symbol table".into()));
    ranges.push((stroff, stroff + strsize, "string table".into()));
    for (i, s) in sects.iter().enumerate() {
        if !s.zerofill() {
            if s.size > 0 { ranges.push((s.off, s.off.saturating_add(s.size), format!("section {}", i))) }
            if s.size > 0 && (s.off < fileoff || s.off.saturating_add(s.size) > fileoff.saturating_add(filesize)) { bad("C21", format!("section {} [{:#x}+{:#x}] is outside the segment's file range [{:#x}+{:#x}]", i, s.off, s.size, fileoff, filesize)) }
        }
        if s.nreloc > 0 { ranges.push((s.reloff, s.reloff + 8 * s.nreloc, format!("relocations of section {}", i))) }
        if s.addr < vmaddr || s.addr.saturating_add(s.size) > vmaddr.saturating_add(vmsize) { for p in if s.zerofill() { &["C21", "C22"][..] } else { &["C21"] } { bad(p, format!("section {} [{:#x}+{:#x}] is outside the segment's memory [{:#x}+{:#x}]", i, s.addr, s.size, vmaddr, vmsize)) } }
    }
    if filesize > vmsize { bad("C21", format!("filesize {} exceeds vmsize {}", filesize, vmsize)) }
    let content: u64 = sects.iter().filter(|s| !s.zerofill()).map(|s| s.size).fold(0, u64::saturating_add);
    if fileoff != hs + szcmds || filesize != content { bad("C21", format!("the segment's file range is [{:#x}+{:#x}], its sections' contents take [{:#x}+{:#x}]", fileoff, filesize, hs + szcmds, content)) }
    ranges.push((fileoff, fileoff.saturating_add(filesize), "segment data".into()));
    let mut fatal = false;
    for r in &ranges { if r.1 > b.len() as u64 { bad("C21", format!("{} [{:#x}..{:#x}] lies outside the file of {} bytes", r.2, r.0, r.1, b.len())); fatal = true } }
    ranges.pop();
    ranges.retain(|r| r.0 != r.1);
    ranges.sort();
    for x in ranges.windows(2) { if x[0].1 > x[1].0 { bad("C21", format!("{} and {} overlap in the file", x[0].2, x[1].2)) } }
    let mut mem: Vec<(u64, u64, usize)> = sects.iter().enumerate().filter(|(_, s)| s.size > 0).map(|(i, s)| (s.addr, s.addr.saturating_add(s.size), i)).collect();
    mem.sort();
    for x in mem.windows(2) { if x[0].1 > x[1].0 { for p in if sects[x[0].2].zerofill() || sects[x[1].2].zerofill() { &["C21", "C22"][..] } else { &["C21"] } { bad(p, format!("sections {} and {} overlap in memory", x[0].2, x[1].2)) } } }
    if fatal { for p in ["C16", "C18", "C19", "C20"] { bad(p, "cannot be read: a table or section lies outside the file".into()) } return }

    // ---- C19 string table
    let strs = &b[stroff as usize..(stroff + strsize) as usize];
    if strs.is_empty() || strs[0] != 0 || strs[strs.len() - 1] != 0 { bad("C19", "string table does not start and end with NUL".into()); return }
    let mut syms: Vec<(Nl, Vec<u8>)> = vec![];
    for i in 0..nsyms {
        let p = symoff + i * nls;
        let n = Nl { strx: u(p), typ: rd.n(p + 4, 1).unwrap(), sect: rd.n(p + 5, 1).unwrap(), desc: rd.n(p + 6, 2).unwrap(), value: g(p + 8) };
        let name = if n.strx < strsize { name16(&strs[n.strx as usize..]) } else { bad("C19", format!("symbol {} has its name at {} of {}", i, n.strx, strsize)); vec![] };
        syms.push((n, name));
    }
    let mut want: HashMap<Vec<u8>, i64> = HashMap::new();
    let us = |n: &str| { let mut v = b"_".to_vec(); v.extend_from_slice(n.as_bytes()); v };
    for (n, d, x) in m.defs() { if let DefinedDecl::Section(_) = d { for s in x.syms.keys() { *want.entry(us(s)).or_default() += 1 } } else { *want.entry(us(n)).or_default() += 1 } }
    for (n, _) in m.imports() { *want.entry(us(&n)).or_default() += 1 }
    let space = 1 + want.keys().map(|k| k.len() as u64 + 1).sum::<u64>();
    if strsize != space { bad("C19", format!("the string table has {} bytes, its strings take {}", strsize, space)) }
    let mut have: HashMap<Vec<u8>, i64> = HashMap::new();
    let mut byname: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, s) in syms.iter().enumerate() { *have.entry(s.1.clone()).or_default() += 1; byname.insert(s.1.clone(), i); }
    if have != want {
        let mut diff: Vec<String> = vec![];
        for (k, v) in &want { if have.get(k) != Some(v) { diff.push(format!("{:?} expected {} times, found {}", String::from_utf8_lossy(k), v, have.get(k).unwrap_or(&0))) } }
        for (k, v) in &have { if !want.contains_key(k) { diff.push(format!("unexpected {:?} x{}", String::from_utf8_lossy(k), v)) } }
        diff.truncate(5);
        // a wrong name is a string-table fault, a wrong number of entries a symbol-table one
        bad(if syms.len() as i64 == want.values().sum::<i64>() { "C19" } else { "C18" }, format!("symbols: {}", diff.join("; ")));
    }

    // ---- sections
    let ncustom = m.defs().filter(|d| matches!(d.1, DefinedDecl::Section(_))).count();
    if sects.len() != 4 + ncustom { bad("C16", format!("{} sections, expected {}", sects.len(), 4 + ncustom)) }
    let find = |n: &[u8], s: &[u8]| sects.iter().position(|x| x.name == n && x.seg == s);
    let std: Vec<Option<usize>> = [("__text", "__TEXT", 0x8000_0400u64), ("__data", "__DATA", 0), ("__cstring", "__TEXT", 2), ("__bss", "__DATA", 1)].iter().map(|(n, s, f)| {
        let i = find(n.as_bytes(), s.as_bytes());
        match i { None => bad("C16", format!("no section {},{}", s, n)), Some(i) => if sects[i].flags != *f { bad("C16", format!("section {} has flags {:#x}, expected {:#x}", n, sects[i].flags, f)) } }
        i
    }).collect();
    let mut place: HashMap<&str, (usize, u64)> = HashMap::new(); // definition -> section, offset in it
    let mut occ: Vec<Vec<(u64, u64, String)>> = vec![vec![]; sects.len()];
    for (n, d, x) in m.defs() {
        let memsize = match &x.bytes { Bytes::Raw(v) => v.len() as u64, Bytes::Fill(_, k) => *k as u64, Bytes::Zero(k) => *k as u64 };
        let blob = x.bytes.blob();
        let (si, off);
        if let DefinedDecl::Section(s) = d {
            let sg = match s.kind() { SectionKind::Data => "__DATA", SectionKind::Debug => "__DWARF", SectionKind::Text => "__TEXT" };
            let nm = macho_sectname(n);
            match sects.iter().position(|y| y.name == nm.as_bytes() && y.seg == sg.as_bytes()) {
                None => { bad("C16", format!("no section {},{} for {:?}", sg, nm, n)); continue }
                Some(i) => { si = i; off = 0 }
            }
            let want = if s.kind() == SectionKind::Debug { 0x0200_0000 } else { 0 };
            if sects[si].flags != want { bad("C16", format!("section {:?} has flags {:#x}, expected {:#x}", n, sects[si].flags, want)) }
            if sects[si].size != memsize { bad("C16", format!("section {:?} has size {}, expected {}", n, sects[si].size, memsize)) }
        } else {
            let k = match d { DefinedDecl::Function(_) => 0, _ if blob.is_none() => 3, _ if is_cstring(&d) => 2, _ => 1 };
            let expect = match std[k] { Some(i) => i, None => continue };
            let (yn, sym) = match byname.get(&us(n)) { Some(i) => (*i, &syms[*i].0), None => continue };
            let _ = yn;
            if sym.sect as usize != expect + 1 { bad("C18", format!("symbol {:?} is in section {}, expected {}", n, sym.sect, expect + 1)) }
            let gl = scope_of(&d);
            let ty = if gl == Scope::Local { 0xe } else { 0xf };
            if sym.typ != ty { bad("C18", format!("symbol {:?} has n_type {:#x}, expected {:#x}", n, sym.typ, ty)) }
            let ds = if gl == Scope::Weak { 0x80 } else { 0 };
            if sym.desc != ds { bad("C18", format!("symbol {:?} has n_desc {:#x}, expected {:#x}", n, sym.desc, ds)) }
            si = expect;
            let (a, e) = (sects[si].addr, sects[si].addr.saturating_add(sects[si].size));
            let p = if blob.is_none() { "C22" } else { "C16" };
            if sym.value < a || sym.value.saturating_add(memsize) > e { bad(p, format!("{:?} at {:#x} of size {} is outside its section [{:#x}..{:#x}]", n, sym.value, memsize, a, e)); if p == "C16" { bad("C18", format!("{:?} at {:#x} is outside its section", n, sym.value)) } continue }
            off = sym.value - a;
        }
        place.insert(n, (si, off));
        if blob.is_some() { places.insert(n.to_string(), sects[si].off.wrapping_add(off).wrapping_sub(fileoff)); }
        occ[si].push((off, off.saturating_add(memsize), n.to_string()));
        let s = &sects[si];
        match &blob {
            Some(v) => {
                let p = s.off + off;
                if b.get(p as usize..p as usize + v.len()) != Some(&v[..]) { bad("C16", format!("the {} bytes of {:?} are not at offset {} of section {}", v.len(), n, off, si)); if !matches!(d, DefinedDecl::Section(_)) { bad("C18", format!("the address of {:?} is not that of its {} bytes", n, v.len())) } }
                if s.zerofill() { bad("C16", format!("{:?} is in a zerofill section", n)) }
            }
            None => if !s.zerofill() { bad("C22", format!("zero-initialized {:?} is in a section with file contents", n)) },
        }
        // ---- C17
        let min = match d { DefinedDecl::Function(_) => 16, DefinedDecl::Data(_) if blob.is_some() && !is_cstring(&d) => 8, _ => 1 };
        let al = d.get_align().unwrap_or(1).max(min);
        let addr = s.addr + off;
        if addr % al != 0 { bad("C17", format!("{:?} requires alignment {} but lies at {:#x}", n, al, addr)); if blob.is_none() { bad("C22", format!("zero-initialized {:?} requires alignment {} but lies at {:#x}", n, al, addr)) } }
        if s.align > 63 || 1u64 << s.align < al { bad("C17", format!("{:?} requires alignment {} but its section declares 2^{}", n, al, s.align)) }
        // custom symbols
        for (cs, o) in &x.syms {
            if let Some(i) = byname.get(&us(cs)) {
                let y = &syms[*i].0;
                if y.typ != 0xf || y.desc != 0 || y.sect as usize != si + 1 || y.value != s.addr.wrapping_add(*o) & (if is64 { u64::MAX } else { 0xffff_ffff }) { bad("C18", format!("custom symbol {:?} of {:?} is {:?}, expected {:#x} in section {}", cs, n, y, s.addr.wrapping_add(*o), si + 1)) }
            }
        }
    }
    for s in &sects { if s.align > 63 || s.addr % (1 << s.align) != 0 { bad("C17", format!("section {:?} is at {:#x}, not aligned to 2^{}", String::from_utf8_lossy(&s.name), s.addr, s.align)) } }
    for (i, v) in occ.iter_mut().enumerate() {
        v.retain(|r| r.0 != r.1);
        v.sort();
        for w in v.windows(2) { if w[0].1 > w[1].0 { for p in [if sects[i].zerofill() { "C22" } else { "C16" }, "C18"] { bad(p, format!("{:?} and {:?} overlap in section {}", w[0].2, w[1].2, i)) } } }
    }
    for (n, _) in m.imports() {
        if let Some(i) = byname.get(&us(&n)) {
            let y = &syms[*i].0;
            if y.typ != 1 || y.sect != 0 || y.desc != 0 || y.value != 0 { bad("C18", format!("import {:?} is {:?}", n, y)) }
        }
    }
    // ---- C20 / C12
    let mut want: Vec<Vec<(Rel, bool, String)>> = vec![vec![]; sects.len()];
    for (f, to, at, r) in &m.links {
        let (si, base) = match place.get(f.as_str()) { Some(x) => *x, None => continue };
        let ti = match byname.get(&us(to)) { Some(i) => *i as u64, None => continue };
        let (fd, td) = (m.get(f).unwrap().decl, m.get(to).unwrap().decl);
        let (pc, len, ty, auto) = match r {
            Reloc::Auto => match fd {
                Decl::Defined(DefinedDecl::Data(_)) => (0, 3, 0, true),
                _ => match td { Decl::Defined(DefinedDecl::Function(_)) | Decl::Import(ImportKind::Function) => (1, 2, 2, true), Decl::Defined(_) => (1, 2, 1, true), Decl::Import(ImportKind::Data) => (1, 2, 3, true) },
            },
            Reloc::Raw { reloc, .. } => if *reloc == 0 { (0, 3, 0, false) } else { (1, 2, *reloc as u64, false) },
            Reloc::Debug { size, .. } => (0, if *size == 4 { 2 } else { 3 }, 0, false),
        };
        want[si].push((Rel { addr: base + at, sym: ti, pcrel: pc, len, ext: 1, typ: ty }, auto, format!("{:?}->{:?} at {}", f, to, at)));
    }
    for (i, s) in sects.iter().enumerate() {
        if s.nreloc != want[i].len() as u64 { bad("C20", format!("section {:?} has {} relocations, expected {}", String::from_utf8_lossy(&s.name), s.nreloc, want[i].len())); continue }
        for (k, (e, auto, d)) in want[i].iter().enumerate() {
            let p = s.reloff + 8 * k as u64;
            let inf = u(p + 4);
            let h = Rel { addr: u(p), sym: inf & 0xff_ffff, pcrel: inf >> 24 & 1, len: inf >> 25 & 3, ext: inf >> 27 & 1, typ: inf >> 28 };
            if (h.addr, h.sym, h.ext) != (e.addr, e.sym, e.ext) { bad("C20", format!("relocation {} of section {} for {} is {:?}, expected {:?}", k, i, d, h, e)) }
            if (h.pcrel, h.len, h.typ) != (e.pcrel, e.len, e.typ) { bad(if *auto { "C12" } else { "C20" }, format!("relocation {} of section {} for {} is {:?}, expected {:?}", k, i, d, h, e)) }
        }
    }
}
