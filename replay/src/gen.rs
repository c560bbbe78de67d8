//! Random histories. One seed gives one case.
use crate::case::*;
use faerie::{Decl, DataType, ImportKind, Reloc, Scope, SectionKind, Visibility};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15); let mut z = self.0; z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ z >> 31 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

const NAMES: &[&str] = &["a", "b", "f", "g", "main", "data0", "str", "bss0", ".debug_info", ".debug_str", ".debug_line_str", ".debug_abbrev", "__mysect", ".strtab", ".symtab", ".symtab_shndx", ".note.GNU-stack", ".text.f", ".data.a", ".rela.text.f", "\u{e9}t\u{e9}", "a_rather_long_symbol_name_for_a_function", "x y", ".debug", "_a", "strtab", "A", " lead", "trail ", "MAIN", "_", "__", ".", "..", "", "ab", "abc", "bc", "c", "__a", ".text.", ".data.data0", ".rodata.str", ".bss.bss0", "main.", "f.1", ".rela", ".debug_str_offsets", ".debug_line", "debug_info", "\u{1F600}", "%41", ".rela.debug_info", "__text", "__debug_info", ".comment", ".init_array"];
const ELF_TRIPLES: &[&str] = &["x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "arm-unknown-linux-gnueabi", "mips-unknown-linux-gnu", "mips64-unknown-linux-gnuabi64", "mipsel-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "powerpc64le-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu", "riscv32imac-unknown-none-elf", "s390x-unknown-linux-gnu", "sparc-unknown-linux-gnu", "sparc64-unknown-linux-gnu", "sparcv9-sun-solaris", "msp430-none-elf", "x86_64-unknown-linux-gnux32", "mips64el-unknown-linux-gnuabi64", "unknown-unknown-unknown-elf", "aarch64_be-unknown-linux-gnu", "armebv7r-none-eabi"];
const MAC_TRIPLES: &[&str] = &["x86_64-apple-darwin", "x86_64-apple-darwin", "x86_64-apple-darwin", "i686-apple-darwin", "aarch64-apple-darwin", "arm-apple-darwin", "powerpc-apple-darwin", "powerpc64-apple-darwin", "sparc-apple-darwin", "powerpc64le-unknown-linux-gnu"];

const COMMON_ARCHS: &str = "arm armeb armv4 armv4t armv5t armv5te armv5tej armv6 armv6j armv6k armv6z armv6kz armv6t2 armv6m armv7 armv7a armv7k armv7ve armv7m armv7r armv7s armv8 armv8a armv8.1a armv8.2a armv8.3a armv8.4a armv8.5a armv8m.base armv8m.main armv8r thumbeb thumbv4t thumbv5te thumbv6m thumbv7a thumbv7em thumbv7m thumbv7neon thumbv8m.base thumbv8m.main armebv7r aarch64 aarch64_be i386 i586 i686 unknown powerpc powerpc64 powerpc64le sparc x86_64 x86_64";
const ELF_ARCHS: &str = "riscv32 riscv32gc riscv32i riscv32im riscv32imac riscv32imc riscv64 riscv64gc riscv64imac mips mipsel mipsisa32r6 mipsisa32r6el mips64 mips64el mipsisa64r6 mipsisa64r6el msp430 s390x sparc64 sparcv9";
const SYSTEMS: &[&str] = &["unknown-linux-gnu", "unknown-linux-gnu", "unknown-none-elf", "unknown-none", "unknown-linux-gnux32", "unknown-linux-gnu_ilp32", "unknown-linux-musl", "pc-windows-msvc", "apple-darwin", "apple-ios", "unknown-freebsd", "unknown-unknown-macho", "linux-android", "unknown-linux-gnuabin32", "unknown-linux-gnueabihf", "sun-solaris", "unknown-uefi"];
fn triple(r: &mut Rng, f: Fmt) -> String {
    let mut v: Vec<&str> = COMMON_ARCHS.split(' ').collect();
    if f == Fmt::Elf { v.extend(ELF_ARCHS.split(' ')) }
    let s = format!("{}-{}", r.pick(&v), r.pick(SYSTEMS));
    if <target_lexicon::Triple as std::str::FromStr>::from_str(&s).is_ok() { s } else { "x86_64-unknown-linux-gnu".into() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile { Api, Elf, Macho, ElfBig, MachoBig }

fn align(r: &mut Rng) -> Option<u64> { match r.below(6) { 0 | 1 | 2 => None, 3 => Some(1 << r.below(5)), 4 => Some(1 << r.below(9)), _ => Some({ let k = if r.chance(6) { 17 } else { 13 }; 1 << r.below(k) }) } }
/// a number at or next to a limit of some integer type or power of two
fn edge(r: &mut Rng, bits: usize) -> u64 { let k = match r.below(3) { 0 => *r.pick(&[7, 8, 15, 16, 23, 24, 31, 32, 40, 63]), _ => r.below(64) } % bits; let v = 1u64 << k; match r.below(4) { 0 => v - 1, 1 => v + 1, _ => v } }
pub fn decl(r: &mut Rng, sect: bool) -> Decl {
    let s = *r.pick(&[Scope::Local, Scope::Global, Scope::Global, Scope::Weak]);
    let v = *r.pick(&[Visibility::Default, Visibility::Default, Visibility::Hidden, Visibility::Protected]);
    let a = align(r);
    if sect { return mk_sect(*r.pick(&[SectionKind::Data, SectionKind::Debug, SectionKind::Text]), *r.pick(&[DataType::Bytes, DataType::Bytes, DataType::String]), a).into() }
    match r.below(8) {
        0 => Decl::function_import().into(),
        1 => Decl::data_import().into(),
        2 | 3 | 4 => mk_fn(s, v, a).into(),
        _ => mk_data(s, v, a, r.chance(2), *r.pick(&[DataType::Bytes, DataType::Bytes, DataType::String])).into(),
    }
}
fn long(r: &mut Rng, bits: usize) -> String { let (n, s) = (edge(r, bits) as usize, r.below(26)); (0..n).map(|i| (b'a' + ((i * 7 + i / 26 + s) % 26) as u8) as char).collect() }
fn blob(r: &mut Rng) -> Bytes {
    match r.below(12) { 0 => Bytes::Raw(vec![]), 1 => Bytes::Fill(r.next() as u8, r.below(300)), 2 => Bytes::Fill(r.next() as u8, edge(r, 13) as usize), 3 => { let k = if r.chance(8) { 18 } else { 10 }; let n = edge(r, k) as usize; Bytes::Raw((0..n).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8).collect()) } 4 => Bytes::Raw(vec![0; r.below(20)]), _ => { let n = r.below(12); Bytes::Raw((0..n).map(|_| r.next() as u8).collect()) } }
}
fn zero(r: &mut Rng) -> Bytes { Bytes::Zero(match r.below(5) { 0 => 0, 1 => 1, 2 => r.below(64), 3 => r.below(5000), _ => edge(r, 29) as usize }) }

pub fn case(r: &mut Rng, p: Profile) -> Case {
    let fmt = match p { Profile::Api => if r.chance(2) { Fmt::Elf } else { Fmt::Macho }, Profile::Macho | Profile::MachoBig => Fmt::Macho, _ => Fmt::Elf };
    let triple = if r.chance(4) { triple(r, fmt) } else { (if fmt == Fmt::Elf { if r.chance(12) { *r.pick(MAC_TRIPLES) } else { *r.pick(ELF_TRIPLES) } } else if r.chance(12) { "x86_64-unknown-linux-gnu" } else { *r.pick(MAC_TRIPLES) }).to_string() };
    let mut c = Case { triple, fmt, name: match r.below(12) { 0 => "".into(), 1 => ".strtab".into(), 2 => if r.chance(2) { ".symtab".into() } else { long(r, 12) }, 3 | 4 => r.pick(NAMES).to_string(), _ => "t.o".into() }, ops: vec![] };
    if p == Profile::Api { api_case(r, &mut c) } else { emit_case(r, &mut c, p) }
    c
}

fn reloc_any(r: &mut Rng) -> Reloc { match r.below(4) { 0 | 1 => Reloc::Auto, 2 => Reloc::Raw { reloc: r.below(16) as u32, addend: 0 }, _ => Reloc::Debug { size: if r.chance(2) { 4 } else { 8 }, addend: 0 } } }

/// a history with plenty of rejected calls
fn api_case(r: &mut Rng, c: &mut Case) {
    let wide = r.chance(12);
    let pool: Vec<String> = if wide { (0..{ let k = if r.chance(8) { 350 } else { 60 }; 10 + r.below(k) }).map(|i| format!("n{}", i)).collect() } else { (0..2 + r.below(5)).map(|_| r.pick(NAMES).to_string()).collect() };
    let mut decls: Vec<Decl> = (0..1 + r.below(5)).map(|_| { let s = r.chance(4); decl(r, s) }).collect();
    decls.push(Decl::function_import().into());
    decls.push(Decl::data_import().into());
    for _ in 0..if wide { 20 + r.below(200) } else if r.chance(5) { 1 + r.below(50) } else { 1 + r.below(16) } {
        let n = r.pick(&pool).clone();
        let op = match r.below(20) {
            0..=6 => Op::Declare(n, *r.pick(&decls)),
            7 => Op::Import(n, *r.pick(&[ImportKind::Function, ImportKind::Data])),
            8 => Op::Declarations((0..r.below(4)).map(|_| (r.pick(&pool).clone(), *r.pick(&decls))).collect()),
            9..=12 => { let b = if r.chance(3) { zero(r) } else { blob(r) }; let s = if r.chance(3) { (0..1 + r.below(2)).map(|i| (format!("cs{}_{}", c.ops.len(), i), r.below(9) as u64)).collect() } else { vec![] }; Op::Define(n, b, s) }
            13 => { let b = blob(r); Op::DeclareWith(n, *r.pick(&decls), b) }
            14..=17 => Op::Link(n, r.pick(&pool).clone(), r.below(40) as u64, reloc_any(r)),
            18 => Op::Emit,
            _ => { let s = r.chance(3); let d = decl(r, s); Op::Declare(n, d) }
        };
        c.ops.push(op);
    }
    // often finish the artifact so that it can be emitted
    if !r.chance(3) { for n in &pool { if r.chance(8) { continue } let b = blob(r); c.ops.push(Op::Define(n.clone(), b, vec![])); } c.ops.push(Op::Emit) }
}

/// mostly legal histories ending in an emission
fn emit_case(r: &mut Rng, c: &mut Case, p: Profile) {
    if p == Profile::MachoBig {
        match r.below(4) {
            0 => c.ops.push(Op::BulkSect(".s".into(), { let k = if r.chance(2) { 251 } else { 130 }; 1 + r.below(k) })),
            1 => { let n = if r.chance(2) { 65530 + r.below(5000) } else { 257 + r.below(70000) }; c.ops.push(Op::Bulk("f".into(), n)); if r.chance(2) { c.ops.push(Op::BulkLink("f".into(), n, format!("f{}", if r.chance(2) { n - 1 - n % 3 } else { n / 2 }))) } }
            2 => { let n = 257 + r.below(1000); c.ops.push(Op::Bulk("f".into(), n)); c.ops.push(Op::BulkLink("f".into(), n, format!("f{}", r.below(n)))) }
            _ => { c.ops.push(Op::Bulk("f".into(), 4)); c.ops.push(Op::Import("imp".into(), ImportKind::Function)); let m = if r.chance(2) { 65530 } else { 250 }; for i in 0..m + r.below(20) { c.ops.push(Op::Link(format!("f{}", i % 3), if i % 7 == 0 { "imp".into() } else { "f3".into() }, i as u64, Reloc::Auto)) } }
        }
        if r.chance(2) { emit_small(r, c, 3) }
        c.ops.push(Op::Emit);
        return;
    }
    if p == Profile::ElfBig {
        let kind = r.below(6);
        let n = 0xff00 - 6 + r.below(12);
        match kind {
            0 => c.ops.push(Op::Bulk("f".into(), if r.chance(3) { n } else { 33000 + r.below(70000) })),
            1 => c.ops.push(Op::BulkSect(".s".into(), n)),
            4 | 5 => { c.ops.push(Op::Bulk("f".into(), 4)); c.ops.push(Op::Import("imp".into(), ImportKind::Function)); let m = if r.chance(4) { 250 } else if r.chance(4) { 65530 } else { 65534 }; let one = !r.chance(4); for i in 0..m + r.below(20) { c.ops.push(Op::Link(format!("f{}", if one { 0 } else { i % 2 }), if i % 7 == 0 { "imp".into() } else { "f3".into() }, i as u64, Reloc::Auto)) } }
            2 => { c.ops.push(Op::Bulk("f".into(), n / 2 + 1)); c.ops.push(Op::BulkLink("f".into(), n / 2 - 1 + r.below(3), "f0".into())); if r.chance(2) { c.ops.push(Op::BulkLink("f".into(), 3, format!("f{}", n / 2))) } }
            _ => { let n = if r.chance(2) { 65530 + r.below(9000) } else { n }; c.ops.push(Op::Bulk("f".into(), n + r.below(300))); c.ops.push(Op::Link(format!("f{}", n - 1), format!("f{}", n - 2), 0, Reloc::Auto)); c.ops.push(Op::Import("imp".into(), ImportKind::Function)); c.ops.push(Op::Link(format!("f{}", n - 3), "imp".into(), 0, Reloc::Auto)) }
        }
        if r.chance(2) { emit_small(r, c, 3) }
        c.ops.push(Op::Emit);
        return;
    }
    let n = if r.chance(60) { 40 + r.below(300) } else { match r.below(12) { 0 => 0, 1..=6 => 1 + r.below(4), 7..=10 => 1 + r.below(9), _ => r.below(30) } };
    emit_small(r, c, n);
    c.ops.push(Op::Emit);
    if r.chance(12) { let n = 1 + r.below(6); emit_small(r, c, n); c.ops.push(Op::Emit) }
}
fn emit_small(r: &mut Rng, c: &mut Case, n: usize) {
    let macho = c.fmt == Fmt::Macho;
    let is32 = <target_lexicon::Triple as std::str::FromStr>::from_str(&c.triple).map(|t| !crate::model::is64(&t)).unwrap_or(false);
    let mut all: Vec<(String, Decl, Option<Bytes>)> = vec![];
    let mut syms: Vec<Vec<(String, u64)>> = vec![];
    let uniform = if r.chance(4) { Some(decl(r, false)) } else { None };
    for i in 0..n {
        let name = if r.chance(3) { format!("s{}", i) } else { r.pick(NAMES).to_string() };
        if all.iter().any(|x| x.0 == name) { continue }
        let sectish = name.starts_with(".") || name.starts_with("__");
        let s = r.chance(if sectish { 2 } else { 9 });
        let d = match uniform { Some(d) if !r.chance(4) => d, _ => decl(r, s) };
        let d = if !macho && r.chance(16) { let a = Some(1u64 << (12 + r.below(51))); match d { Decl::Defined(faerie::artifact::DefinedDecl::Function(f)) => f.with_align(a).into(), Decl::Defined(faerie::artifact::DefinedDecl::Data(f)) => f.with_align(a).into(), d => d } } else { d };
        let name = if r.chance(30) { let k = if r.chance(6) { 17 } else { 10 }; name + &long(r, k) } else { name };
        if all.iter().any(|x| x.0 == name) { continue }
        let b = match d { Decl::Import(_) => None, Decl::Defined(faerie::artifact::DefinedDecl::Data(_)) if r.chance(3) => Some(if !macho && r.chance(10) { Bytes::Zero((r.next() >> r.below(60)) as usize >> 3) } else { zero(r) }), _ => Some(blob(r)) };
        let mut sy = vec![];
        if matches!(d, Decl::Defined(faerie::artifact::DefinedDecl::Section(_))) && r.chance(2) { for k in 0..if r.chance(10) { r.below(20) } else { r.below(4) } { sy.push((if r.chance(12) { format!("{}.cs{}_{}", r.pick(NAMES), i, k) } else { format!("cs{}x{}_{}", c.ops.len(), i, k) }, if !macho && r.chance(5) { edge(r, if is32 { 32 } else { 64 }) } else { r.below(20) as u64 })) } }
        all.push((name, d, b));
        syms.push(sy);
    }
    // declarations, in order, possibly first as imports, definitions in another order; one history in four has all its calls interleaved
    let imported = |d: &Decl| match d { Decl::Defined(faerie::artifact::DefinedDecl::Function(_)) => Some(ImportKind::Function), Decl::Defined(faerie::artifact::DefinedDecl::Data(_)) => Some(ImportKind::Data), _ => None };
    let mix = r.chance(4);
    let mut per: Vec<Vec<Op>> = vec![];
    for (i, (n, d, b)) in all.iter().enumerate() {
        let mut v = vec![];
        if let (Some(k), true) = (imported(d), r.chance(5)) { v.push(Op::Import(n.clone(), k)) }
        v.push(Op::Declare(n.clone(), *d));
        if mix { match imported(d) { Some(k) if r.chance(6) => v.push(Op::Import(n.clone(), k)), _ => if r.chance(8) { v.push(Op::Declare(n.clone(), *d)) } } }
        if let Some(b) = b { v.push(Op::Define(n.clone(), b.clone(), syms[i].clone())) }
        if mix { match imported(d) { Some(k) if r.chance(8) => v.push(Op::Import(n.clone(), k)), _ => {} } }
        per.push(v);
    }
    let is_sect = |d: &Decl| matches!(d, Decl::Defined(faerie::artifact::DefinedDecl::Section(_)));
    let mut links: Vec<(usize, usize, Op)> = vec![];
    let nlinks = match r.below(4) { 0 => 0, 1 => 1, _ if r.chance(100) => r.below(1000), _ if n > 30 => r.below(3 * n), _ => r.below(8) };
    let hub = if r.chance(4) { Some(r.below(all.len().max(1))) } else { None };
    if !all.is_empty() { for _ in 0..nlinks {
        if !links.is_empty() && r.chance(8) { let l = r.pick(&links).clone(); links.push(l); continue }
        let (fi, ti) = (match hub { Some(h) if !r.chance(4) => h, _ => r.below(all.len()) }, match hub { Some(h) if r.chance(3) => h, _ => r.below(all.len()) });
        let (f, fd, fb) = all[fi].clone();
        let (t, td, _) = all[ti].clone();
        if fd.is_import() { continue }
        if macho && (is_sect(&td) || matches!(fb, Some(Bytes::Zero(_)))) { continue }
        let at = match r.below(6) { 0 => if !macho && r.chance(2) { let b = if is32 { 32 } else { 64 }; edge(r, b) } else if r.chance(3) { edge(r, 30) & 0x3fff_ffff } else { r.below(5000) as u64 }, _ => r.below(12) as u64 };
        let big = |r: &mut Rng| match r.below(6) { 0 => r.next() as i32, 1 => *r.pick(&[i32::MIN, i32::MAX, -1, 0x7fff, 0x8000, -0x8000, -0x8001, 0xffff, 127, 128, -128, -129]), _ => r.below(200) as i32 - 100 };
        let rt = |r: &mut Rng| if !is32 && r.chance(6) { edge(r, 32) as u32 } else { r.below(256) as u32 };
        let rel = if macho {
            if is_sect(&fd) { Reloc::Debug { size: if r.chance(2) { 4 } else { 8 }, addend: 0 } } else if r.chance(4) { Reloc::Raw { reloc: r.below(16) as u32, addend: 0 } } else { Reloc::Auto }
        } else if is_sect(&fd) || is_sect(&td) && !matches!(fd, Decl::Defined(faerie::artifact::DefinedDecl::Data(_))) {
            if r.chance(3) { Reloc::Raw { reloc: rt(r), addend: big(r) } } else { Reloc::Debug { size: if r.chance(2) { 4 } else { 8 }, addend: big(r) } }
        } else { match r.below(6) { 0 => Reloc::Raw { reloc: rt(r), addend: big(r) }, 1 => Reloc::Debug { size: if r.chance(2) { 4 } else { 8 }, addend: big(r) }, _ => Reloc::Auto } };
        links.push((fi, ti, Op::Link(f, t, at, rel)));
    } }
    if !mix {
        let decls = |v: &Op| !matches!(v, Op::Define(..));
        for v in &per { if v.len() > 1 && decls(&v[0]) && decls(&v[1]) { c.ops.push(v[0].clone()) } }
        for v in &per { c.ops.push(v.iter().filter(|o| decls(o)).last().unwrap().clone()) }
        let mut defs: Vec<Op> = per.iter().filter_map(|v| v.iter().find(|o| !decls(o)).cloned()).collect();
        for i in (1..defs.len()).rev() { let j = r.below(i + 1); defs.swap(i, j) }
        c.ops.extend(defs);
        let emits = r.chance(12);
        if emits { c.ops.push(Op::Emit) }
        for (k, l) in links.into_iter().enumerate() { c.ops.push(l.2); if emits && k < 4 { c.ops.push(Op::Emit) } }
        return;
    }
    let mut at = vec![0; per.len()];
    let ready = |at: &[usize], l: &(usize, usize, Op)| at[l.1] > 0 && at[l.0] > per[l.0].iter().position(|o| matches!(o, Op::Declare(..))).unwrap();
    let mut todo: std::collections::VecDeque<_> = links.into();
    loop {
        let open: Vec<usize> = (0..per.len()).filter(|i| at[*i] < per[*i].len()).collect();
        if open.is_empty() && todo.is_empty() { break }
        if !todo.is_empty() && (open.is_empty() || r.chance(2)) && ready(&at, &todo[0]) { c.ops.push(todo.pop_front().unwrap().2); continue }
        if open.is_empty() { continue }
        let i = *r.pick(&open);
        c.ops.push(per[i][at[i]].clone());
        at[i] += 1;
        if n < 30 && r.chance(25) { c.ops.push(Op::Emit) }
    }
}
