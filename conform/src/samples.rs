//! sampled: the same comparisons on drawn values, plus the contracts Kani does not reach (containers, cursor, strings)
use crate::b::*;
use crate::gen;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Cursor, Seek, SeekFrom, Write};
use goblin::container::{Container, Ctx, Endian};

thread_local!(static S: Cell<u64> = Cell::new(0x9e37_79b9_7f4a_7c15));
pub fn rnd() -> u64 { S.with(|s| { let mut x = s.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.set(x); x.wrapping_mul(0x2545_f491_4f6c_dd1d) }) }
fn word() -> u64 { let r = rnd(); match r % 6 { 0 => 0, 1 => 1u64 << (rnd() % 64), 2 => (1u64 << (rnd() % 64)) - 1, 3 => !0 >> (rnd() % 64), _ => rnd() >> (rnd() % 64) } }
pub trait Any { fn any() -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl Any for $t { fn any() -> $t { word() as $t } })* } }
ints!(u8 u16 u32 u64 usize i32 i64);
impl Any for [u8; 16] { fn any() -> [u8; 16] { let mut a = [0; 16]; for x in a.iter_mut() { *x = rnd() as u8 } if rnd() % 2 == 0 { let c = ctxs()[(rnd() % 4) as usize]; a = gen::ident(c) } a } }
impl<T: Any> Any for Option<T> { fn any() -> Option<T> { if rnd() % 2 == 0 { None } else { Some(T::any()) } } }
pub fn any<T: Any>() -> T { T::any() }
fn ctxs() -> [Ctx; 4] { let c = |container, le| Ctx { container, le }; [c(Container::Big, Endian::Little), c(Container::Big, Endian::Big), c(Container::Little, Endian::Little), c(Container::Little, Endian::Big)] }

fn put(d: &[u8], p: usize, b: &[u8]) -> Vec<u8> { let mut d = d.to_vec(); if p + b.len() > d.len() { d.resize(p + b.len(), 0) } d[p..p + b.len()].copy_from_slice(b); d }
fn find<V>(s: &[(String, V)], k: &str) -> usize { s.iter().position(|x| x.0 == k).unwrap_or(s.len()) }
fn put_kv<V: Clone>(s: &[(String, V)], k: &str, v: V) -> Vec<(String, V)> { let mut t = s.to_vec(); let i = find(s, k); if i < s.len() { t[i].1 = v } else { t.push((k.into(), v)) } t }
fn key() -> String { let k = ["", "a", "b", "ab", "é", "aé", "z\u{10ffff}", "."]; k[(rnd() % 8) as usize].to_string() + &"q".repeat((rnd() % 3) as usize) }

/// constructors and sizes: all four contexts
fn constructors() {
    for c in ctxs() {
        let h = goblin::elf::header::Header::new(c);
        let z = |big: u16, small: u16| if c.is_big() { big } else { small };
        assert!(h == goblin::elf::header::Header { e_ident: gen::ident(c), e_type: goblin::elf::header::ET_DYN, e_machine: 0, e_version: 1, e_entry: 0, e_phoff: 0, e_shoff: 0, e_flags: 0, e_ehsize: gen::ehsize(c) as u16, e_phentsize: z(56, 32), e_phnum: 0, e_shentsize: z(64, 40), e_shnum: 0, e_shstrndx: 0 });
        assert_eq!(goblin::elf::header::Header::size(c) as i128, gen::ehsize(c));
        assert_eq!(goblin::elf::sym::Sym::size(c.container) as i128, gen::symsize(c.container));
        assert_eq!(goblin::elf::section_header::SectionHeader::size(c) as i128, gen::shdrsize(c));
        for r in [true, false] { assert_eq!(goblin::elf::reloc::Reloc::size(r, c) as i128, gen::relsize(r, c)) }
        let m = goblin::mach::header::Header::new(c);
        assert!(m.magic == if c.is_big() { 0xfeed_facf } else { 0xfeed_face } && m.cputype == 0 && m.cpusubtype == 0 && m.filetype == 0 && m.ncmds == 0 && m.sizeofcmds == 0 && m.flags == 0 && m.reserved == 0);
        use scroll::ctx::SizeWith;
        assert_eq!(goblin::mach::header::Header::size_with(&c) as i128, gen::mhsize(c.container));
        assert_eq!(goblin::mach::header::Header::size_with(&c.container) as i128, gen::mhsize(c.container));
        assert_eq!(goblin::mach::segment::Section::size_with(&c) as i128, gen::msectsize(c.container));
        assert_eq!(goblin::mach::segment::Segment::size_with(&c) as i128, gen::msegsize(c.container));
        assert_eq!(goblin::mach::symbols::Nlist::size_with(&c) as i128, gen::nlsize(c.container));
        for n in 0..200 {
            let v = vec![7u8; n * 17];
            let s = goblin::mach::segment::Segment::new(c, &v);
            assert!(s.cmd == if c.is_big() { 0x19 } else { 1 } && s.cmdsize as usize == gen::msegsize(c.container) as usize + v.len() && s.segname == [0; 16] && s.vmaddr == 0 && s.vmsize == 0 && s.fileoff == 0 && s.filesize == 0 && s.maxprot == 0 && s.initprot == 0 && s.nsects == 0 && s.flags == 0);
        }
    }
    let c = Ctx::default();
    assert!(c.is_big() && c.le == Endian::Little && c.size() == 8);
    let s = goblin::mach::load_command::SymtabCommand::new();
    assert!(s.cmd == 2 && s.cmdsize == 24 && s.symoff == 0 && s.nsyms == 0 && s.stroff == 0 && s.strsize == 0);
    let s = goblin::elf::sym::Sym::default();
    assert!(s.st_name == 0 && s.st_info == 0 && s.st_other == 0 && s.st_shndx == 0 && s.st_value == 0 && s.st_size == 0);
    assert!(goblin::elf::section_header::SectionHeader::default() == goblin::elf::section_header::SectionHeader { sh_name: 0, sh_type: 0, sh_flags: 0, sh_addr: 0, sh_offset: 0, sh_size: 0, sh_link: 0, sh_info: 0, sh_addralign: 0, sh_entsize: 0 });
}
fn cursor() {
    use scroll::IOwrite;
    let mut d: Vec<u8> = vec![];
    let mut p = 0usize;
    let mut c = Cursor::new(vec![]);
    for _ in 0..30 {
        let n = (rnd() % 9) as usize;
        let b: Vec<u8> = (0..n).map(|_| rnd() as u8).collect();
        match rnd() % 5 {
            0 => { c.write_all(&b).unwrap(); d = put2(&d, p, &b); p += n }
            1 => { let x = rnd() as u8; c.iowrite(x).unwrap(); d = put2(&d, p, &[x]); p += 1 }
            2 => { let x = rnd() as u32; let e = if rnd() % 2 == 0 { Endian::Little } else { Endian::Big }; c.iowrite_with(x, e).unwrap(); let f = fld(x as i128, 4, e); d = put2(&d, p, &f.a[..4]); p += 4 }
            3 => { let k = rnd() % 60; assert_eq!(c.seek(SeekFrom::Start(k)).unwrap(), k); p = k as usize }
            _ => assert_eq!(c.seek(SeekFrom::Current(0)).unwrap(), p as u64),
        }
        assert_eq!(c.get_ref(), &d);
    }
    assert_eq!(c.into_inner(), d);
}
/// prelude.rs `put`: nothing is padded when nothing is written past the end
fn put2(d: &[u8], p: usize, b: &[u8]) -> Vec<u8> { if p > d.len() && b.is_empty() { let mut d = d.to_vec(); d.resize(p, 0); return d } put(d, p, b) }
fn strings() {
    use scroll::Pwrite;
    let s: String = (0..rnd() % 12).map(|_| ['a', 'é', '\0', '\u{10ffff}', '.', '_'][(rnd() % 6) as usize]).collect();
    let t = key();
    assert_eq!(s.len(), s.as_bytes().len());
    assert_eq!(s.starts_with(&t[..]), s.chars().collect::<Vec<_>>().starts_with(&t.chars().collect::<Vec<_>>()));
    assert_eq!(s.ends_with(&t[..]), s.chars().collect::<Vec<_>>().ends_with(&t.chars().collect::<Vec<_>>()));
    let mut a = [0xa5u8; 16];
    let off = (rnd() % 4) as usize;
    let r = a.pwrite(&s[..], off);
    assert_eq!(r.is_ok(), off + s.len() <= 16);
    if r.is_ok() { assert_eq!(a.to_vec(), put(&[0xa5; 16], off, s.as_bytes())) }
    let mut v = vec![0xa5u8; (rnd() % 12) as usize];
    let w = v.clone();
    let mut o = (rnd() % 9) as usize;
    let (x, o0) = (rnd() as u32, o);
    let e = if rnd() % 2 == 0 { Endian::Little } else { Endian::Big };
    let r = v.gwrite_with(x, &mut o, e);
    assert_eq!(r.is_ok(), o0 + 4 <= w.len());
    if r.is_ok() { assert_eq!(v, put(&w, o0, &fld(x as i128, 4, e).a[..4])); assert_eq!(o, o0 + 4) } else { assert_eq!(v, w) }
}
fn maps() {
    let mut m: indexmap::IndexMap<String, u32> = indexmap::IndexMap::new();
    let mut s: Vec<(String, u32)> = vec![];
    let (mut hm, mut hs): (HashMap<String, u32>, Vec<(String, u32)>) = (HashMap::new(), vec![]);
    let (mut bm, mut bs): (BTreeMap<String, u32>, BTreeSet<String>) = (BTreeMap::new(), BTreeSet::new());
    for _ in 0..40 {
        let (k, v) = (key(), rnd() as u32);
        let i = find(&s, &k);
        let has = i < s.len();
        match rnd() % 8 {
            0 | 1 => { let r = m.insert(k.clone(), v); assert_eq!(r, if has { Some(s[i].1) } else { None }); s = put_kv(&s, &k, v) }
            2 => match m.entry(k.clone()) {
                indexmap::map::Entry::Occupied(mut o) => { assert!(has && *o.get() == s[i].1); *o.get_mut() = v; s = put_kv(&s, &k, v) }
                indexmap::map::Entry::Vacant(e) => { assert!(!has); if rnd() % 2 == 0 { *e.insert(0) = v; s = put_kv(&s, &k, v) } }
            },
            3 => { *m.entry(k.clone()).or_insert(v) += 0; if !has { s = put_kv(&s, &k, v) } }
            4 => { assert_eq!(m.get_mut(&k).map(|x| { *x = v; 1 }), if has { Some(1) } else { None }); if has { s = put_kv(&s, &k, v) } }
            5 => { assert_eq!(m.get_full(&k).map(|x| (x.0, x.1.clone(), *x.2)), if has { Some((i, k.clone(), s[i].1)) } else { None }) }
            6 => { let j = (rnd() % 12) as usize; assert_eq!(m.get_index(j).map(|x| (x.0.clone(), *x.1)), s.get(j).cloned()); if let Some((_, x)) = m.get_index_mut(j) { *x = v; s[j].1 = v } }
            _ => if has { m[&k] = v; s[i].1 = v; assert_eq!(m[&k], v) },
        }
        assert_eq!(m.len(), s.len());
        assert_eq!(m.is_empty(), s.is_empty());
        assert_eq!(m.get(&k).cloned(), s.get(find(&s, &k)).map(|x| x.1));
        assert_eq!(m.contains_key(&k), find(&s, &k) < s.len());
        assert!(m.iter().map(|x| (x.0.clone(), *x.1)).eq(s.iter().cloned()));
        assert!(m.values().eq(s.iter().map(|x| &x.1)));
        match hm.entry(k.clone()) { std::collections::hash_map::Entry::Occupied(o) => assert_eq!(Some(o.get()), hs.get(find(&hs, &k)).map(|x| &x.1)), std::collections::hash_map::Entry::Vacant(e) => { assert_eq!(find(&hs, &k), hs.len()); e.insert(v); hs = put_kv(&hs, &k, v) } }
        assert_eq!(hm.get(&k).cloned(), hs.get(find(&hs, &k)).map(|x| x.1));
        bm.insert(k.clone(), v);
        let had = bs.contains(&k);
        assert_eq!(bs.insert(k.clone()), !had);
    }
    assert!(m.clone().into_iter().eq(s.iter().cloned()));
    assert!(m.drain(..).eq(s.iter().cloned()) && m.is_empty());
    // ordered collections iterate in strictly increasing order (the order of code points)
    let ks: Vec<Vec<char>> = bm.keys().map(|k| k.chars().collect()).collect();
    assert!(ks.windows(2).all(|w| w[0] < w[1]));
    let ks: Vec<Vec<char>> = bs.iter().map(|k| k.chars().collect()).collect();
    assert!(ks.windows(2).all(|w| w[0] < w[1]) && ks.len() == bs.len());
}
fn interner() {
    let mut it: string_interner::StringInterner<usize> = string_interner::StringInterner::new();
    let mut s: Vec<String> = vec![];
    for _ in 0..40 {
        let k = key();
        let i = s.iter().position(|x| *x == k).unwrap_or(s.len());
        match rnd() % 4 {
            0 => assert_eq!(it.get(&k), if i < s.len() { Some(i) } else { None }),
            1 => { let j = (rnd() % 20) as usize; assert_eq!(it.resolve(j), s.get(j).map(|x| &x[..])) }
            _ => { assert_eq!(it.get_or_intern(k.clone()), i); if i == s.len() { s.push(k) } }
        }
        assert_eq!(it.len(), s.len());
        assert!((&it).into_iter().map(|(i, x)| (i, x.to_string())).eq(s.iter().cloned().enumerate()));
    }
}
pub fn main() {
    constructors();
    let mut n = 0u64;
    for _ in 0..2000 {
        for (_, h) in gen::HARNESSES { h(); n += 1 }
        cursor();
        strings();
        maps();
        interner();
    }
    println!("{{\"constants\":{},\"encodings_sampled\":{},\"container_histories\":{}}}", gen::CONSTANTS, n, 2000 * 4);
}
