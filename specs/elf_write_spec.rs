pub mod elf_write_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::elf::*;
use crate::elf_spec::*;
use crate::target_spec::*;
use crate::seq_spec::*;
use crate::goblin::container::{Ctx, Endian};
use crate::goblin::elf::header::{Header, ident};
use crate::goblin::elf::sym::*;
use crate::goblin::elf::section_header::*;
use crate::scroll::enc_u32;
// The bytes that Elf::write makes of an Elf.
pub open spec fn wsz(c: Ctx) -> int { if c.big() { 8 } else { 4 } }
pub open spec fn ehdr(c: Ctx, machine: u16, shoff: u64, shnum: u16) -> Header {
    Header { e_ident: ident(c), e_type: 1, e_machine: machine, e_version: 1, e_entry: 0, e_phoff: 0, e_shoff: shoff, e_flags: 0, e_ehsize: ehsize(c) as u16, e_phentsize: if c.big() { 56 } else { 32 }, e_phnum: 0, e_shentsize: if c.big() { 64 } else { 40 }, e_shnum: shnum, e_shstrndx: 1 }
}
/// the escape value for large section indices
pub open spec fn esc(y: Sym) -> Sym { if y.st_shndx >= 0xff00 { Sym { st_shndx: 0xffff, ..y } } else { y } }
/// a symbol, and whether its section index is one
pub open spec fn vsym(x: (Sym, bool)) -> Sym { if x.1 { esc(x.0) } else { x.0 } }
pub open spec fn fsym(c: Ctx) -> spec_fn((Sym, bool)) -> Seq<u8> { |x: (Sym, bool)| enc_sym(vsym(x), c) }
pub open spec fn fxi(c: Ctx) -> spec_fn((Sym, bool)) -> Seq<u8> { |x: (Sym, bool)| enc_u32(x.0.st_shndx as u32, c.le) }
pub open spec fn frel(c: Ctx) -> spec_fn(GReloc) -> Seq<u8> { |r: GReloc| enc_reloc(r, (true, c)) }
pub open spec fn frels(c: Ctx) -> spec_fn((usize, (SectionHeader, Vec<GReloc>))) -> Seq<u8> { |x: (usize, (SectionHeader, Vec<GReloc>))| cat(x.1.1@, frel(c)) }
pub open spec fn fshdr(c: Ctx) -> spec_fn(SectionHeader) -> Seq<u8> { |h: SectionHeader| enc_shdr(h, c) }

pub open spec fn needx<'a>(e: &Elf<'a>) -> bool { e.nsections >= 0xff00 }
pub open spec fn nsec1<'a>(e: &Elf<'a>) -> int { e.nsections + (if needx(e) { 1int } else { 0 }) }
pub open spec fn strs1<'a>(e: &Elf<'a>) -> Seq<Seq<char>> { intern(if needx(e) { intern(e.strings@, ".symtab_shndx"@) } else { e.strings@ }, ".note.GNU-stack"@) }
pub open spec fn noff(s: Seq<Seq<char>>, n: Seq<char>) -> usize { stroff(s, sfind(s, n)) as usize }
pub open spec fn secsyms<'a>(e: &Elf<'a>) -> Seq<(Sym, bool)> { Seq::new(e.sections@.len(), |i: int| (e.sections@[i].1.symbol, true)) }
pub open spec fn namsyms<'a>(e: &Elf<'a>) -> Seq<(Sym, bool)> { Seq::new(e.symbols@.len(), |i: int| (e.symbols@[i].1, true)) }
pub open spec fn spcsyms<'a>(e: &Elf<'a>) -> Seq<(Sym, bool)> { Seq::new(e.special_symbols@.len(), |i: int| (e.special_symbols@[i], false)) }
pub open spec fn allsyms<'a>(e: &Elf<'a>) -> Seq<(Sym, bool)> { spcsyms(e) + secsyms(e) + namsyms(e) }
pub open spec fn nsyms<'a>(e: &Elf<'a>) -> int { (e.special_symbols@.len() + e.sections@.len() + e.symbols@.len()) as int }
pub open spec fn allrels<'a>(e: &Elf<'a>) -> Seq<u8> { cat(e.relocations@, frels(e.ctx)) }

pub open spec fn o_str<'a>(e: &Elf<'a>) -> int { ehsize(e.ctx) + cat(e.code@, fcode()).len() }
pub open spec fn z_str<'a>(e: &Elf<'a>) -> int { strtab(strs1(e)).len() as int }
pub open spec fn o_sym<'a>(e: &Elf<'a>) -> int { up(o_str(e) + z_str(e), wsz(e.ctx)) }
pub open spec fn z_sym<'a>(e: &Elf<'a>) -> int { if e.ctx.big() { 24 * nsyms(e) } else { 16 * nsyms(e) } }
pub open spec fn o_shx<'a>(e: &Elf<'a>) -> int { if needx(e) { up(o_sym(e) + z_sym(e), 4) } else { o_sym(e) + z_sym(e) } }
pub open spec fn z_shx<'a>(e: &Elf<'a>) -> int { if needx(e) { 4 * nsyms(e) } else { 0 } }
pub open spec fn o_rel<'a>(e: &Elf<'a>) -> int { up(o_shx(e) + z_shx(e), wsz(e.ctx)) }
pub open spec fn o_sh<'a>(e: &Elf<'a>) -> int { up(o_rel(e) + allrels(e).len(), wsz(e.ctx)) }

pub open spec fn strhdr<'a>(e: &Elf<'a>) -> SectionHeader { SectionHeader { sh_name: noff(strs1(e), ".strtab"@), sh_type: 3, sh_offset: o_str(e) as u64, sh_size: z_str(e) as u64, sh_addralign: 1, ..shdr0() } }
pub open spec fn symhdr<'a>(e: &Elf<'a>) -> SectionHeader { SectionHeader { sh_name: noff(strs1(e), ".symtab"@), sh_type: 2, sh_offset: o_sym(e) as u64, sh_size: z_sym(e) as u64, sh_link: 1, sh_info: (2 + e.sections@.len() + e.nlocals) as u32, sh_addralign: 8, sh_entsize: symsize(e.ctx.container) as u64, ..shdr0() } }
pub open spec fn shxhdr<'a>(e: &Elf<'a>) -> SectionHeader { SectionHeader { sh_name: noff(strs1(e), ".symtab_shndx"@), sh_type: 18, sh_offset: o_shx(e) as u64, sh_size: z_shx(e) as u64, sh_link: 2, sh_addralign: 4, sh_entsize: 4, ..shdr0() } }
pub open spec fn notehdr<'a>(e: &Elf<'a>) -> SectionHeader { SectionHeader { sh_name: noff(strs1(e), ".note.GNU-stack"@), sh_type: 1, sh_addralign: 1, ..shdr0() } }
pub open spec fn nullhdr<'a>(e: &Elf<'a>) -> SectionHeader { SectionHeader { sh_size: if needx(e) { nsec1(e) as u64 } else { 0 }, ..shdr0() } }
pub open spec fn relhdr<'a>(e: &Elf<'a>, i: int) -> SectionHeader { SectionHeader { sh_offset: (o_rel(e) + catoff(e.relocations@, frels(e.ctx), i)) as u64, ..e.relocations@[i].1.0 } }
pub open spec fn h3<'a>(e: &Elf<'a>) -> Seq<SectionHeader> { seq![nullhdr(e), strhdr(e), symhdr(e)] }
pub open spec fn hsec<'a>(e: &Elf<'a>) -> Seq<SectionHeader> { Seq::new(e.sections@.len(), |i: int| e.sections@[i].1.header) }
pub open spec fn hshx<'a>(e: &Elf<'a>) -> Seq<SectionHeader> { if needx(e) { seq![shxhdr(e)] } else { Seq::empty() } }
pub open spec fn hrel<'a>(e: &Elf<'a>) -> Seq<SectionHeader> { Seq::new(e.relocations@.len(), |i: int| relhdr(e, i)) }
pub open spec fn shdrs<'a>(e: &Elf<'a>) -> Seq<SectionHeader> { h3(e) + hsec(e) + hshx(e) + hrel(e) + seq![notehdr(e)] }
pub open spec fn mhdr<'a>(e: &Elf<'a>) -> Header { ehdr(e.ctx, elf_machine(e.architecture)->Some_0 as u16, o_sh(e) as u64, if nsec1(e) >= 0xff00 { 0 } else { nsec1(e) as u16 }) }

pub open spec fn im1<'a>(e: &Elf<'a>) -> Seq<u8> { enc_header(mhdr(e), e.ctx) + cat(e.code@, fcode()) }
pub open spec fn im2<'a>(e: &Elf<'a>) -> Seq<u8> { im1(e) + strtab(strs1(e)) }
pub open spec fn im3<'a>(e: &Elf<'a>) -> Seq<u8> { app(im2(e), o_sym(e), cat(allsyms(e), fsym(e.ctx))) }
pub open spec fn im4<'a>(e: &Elf<'a>) -> Seq<u8> { if needx(e) { app(im3(e), o_shx(e), cat(allsyms(e), fxi(e.ctx))) } else { im3(e) } }
pub open spec fn im5<'a>(e: &Elf<'a>) -> Seq<u8> { app(im4(e), o_rel(e), allrels(e)) }
/// the whole file
pub open spec fn image<'a>(e: &Elf<'a>) -> Seq<u8> { app(im5(e), o_sh(e), cat(shdrs(e), fshdr(e.ctx))) }

/// every encoded structure can hold its values
pub open spec fn fits_all<'a>(e: &Elf<'a>) -> bool {
    &&& forall|i: int| 0 <= i < nsyms(e) ==> sym_fits(#[trigger] allsyms(e)[i], e.ctx)
    &&& forall|i: int| 0 <= i < e.sections@.len() ==> shdr_fits((#[trigger] e.sections@[i]).1.header, e.ctx)
    &&& forall|i: int, j: int| 0 <= i < e.relocations@.len() && 0 <= j < e.relocations@[i].1.1@.len() ==> rel_fits(#[trigger] e.relocations@[i].1.1@[j], e.ctx)
}
pub open spec fn sym_fits(x: (Sym, bool), c: Ctx) -> bool { x.0.st_name < lim() && (x.1 || x.0.st_shndx < 0x1_0000) && (c.big() || (x.0.st_value < lim() && x.0.st_size < lim())) }
pub open spec fn shdr_fits(h: SectionHeader, c: Ctx) -> bool { h.sh_name < lim() && (c.big() || (h.sh_flags < lim() && h.sh_addr < lim() && h.sh_offset < lim() && h.sh_size < lim() && h.sh_addralign < lim() && h.sh_entsize < lim())) }
pub open spec fn rel_fits(r: GReloc, c: Ctx) -> bool { r.r_addend is Some && (if c.big() { r.r_sym < lim() } else { r.r_offset < lim() && r.r_sym < 0x100_0000 && r.r_type < 0x100 && -0x8000_0000 <= r.r_addend->Some_0 < 0x8000_0000 }) }
/// how large a file may be
pub open spec fn cap(c: Ctx) -> int { if c.big() { 0x1000_0000_0000_0000 } else { 0x1_0000_0000 } }
pub open spec fn writable<'a>(e: &Elf<'a>) -> bool {
    &&& e.wf() && elf_machine(e.architecture) is Some && fits_all(e) && e.sizeof_bits as int == o_str(e)
    &&& e.sizeof_strtab + utf8(".symtab_shndx"@).len() + utf8(".note.GNU-stack"@).len() + 2 < lim()
    &&& o_sh(e) + 64 * (nsec1(e) + 1) < cap(e.ctx) && nsyms(e) < 0x8000_0000 && e.sections@.len() + e.relocations@.len() < 0x7fff_0000
}

// ---------------------------------------------------------------- writing item after item
pub proof fn app_next<A>(d: Seq<u8>, p: int, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int)
    requires p >= d.len(), 0 <= k < s.len(), f(s[k]).len() > 0,
    ensures put(app(d, p, cat(s.take(k), f)), p + catoff(s, f, k), f(s[k])) == app(d, p, cat(s.take(k + 1), f)), catoff(s, f, k + 1) == catoff(s, f, k) + f(s[k]).len(),
{
    cat_take(s, k, f);
    app_step(d, p, cat(s.take(k), f), f(s[k]));
}
/// the n first symbols are written
#[verifier::opaque]
pub open spec fn sym_at<'a>(e: &Elf<'a>, n: int, d: Seq<u8>, p: int, x: Seq<u8>, off: int) -> bool {
    &&& d == app(im2(e), o_sym(e), cat(allsyms(e).take(n), fsym(e.ctx)))
    &&& p == o_sym(e) + symsize(e.ctx.container) * n
    &&& needx(e) ==> off == 4 * n && x == cat(allsyms(e).take(n), fxi(e.ctx)) + zeros(4 * (nsyms(e) - n))
    &&& !needx(e) ==> x.len() == 0
}
pub proof fn sym_first<'a>(e: &Elf<'a>, x: Seq<u8>)
    requires if needx(e) { x =~= zeros(4 * nsyms(e)) } else { x.len() == 0 },
    ensures sym_at(e, 0, im2(e), o_sym(e), x, 0),
{
    reveal(sym_at);
    cat_all(allsyms(e), fsym(e.ctx));
    cat_all(allsyms(e), fxi(e.ctx));
    if needx(e) { assert(x =~= cat(allsyms(e).take(0), fxi(e.ctx)) + zeros(4 * (nsyms(e) - 0))); }
}
pub proof fn sym_next<'a>(e: &Elf<'a>, n: int, d: Seq<u8>, p: int, x: Seq<u8>, off: int)
    requires sym_at(e, n, d, p, x, off), 0 <= n < nsyms(e), o_sym(e) >= im2(e).len(),
    ensures
        needx(e) ==> 0 <= off && off + 4 <= x.len() && off == 4 * n,
        sym_at(e, n + 1, put(d, p, enc_sym(vsym(allsyms(e)[n]), e.ctx)), p + symsize(e.ctx.container), if needx(e) { put(x, off, enc_u32(allsyms(e)[n].0.st_shndx as u32, e.ctx.le)) } else { x }, if needx(e) { off + 4 } else { off }),
{
    reveal(sym_at);
    broadcast use {enc_sym_len, crate::scroll::enc_u32_len};
    let s = allsyms(e);
    let f = fsym(e.ctx);
    let g = fxi(e.ctx);
    let w = symsize(e.ctx.container);
    assert(s.len() == nsyms(e));
    cat_width_off(s, f, w, n);
    cat_width_off(s, g, 4, n);
    app_next(im2(e), o_sym(e), s, f, n);
    assert(w * (n + 1) == w * n + w) by (nonlinear_arith);
    if needx(e) {
        cat_take(s, n, g);
        assert(put(x, off, g(s[n])) =~= cat(s.take(n + 1), g) + zeros(4 * (nsyms(e) - (n + 1))));
    }
}
pub proof fn sym_last<'a>(e: &Elf<'a>, d: Seq<u8>, p: int, x: Seq<u8>, off: int)
    requires sym_at(e, nsyms(e), d, p, x, off),
    ensures d == im3(e), p == o_sym(e) + z_sym(e), needx(e) ==> x == cat(allsyms(e), fxi(e.ctx)) && x.len() == z_shx(e),
{
    reveal(sym_at);
    broadcast use crate::scroll::enc_u32_len;
    let s = allsyms(e);
    assert(s.len() == nsyms(e));
    cat_all(s, fsym(e.ctx));
    cat_all(s, fxi(e.ctx));
    cat_width(s, fxi(e.ctx), 4);
    if needx(e) { assert(x =~= cat(s, fxi(e.ctx))); }
}
/// where everything is
pub proof fn places<'a>(e: &Elf<'a>)
    ensures
        im1(e).len() == o_str(e), im2(e).len() == o_str(e) + z_str(e), z_str(e) > 0,
        o_sym(e) >= im2(e).len(), o_sym(e) % wsz(e.ctx) == 0, o_sym(e) < im2(e).len() + 8,
        nsyms(e) > 0 ==> im3(e).len() == o_sym(e) + z_sym(e), o_shx(e) >= o_sym(e) + z_sym(e), o_shx(e) < o_sym(e) + z_sym(e) + 4,
        nsyms(e) > 0 ==> im4(e).len() == o_shx(e) + z_shx(e),
        o_rel(e) >= o_shx(e) + z_shx(e), o_rel(e) % wsz(e.ctx) == 0, o_rel(e) < o_shx(e) + z_shx(e) + 8,
        nsyms(e) > 0 ==> o_rel(e) >= im5(e).len() || im5(e).len() == o_rel(e) + allrels(e).len(),
        o_sh(e) >= o_rel(e) + allrels(e).len(), o_sh(e) % wsz(e.ctx) == 0, o_sh(e) < o_rel(e) + allrels(e).len() + 8,
        nsyms(e) > 0 ==> image(e).len() == o_sh(e) + (if e.ctx.big() { 64int } else { 40 }) * shdrs(e).len(),
        shdrs(e).len() == 4 + e.sections@.len() + (if needx(e) { 1int } else { 0 }) + e.relocations@.len(), o_shx(e) % 4 == 0 || !needx(e),
{
    broadcast use {enc_sym_len, crate::scroll::enc_u32_len, crate::goblin::elf::header::enc_header_len, enc_shdr_len, up_lemma};
    let s = allsyms(e);
    assert(s.len() == nsyms(e));
    strtab_ends(strs1(e));
    cat_width(s, fsym(e.ctx), symsize(e.ctx.container));
    cat_width(s, fxi(e.ctx), 4);
    cat_width(shdrs(e), fshdr(e.ctx), shdrsize(e.ctx));
}
/// relocations: what the size of a group is
pub proof fn rel_sizes<'a>(e: &Elf<'a>, k: int)
    requires e.wf(), 0 <= k < e.relocations@.len(),
    ensures frels(e.ctx)(e.relocations@[k]).len() == relsize(true, e.ctx) * e.relocations@[k].1.1@.len(), e.relocations@[k].1.0.sh_size as int == frels(e.ctx)(e.relocations@[k]).len(),
        catoff(e.relocations@, frels(e.ctx), k + 1) == catoff(e.relocations@, frels(e.ctx), k) + e.relocations@[k].1.0.sh_size, catoff(e.relocations@, frels(e.ctx), k + 1) <= allrels(e).len(),
        relsize(true, e.ctx) * e.relocations@[k].1.1@.len() >= e.relocations@[k].1.1@.len(),
{
    broadcast use crate::goblin::elf::reloc::enc_reloc_len;
    let c = e.ctx;
    cat_width(e.relocations@[k].1.1@, frel(c), relsize(true, c));
    cat_take(e.relocations@, k, frels(c));
    cat_mono(e.relocations@, frels(c), k + 1, e.relocations@.len() as int);
    assert(relsize(true, e.ctx) * e.relocations@[k].1.1@.len() >= e.relocations@[k].1.1@.len()) by (nonlinear_arith) requires relsize(true, e.ctx) >= 1;
}

pub proof fn two_puts(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures put(put(d, d.len() as int, a), (d.len() + a.len()) as int, b) == d + (a + b),
{
    put_end(d, a);
    put_end(d + a, b);
    assert(d + a + b =~= d + (a + b));
}
/// the headers of the string and symbol tables
pub proof fn table_names<'a>(e: &Elf<'a>, s: Seq<Seq<char>>, o: Map<usize, usize>, z: int)
    requires e.wf(), s == strs1(e), str_wf(s, o, z), nodup(s),
    ensures o.contains_key(0), o.contains_key(1), o[0] == noff(s, ".strtab"@), o[1] == noff(s, ".symtab"@), z == z_str(e),
{
    lits();
    let a = if needx(e) { intern(e.strings@, ".symtab_shndx"@) } else { e.strings@ };
    assert(e.strings@.is_prefix_of(a));
    assert(a.is_prefix_of(s));
    assert(s[0] == ".strtab"@ && s[1] == ".symtab"@);
    sfind_at(s, 0);
    sfind_at(s, 1);
    assert(o.contains_key(0usize) && o.contains_key(1usize));
    strtab_ends(s);
}

/// one more item at the end
pub proof fn cat_next<A>(d: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures ({ let x = d + cat(s.take(k), f); let y = d + cat(s.take(k + 1), f); put(x, x.len() as int, f(s[k])) == y && y.len() == x.len() + f(s[k]).len() }),
{
    cat_take(s, k, f);
    let x = d + cat(s.take(k), f);
    put_end(x, f(s[k]));
    assert(x + f(s[k]) =~= d + cat(s.take(k + 1), f));
}
pub proof fn str_next(d: Seq<u8>, s: Seq<Seq<char>>, k: int)
    requires 0 <= k < s.len(),
    ensures ({ let x = d + (seq![0u8] + cat(s.take(k), fstr())); let y = d + (seq![0u8] + cat(s.take(k + 1), fstr())); put(put(x, x.len() as int, utf8(s[k])), (x.len() + utf8(s[k]).len()) as int, seq![0u8]) == y && y.len() == x.len() + utf8(s[k]).len() + 1 }),
{
    cat_take(s, k, fstr());
    let x = d + (seq![0u8] + cat(s.take(k), fstr()));
    two_puts(x, utf8(s[k]), seq![0u8]);
    assert(x + (utf8(s[k]) + seq![0u8]) =~= d + (seq![0u8] + cat(s.take(k + 1), fstr())));
}

/// one more relocation of group k
pub proof fn rel_next<'a>(e: &Elf<'a>, k: int, j: int)
    requires 0 <= k < e.relocations@.len(), 0 <= j < e.relocations@[k].1.1@.len(), o_rel(e) >= im4(e).len(),
    ensures ({
        let c = e.ctx; let rs = e.relocations@[k].1.1@; let g = cat(e.relocations@.take(k), frels(c));
        put(app(im4(e), o_rel(e), g + cat(rs.take(j), frel(c))), o_rel(e) + catoff(e.relocations@, frels(c), k) + catoff(rs, frel(c), j), enc_reloc(rs[j], (true, c))) == app(im4(e), o_rel(e), g + cat(rs.take(j + 1), frel(c)))
        && catoff(rs, frel(c), j + 1) == catoff(rs, frel(c), j) + enc_reloc(rs[j], (true, c)).len()
    }),
{
    broadcast use crate::goblin::elf::reloc::enc_reloc_len;
    let c = e.ctx; let rs = e.relocations@[k].1.1@; let g = cat(e.relocations@.take(k), frels(c));
    cat_take(rs, j, frel(c));
    app_step(im4(e), o_rel(e), g + cat(rs.take(j), frel(c)), frel(c)(rs[j]));
    assert(g + cat(rs.take(j), frel(c)) + frel(c)(rs[j]) =~= g + cat(rs.take(j + 1), frel(c)));
}
/// the groups before the first, before a group and after a group
pub proof fn rel_group<'a>(e: &Elf<'a>, k: int)
    requires 0 <= k < e.relocations@.len(),
    ensures ({
        let c = e.ctx; let rs = e.relocations@[k].1.1@; let g = cat(e.relocations@.take(k), frels(c));
        g + cat(rs.take(0), frel(c)) == g && catoff(rs, frel(c), 0) == 0 && g + cat(rs.take(rs.len() as int), frel(c)) == cat(e.relocations@.take(k + 1), frels(c))
        && catoff(e.relocations@, frels(c), k) + catoff(rs, frel(c), rs.len() as int) == catoff(e.relocations@, frels(c), k + 1)
    }),
{
    let c = e.ctx; let rs = e.relocations@[k].1.1@; let g = cat(e.relocations@.take(k), frels(c));
    cat_all(rs, frel(c));
    cat_take(e.relocations@, k, frels(c));
    assert(g + cat(rs.take(0), frel(c)) =~= g);
}
pub proof fn name_small(s: Seq<Seq<char>>, n: Seq<char>, off: int)
    requires named(s, n, off),
    ensures off < stroff(s, s.len() as int),
{
    reveal(named);
    sfind_lemma(s, n);
    cat_take(s, sfind(s, n), fstr());
    cat_mono(s, fstr(), sfind(s, n) + 1, s.len() as int);
}
/// no section header is truncated
pub proof fn shdrs_fit<'a>(e: &Elf<'a>, i: int)
    requires writable(e), 0 <= i < shdrs(e).len(), z_str(e) < lim(), nodup(strs1(e)),
    ensures shdr_fits(shdrs(e)[i], e.ctx),
{
    places(e);
    reveal(named);
    let s = strs1(e);
    lits();
    let a = if needx(e) { intern(e.strings@, ".symtab_shndx"@) } else { e.strings@ };
    assert(e.strings@.is_prefix_of(a));
    assert(a.is_prefix_of(s));
    assert(s[0] == ".strtab"@ && s[1] == ".symtab"@);
    sfind_at(s, 0);
    sfind_at(s, 1);
    sfind_lemma(e.strings@, ".symtab_shndx"@);
    sfind_lemma(a, ".note.GNU-stack"@);
    if needx(e) { intern_in(e.strings@, ".symtab_shndx"@); sfind_grow(a, s, ".symtab_shndx"@); name_small(s, ".symtab_shndx"@, stroff(s, sfind(s, ".symtab_shndx"@))); }
    intern_in(a, ".note.GNU-stack"@);
    name_small(s, ".strtab"@, stroff(s, 0));
    name_small(s, ".symtab"@, stroff(s, 1));
    name_small(s, ".note.GNU-stack"@, stroff(s, sfind(s, ".note.GNU-stack"@)));
    strtab_ends(s);
    let n = e.sections@.len() as int;
    let x = if needx(e) { 1int } else { 0 };
    let m = e.relocations@.len() as int;
    if i >= 3 && i < 3 + n { assert(shdrs(e)[i] == e.sections@[i - 3].1.header); }
    if i >= 3 + n + x && i < 3 + n + x + m {
        let k = i - 3 - n - x;
        assert(shdrs(e)[i] == relhdr(e, k));
        rel_sizes(e, k);
        let h = e.relocations@[k].1.0;
        assert(rel_ok(e.strings@, e.sections@, e.ctx, e.relocations@[k].0, h, e.relocations@[k].1.1@.len() as int));
        name_small(e.strings@, relname(e.strings@[e.sections@[e.relocations@[k].0 - 3].0 as int]), h.sh_name as int);
    }
}
pub proof fn intern_in(s: Seq<Seq<char>>, x: Seq<char>)
    ensures sfind(intern(s, x), x) < intern(s, x).len(),
{
    sfind_lemma(intern(s, x), x);
    sfind_lemma(s, x);
    assert(intern(s, x).last() == x || sfind(s, x) < s.len());
}

pub proof fn begin_cat<A>(d: Seq<u8>, x: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>)
    requires d.len() == 0,
    ensures put(d, 0, x) == x + cat(s.take(0), f), (x + cat(s.take(0), f)).len() == x.len(),
{
    cat_all(s, f);
    assert(put(d, 0, x) =~= x + cat(s.take(0), f));
}
pub proof fn begin_str(d: Seq<u8>, s: Seq<Seq<char>>)
    ensures put(d, d.len() as int, seq![0u8]) == d + (seq![0u8] + cat(s.take(0), fstr())), (d + (seq![0u8] + cat(s.take(0), fstr()))).len() == d.len() + 1,
        d + (seq![0u8] + cat(s.take(s.len() as int), fstr())) == d + strtab(s),
{
    cat_all(s, fstr());
    assert(put(d, d.len() as int, seq![0u8]) =~= d + (seq![0u8] + cat(s.take(0), fstr())));
}
pub proof fn begin_app<A>(d: Seq<u8>, p: int, s: Seq<A>, f: spec_fn(A) -> Seq<u8>)
    ensures app(d, p, cat(s.take(0), f)) == d, catoff(s, f, 0) == 0, app(d, p, cat(s.take(s.len() as int), f)) == app(d, p, cat(s, f)), catoff(s, f, s.len() as int) == cat(s, f).len(),
        cat(s.take(s.len() as int), f) == cat(s, f),
{
    cat_all(s, f);
}
pub proof fn put_app(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p >= d.len(), b.len() > 0,
    ensures put(d, p, b) == app(d, p, b),
{
    assert(put(d, p, b) =~= app(d, p, b));
}

/// products that the verifier's arithmetic leaves alone
pub proof fn sizes<'a>(e: &Elf<'a>)
    requires writable(e),
    ensures nsyms(e) * symsize(e.ctx.container) == z_sym(e), 0 <= z_sym(e) < cap(e.ctx), 0 <= 4 * nsyms(e) < cap(e.ctx), nsyms(e) <= z_sym(e), 0 <= allrels(e).len() < cap(e.ctx), 0 <= o_str(e) <= o_sym(e) <= o_shx(e) <= o_rel(e) <= o_sh(e) < cap(e.ctx) - 64,
        o_str(e) + z_str(e) < cap(e.ctx), o_sym(e) + z_sym(e) < cap(e.ctx), o_shx(e) + z_shx(e) < cap(e.ctx), o_rel(e) + allrels(e).len() < cap(e.ctx),
        o_sh(e) + shdrs(e).len() * shdrsize(e.ctx) < cap(e.ctx), shdrs(e).len() * shdrsize(e.ctx) == shdrsize(e.ctx) * shdrs(e).len(), shdrs(e).len() == nsec1(e), image(e).len() == o_sh(e) + shdrs(e).len() * shdrsize(e.ctx),
        0 <= shdrs(e).len() * shdrsize(e.ctx), e.special_symbols@.len() == 2, 2 + e.sections@.len() + e.nlocals < 0x1_0000_0000, nsyms(e) >= 2,
        e.nsections == 4 + e.sections@.len() + e.relocations@.len(), cat(shdrs(e), fshdr(e.ctx)).len() == shdrs(e).len() * shdrsize(e.ctx),
{
    places(e);
    broadcast use enc_shdr_len;
    cat_width(shdrs(e), fshdr(e.ctx), shdrsize(e.ctx));
    broadcast use {crate::goblin::elf::header::enc_header_len, up_lemma};
    assert(nsyms(e) * symsize(e.ctx.container) == z_sym(e)) by (nonlinear_arith) requires symsize(e.ctx.container) == (if e.ctx.big() { 24int } else { 16 }), z_sym(e) == (if e.ctx.big() { 24 * nsyms(e) } else { 16 * nsyms(e) });
    let n = shdrs(e).len() as int;
    assert(n * shdrsize(e.ctx) == (if e.ctx.big() { 64 * n } else { 40 * n }) && shdrsize(e.ctx) * n == (if e.ctx.big() { 64 * n } else { 40 * n })) by (nonlinear_arith) requires shdrsize(e.ctx) == (if e.ctx.big() { 64int } else { 40 });
    assert((if e.ctx.big() { 64int } else { 40 }) * n == (if e.ctx.big() { 64 * n } else { 40 * n })) by (nonlinear_arith);
}
pub proof fn mul_plus(a: int, x: int, n: int, y: int) requires y == x + n, ensures a * y == a * x + a * n, { assert(a * (x + n) == a * x + a * n) by (nonlinear_arith); }
pub proof fn wf_str<'a>(e: &Elf<'a>) requires e.wf(), ensures str_wf(e.strings@, e.offsets@, e.sizeof_strtab as int), {}
pub proof fn mul_swap(a: int, b: int, c: int) requires a * b == c, ensures b * a == c, { assert(b * a == a * b) by (nonlinear_arith); }

pub proof fn extra_names<'a>(e: &Elf<'a>, x: usize, n: usize)
    requires needx(e) ==> named(intern(e.strings@, ".symtab_shndx"@), ".symtab_shndx"@, x as int), named(strs1(e), ".note.GNU-stack"@, n as int),
    ensures needx(e) ==> x == noff(strs1(e), ".symtab_shndx"@), n == noff(strs1(e), ".note.GNU-stack"@),
{
    reveal(named);
    let a = if needx(e) { intern(e.strings@, ".symtab_shndx"@) } else { e.strings@ };
    assert(a.is_prefix_of(strs1(e)));
    if needx(e) { named_grow(a, strs1(e), ".symtab_shndx"@, x as int); }
}

// ---------------------------------------------------------------- how far writing has come
#[verifier::opaque]
pub open spec fn code_at<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int) -> bool { d == enc_header(mhdr(e), e.ctx) + cat(e.code@.take(k), fcode()) && p == d.len() }
pub proof fn code_first<'a>(e: &Elf<'a>, d: Seq<u8>)
    requires d.len() == 0,
    ensures code_at(e, 0, put(d, 0, enc_header(mhdr(e), e.ctx)), ehsize(e.ctx)),
{
    reveal(code_at);
    broadcast use crate::goblin::elf::header::enc_header_len;
    begin_cat(d, enc_header(mhdr(e), e.ctx), e.code@, fcode());
}
pub proof fn code_next<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int)
    requires code_at(e, k, d, p), 0 <= k < e.code@.len(),
    ensures code_at(e, k + 1, put(d, p, e.code@[k].1@), p + e.code@[k].1@.len()),
{
    reveal(code_at);
    cat_next(enc_header(mhdr(e), e.ctx), e.code@, fcode(), k);
}
pub proof fn code_last<'a>(e: &Elf<'a>, d: Seq<u8>, p: int)
    requires code_at(e, e.code@.len() as int, d, p),
    ensures d == im1(e), p == o_str(e), p == d.len(),
{
    reveal(code_at);
    broadcast use crate::goblin::elf::header::enc_header_len;
    cat_all(e.code@, fcode());
}
#[verifier::opaque]
pub open spec fn str_at<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int) -> bool { d == im1(e) + (seq![0u8] + cat(strs1(e).take(k), fstr())) && p == d.len() }
pub proof fn str_first<'a>(e: &Elf<'a>, d: Seq<u8>, p: int)
    requires d == im1(e), p == d.len(),
    ensures str_at(e, 0, put(d, p, seq![0u8]), p + 1),
{
    reveal(str_at);
    begin_str(d, strs1(e));
}
pub proof fn str_step<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int)
    requires str_at(e, k, d, p), 0 <= k < strs1(e).len(),
    ensures str_at(e, k + 1, put(put(d, p, utf8(strs1(e)[k])), (p + utf8(strs1(e)[k]).len()) as int, seq![0u8]), (p + utf8(strs1(e)[k]).len() + 1) as int),
{
    reveal(str_at);
    str_next(im1(e), strs1(e), k);
}
pub proof fn str_last<'a>(e: &Elf<'a>, d: Seq<u8>, p: int)
    requires str_at(e, strs1(e).len() as int, d, p),
    ensures d == im2(e), p == o_str(e) + z_str(e),
{
    reveal(str_at);
    begin_str(im1(e), strs1(e));
    places(e);
}
#[verifier::opaque]
pub open spec fn grp_at<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int) -> bool {
    d == app(im4(e), o_rel(e), cat(e.relocations@.take(k), frels(e.ctx))) && p == o_rel(e) + catoff(e.relocations@, frels(e.ctx), k)
}
#[verifier::opaque]
pub open spec fn rel_at<'a>(e: &Elf<'a>, k: int, j: int, d: Seq<u8>, p: int) -> bool {
    d == app(im4(e), o_rel(e), cat(e.relocations@.take(k), frels(e.ctx)) + cat(e.relocations@[k].1.1@.take(j), frel(e.ctx))) && p == o_rel(e) + catoff(e.relocations@, frels(e.ctx), k) + catoff(e.relocations@[k].1.1@, frel(e.ctx), j)
}
pub proof fn grp_first<'a>(e: &Elf<'a>, d: Seq<u8>)
    requires d == im4(e),
    ensures grp_at(e, 0, d, o_rel(e)), o_rel(e) == gpos(e, 0),
{
    reveal(grp_at);
    begin_app(im4(e), o_rel(e), e.relocations@, frels(e.ctx));
}
pub open spec fn gpos<'a>(e: &Elf<'a>, k: int) -> int { o_rel(e) + catoff(e.relocations@, frels(e.ctx), k) }
pub proof fn grp_open<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int)
    requires grp_at(e, k, d, p), writable(e), 0 <= k < e.relocations@.len(),
    ensures rel_at(e, k, 0, d, p), p == gpos(e, k), gpos(e, k) + e.relocations@[k].1.0.sh_size == gpos(e, k + 1), 0 <= gpos(e, k) <= gpos(e, k + 1) < 0x1_0000_0000_0000_0000,
        relhdr(e, k).sh_offset == p,
{
    reveal(grp_at); reveal(rel_at);
    rel_group(e, k);
    rel_sizes(e, k);
    places(e);
    sizes(e);
}
pub proof fn rel_step7<'a>(e: &Elf<'a>, k: int, j: int, d: Seq<u8>, p: int)
    requires rel_at(e, k, j, d, p), writable(e), 0 <= k < e.relocations@.len(), 0 <= j < e.relocations@[k].1.1@.len(),
    ensures rel_fits(e.relocations@[k].1.1@[j], e.ctx), ({ let b = enc_reloc(e.relocations@[k].1.1@[j], (true, e.ctx)); rel_at(e, k, j + 1, put(d, p, b), p + b.len()) }),
{
    reveal(rel_at);
    places(e);
    rel_next(e, k, j);
}
pub proof fn grp_close<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int)
    requires 0 <= k < e.relocations@.len(), rel_at(e, k, e.relocations@[k].1.1@.len() as int, d, p),
    ensures grp_at(e, k + 1, d, p), p == gpos(e, k + 1),
{
    reveal(grp_at); reveal(rel_at);
    rel_group(e, k);
}
pub proof fn grp_last<'a>(e: &Elf<'a>, d: Seq<u8>, p: int)
    requires grp_at(e, e.relocations@.len() as int, d, p),
    ensures d == im5(e), p == o_rel(e) + allrels(e).len(),
{
    reveal(grp_at);
    begin_app(im4(e), o_rel(e), e.relocations@, frels(e.ctx));
}
#[verifier::opaque]
pub open spec fn shd_at<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int) -> bool {
    d == app(im5(e), o_sh(e), cat(shdrs(e).take(k), fshdr(e.ctx))) && p == o_sh(e) + catoff(shdrs(e), fshdr(e.ctx), k)
}
pub proof fn shd_first<'a>(e: &Elf<'a>, d: Seq<u8>)
    requires d == im5(e),
    ensures shd_at(e, 0, d, o_sh(e)),
{
    reveal(shd_at);
    begin_app(im5(e), o_sh(e), shdrs(e), fshdr(e.ctx));
}
pub proof fn shd_next<'a>(e: &Elf<'a>, k: int, d: Seq<u8>, p: int)
    requires shd_at(e, k, d, p), writable(e), 0 <= k < shdrs(e).len(), z_str(e) < lim(), nodup(strs1(e)),
    ensures shdr_fits(shdrs(e)[k], e.ctx), ({ let b = enc_shdr(shdrs(e)[k], e.ctx); shd_at(e, k + 1, put(d, p, b), p + b.len()) }),
{
    reveal(shd_at);
    broadcast use enc_shdr_len;
    places(e);
    shdrs_fit(e, k);
    app_next(im5(e), o_sh(e), shdrs(e), fshdr(e.ctx), k);
}
pub proof fn shd_last<'a>(e: &Elf<'a>, d: Seq<u8>, p: int)
    requires shd_at(e, shdrs(e).len() as int, d, p), writable(e),
    ensures d == image(e), p == o_sh(e) + shdrs(e).len() * shdrsize(e.ctx),
{
    reveal(shd_at);
    begin_app(im5(e), o_sh(e), shdrs(e), fshdr(e.ctx));
    sizes(e);
}
#[verifier::opaque]
pub open spec fn heads4<'a>(e: &Elf<'a>, k: int, h: Seq<SectionHeader>) -> bool { h == h3(e) + hsec(e).take(k) }
#[verifier::opaque]
pub open spec fn heads6<'a>(e: &Elf<'a>, k: int, h: Seq<SectionHeader>) -> bool { h == h3(e) + hsec(e) + hshx(e) + hrel(e).take(k) }
pub proof fn heads_first<'a>(e: &Elf<'a>, h: Seq<SectionHeader>)
    requires h.len() == 3, h[0] == nullhdr(e), h[1] == strhdr(e), h[2] == symhdr(e),
    ensures heads4(e, 0, h),
{
    reveal(heads4);
    assert(h =~= h3(e) + hsec(e).take(0));
}
pub proof fn heads_sec<'a>(e: &Elf<'a>, k: int, h: Seq<SectionHeader>)
    requires heads4(e, k, h), 0 <= k < e.sections@.len(),
    ensures heads4(e, k + 1, h.push(e.sections@[k].1.header)),
{
    reveal(heads4);
    assert(h.push(e.sections@[k].1.header) =~= h3(e) + hsec(e).take(k + 1));
}
pub proof fn heads_mid<'a>(e: &Elf<'a>, h: Seq<SectionHeader>)
    requires heads4(e, e.sections@.len() as int, h),
    ensures !needx(e) ==> heads6(e, 0, h), needx(e) ==> heads6(e, 0, h.push(shxhdr(e))),
{
    reveal(heads4); reveal(heads6);
    if needx(e) { assert(h.push(shxhdr(e)) =~= h3(e) + hsec(e) + hshx(e) + hrel(e).take(0)); } else { assert(h =~= h3(e) + hsec(e) + hshx(e) + hrel(e).take(0)); }
}
pub proof fn heads_rel<'a>(e: &Elf<'a>, k: int, h: Seq<SectionHeader>)
    requires heads6(e, k, h), 0 <= k < e.relocations@.len(),
    ensures heads6(e, k + 1, h.push(relhdr(e, k))),
{
    reveal(heads6);
    assert(h.push(relhdr(e, k)) =~= h3(e) + hsec(e) + hshx(e) + hrel(e).take(k + 1));
}
pub proof fn heads_last<'a>(e: &Elf<'a>, h: Seq<SectionHeader>)
    requires heads6(e, e.relocations@.len() as int, h),
    ensures h.push(notehdr(e)) == shdrs(e),
{
    reveal(heads6);
    assert(h.push(notehdr(e)) =~= shdrs(e));
}
}
