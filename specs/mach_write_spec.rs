pub mod mach_write_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::mach::*;
use crate::mach_spec::*;
use crate::mach_object_spec::mheader;
use crate::artifact_spec::*;
use crate::artifact::Definition;
use crate::target_spec::*;
use crate::seq_spec::*;
use crate::elf_spec::lim;
use crate::goblin::container::{Ctx, Endian};
use crate::goblin::mach::header::{Header, mhsize, enc_mh, enc_mh_len};
use crate::goblin::mach::load_command::{SymtabCommand, enc_symtab, enc_symtab_len};
use crate::goblin::mach::segment::*;
use crate::goblin::mach::symbols::{Nlist, nlsize, enc_nlist, enc_nlist_len};
use crate::goblin::mach::relocation::{RelocationInfo, enc_rinfo, enc_rinfo_len};
// The bytes that Mach::write makes of a Mach.

// ---------------------------------------------------------------- pieces
pub open spec fn fill(n: int, x: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| x) }
pub open spec fn blob(d: DataV) -> Seq<u8> { match d { DataV::Blob(b) => b, DataV::Zero(n) => Seq::empty() } }
pub open spec fn padof(m: Map<Seq<char>, u64>, n: Seq<char>) -> int { if m.contains_key(n) { m[n] as int } else { 0 } }
/// the bytes of a definition and the padding after it
pub open spec fn fpad(m: Map<Seq<char>, u64>, x: u8) -> spec_fn(DefV) -> Seq<u8> { |d: DefV| blob(d.data) + fill(padof(m, d.name), x) }
pub open spec fn fsz() -> spec_fn((Seq<char>, SectionBuilder)) -> int { |e: (Seq<char>, SectionBuilder)| if e.1.flags == 1 { 0 } else { e.1.size as int } }
pub open spec fn fnr() -> spec_fn((Seq<char>, SectionBuilder)) -> int { |e: (Seq<char>, SectionBuilder)| 8 * e.1.relocations@.len() as int }
pub open spec fn frinfo(c: Endian) -> spec_fn(RelocationInfo) -> Seq<u8> { |r: RelocationInfo| enc_rinfo(r, c) }
pub open spec fn fsecrel(c: Endian) -> spec_fn((Seq<char>, SectionBuilder)) -> Seq<u8> { |e: (Seq<char>, SectionBuilder)| cat(e.1.relocations@, frinfo(c)) }
pub open spec fn fmsect(c: Ctx) -> spec_fn(MSectV) -> Seq<u8> { |s: MSectV| enc_msect(s, c) }
pub open spec fn fnl(c: Ctx) -> spec_fn(Nlist) -> Seq<u8> { |n: Nlist| enc_nlist(n, c) }
pub open spec fn nls(x: Seq<MSym>) -> Seq<Nlist> { Seq::new(x.len(), |i: int| nlist(x[i], mstroff(x, i))) }
pub open spec fn msecv(b: SectionBuilder, off: int, roff: int) -> MSectV {
    MSectV { sectname: name16(b.sectname@), segname: name16(b.segname@), addr: b.addr, size: b.size, offset: off as u32, align: b.align as u32, reloff: if b.relocations@.len() == 0 { 0 } else { roff as u32 }, nreloc: b.relocations@.len() as u32, flags: b.flags }
}

// ---------------------------------------------------------------- offsets
pub open spec fn nsec<'a>(m: &Mach<'a>) -> int { m.segment.sections@.len() as int }
pub open spec fn cmdsize<'a>(m: &Mach<'a>) -> int { msegsize(m.ctx.container) + msectsize(m.ctx.container) * nsec(m) }
/// where the contents start
pub open spec fn m_cont<'a>(m: &Mach<'a>) -> int { mhsize(m.ctx.container) + cmdsize(m) + 24 }
pub open spec fn m_sym<'a>(m: &Mach<'a>) -> int { m_cont(m) + sum(m.segment.sections@, fsz()) }
pub open spec fn m_str<'a>(m: &Mach<'a>) -> int { m_sym(m) + m.symtab.syms().len() * nlsize(m.ctx.container) }
pub open spec fn m_rel<'a>(m: &Mach<'a>) -> int { m_str(m) + mstrtab(m.symtab.syms()).len() }
pub open spec fn m_end<'a>(m: &Mach<'a>) -> int { m_rel(m) + sum(m.segment.sections@, fnr()) + 1 }
pub open spec fn msecv_at<'a>(m: &Mach<'a>, i: int) -> MSectV { msecv(m.segment.sections@[i].1, m_cont(m) + sum(m.segment.sections@.take(i), fsz()), m_rel(m) + sum(m.segment.sections@.take(i), fnr())) }
pub open spec fn msecvs<'a>(m: &Mach<'a>) -> Seq<MSectV> { Seq::new(m.segment.sections@.len(), |i: int| msecv_at(m, i)) }
pub open spec fn segv<'a>(m: &Mach<'a>) -> SegV {
    SegV { cmd: if m.ctx.big() { 0x19 } else { 1 }, cmdsize: cmdsize(m) as u32, segname: zeros(16), vmaddr: 0, vmsize: m.segment.size, fileoff: m_cont(m) as u64, filesize: (m_sym(m) - m_cont(m)) as u64, maxprot: 7, initprot: 7, nsects: nsec(m) as u32, flags: 0 }
}
pub open spec fn symcmd<'a>(m: &Mach<'a>) -> SymtabCommand { SymtabCommand { cmd: 2, cmdsize: 24, symoff: m_sym(m) as u32, nsyms: m.symtab.syms().len() as u32, stroff: m_str(m) as u32, strsize: mstrtab(m.symtab.syms()).len() as u32 } }

// ---------------------------------------------------------------- the image, piece after piece
#[verifier::opaque]
pub open spec fn w2<'a>(m: &Mach<'a>) -> Seq<u8> { enc_mh(mheader(m.ctx, m.architecture, cmdsize(m) + 24), m.ctx) + enc_mseg(segv(m), m.ctx) }
#[verifier::opaque]
pub open spec fn w4<'a>(m: &Mach<'a>) -> Seq<u8> { w2(m) + cat(msecvs(m), fmsect(m.ctx)) + enc_symtab(symcmd(m), m.ctx.le) }
#[verifier::opaque]
pub open spec fn w5<'a>(m: &Mach<'a>) -> Seq<u8> { w4(m) + cat(dviews(m.code@), fpad(m.segment.align_pad_map@, 0xcc)) }
#[verifier::opaque]
pub open spec fn w6<'a>(m: &Mach<'a>) -> Seq<u8> { w5(m) + cat(dviews(m.data@), fpad(m.segment.align_pad_map@, 0xaa)) }
#[verifier::opaque]
pub open spec fn w7<'a>(m: &Mach<'a>) -> Seq<u8> { w6(m) + cat(dviews(m.cstrings@), fpad(m.segment.align_pad_map@, 0xaa)) }
#[verifier::opaque]
pub open spec fn w8<'a>(m: &Mach<'a>) -> Seq<u8> { w7(m) + cat(dviews(m.sections@), fpad(m.segment.align_pad_map@, 0xaa)) }
#[verifier::opaque]
pub open spec fn w9<'a>(m: &Mach<'a>) -> Seq<u8> { w8(m) + cat(nls(m.symtab.syms()), fnl(m.ctx)) }
#[verifier::opaque]
pub open spec fn w10<'a>(m: &Mach<'a>) -> Seq<u8> { w9(m) + seq![0u8] + cat(mnames(m.symtab.syms()), fmstr()) }
#[verifier::opaque]
pub open spec fn w11<'a>(m: &Mach<'a>) -> Seq<u8> { w10(m) + cat(m.segment.sections@, fsecrel(m.ctx.le)) }
#[verifier::opaque]
pub open spec fn mimage<'a>(m: &Mach<'a>) -> Seq<u8> { w11(m) + seq![0u8] }

/// a definition that can be written
pub open spec fn wdef(m: Map<Seq<char>, u64>, d: DefV) -> bool { padof(m, d.name) < mem() }
pub open spec fn wdefs(m: Map<Seq<char>, u64>, g: Seq<DefV>, blobs: bool) -> bool { forall|i: int| 0 <= i < g.len() ==> wdef(m, #[trigger] g[i]) && (blobs ==> g[i].data is Blob) }
pub open spec fn wsec(e: (Seq<char>, SectionBuilder), c: Ctx) -> bool { utf8(e.1.sectname@).len() <= 16 && utf8(e.1.segname@).len() <= 16 && e.1.align < 64 && (c.big() || (e.1.addr < lim() && e.1.size < lim())) }
pub open spec fn wsym(x: MSym, c: Ctx) -> bool { 0 <= x.sect <= 255 && (x.sect == 0 ==> x.value == 0) && (c.big() || x.value < lim()) }
#[verifier::opaque]
pub open spec fn mwritable<'a>(m: &Mach<'a>) -> bool {
    &&& mach_cpu(m.architecture) is Some && m.symtab.wf() && nsec(m) <= 255
    &&& forall|i: int| 0 <= i < nsec(m) ==> wsec(#[trigger] m.segment.sections@[i], m.ctx)
    &&& forall|i: int| 0 <= i < m.symtab.syms().len() ==> wsym(#[trigger] m.symtab.syms()[i], m.ctx)
    &&& m.segment.offset == mhsize(m.ctx.container) + sum(m.segment.sections@, fsz())
    &&& m.ctx.big() || m.segment.size < lim()
    &&& wdefs(m.segment.align_pad_map@, dviews(m.code@), true) && wdefs(m.segment.align_pad_map@, dviews(m.data@), false) && wdefs(m.segment.align_pad_map@, dviews(m.cstrings@), true) && wdefs(m.segment.align_pad_map@, dviews(m.sections@), true)
    &&& m_end(m) < lim()
}
pub proof fn sum_room(e: Seq<(Seq<char>, SectionBuilder)>, k: int)
    requires 0 <= k <= e.len(),
    ensures 0 <= sum(e.take(k), fsz()) <= sum(e, fsz()), 0 <= sum(e.take(k), fnr()) <= sum(e, fnr()),
        sum(e.take(0), fsz()) == 0, sum(e.take(0), fnr()) == 0,
        k < e.len() ==> sum(e.take(k + 1), fsz()) == sum(e.take(k), fsz()) + fsz()(e[k]) <= sum(e, fsz()) && sum(e.take(k + 1), fnr()) == sum(e.take(k), fnr()) + fnr()(e[k]) <= sum(e, fnr()),
{
    sum_take(e, fsz(), k);
    sum_take(e, fnr(), k);
}
/// facts about the offsets
pub proof fn moffs<'a>(m: &Mach<'a>)
    requires mwritable(m),
    ensures mhsize(m.ctx.container) + 24 < m_cont(m) <= m_sym(m) <= m_str(m) < m_rel(m) < m_end(m) < lim(), 0 <= cmdsize(m) < lim() - 24, 0 <= nsec(m) <= 255,
        m.segment.offset + cmdsize(m) + 24 == m_sym(m), mach_cpu(m.architecture) is Some, m.symtab.wf(), mstrtab(m.symtab.syms()).len() > 0, m.symtab.syms().len() < lim(),
        m.ctx.big() || m.segment.size < lim(), m.symtab.syms().len() * nlsize(m.ctx.container) == m_str(m) - m_sym(m), 0 < mhsize(m.ctx.container) <= 32,
        m_rel(m) == m_str(m) + mstrtab(m.symtab.syms()).len(), msectsize(m.ctx.container) * nsec(m) == cmdsize(m) - msegsize(m.ctx.container), 0 < msegsize(m.ctx.container) <= 72, m.segment.sections@.len() < 0x100_0000,
{
    reveal(mwritable);
    let e = m.segment.sections@;
    sum_room(e, 0);
    let n = m.symtab.syms().len() as int;
    let w = nlsize(m.ctx.container);
    assert(n <= n * w) by (nonlinear_arith) requires n >= 0, w >= 1;
    sect_sizes(m.ctx.container, nsec(m));
}
// ---------------------------------------------------------------- writing item after item
#[verifier::opaque]
pub open spec fn outk<A>(d0: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int, d: Seq<u8>, p: int) -> bool { d == d0 + cat(s.take(k), f) && p == d.len() }
pub proof fn out_new<A>(d0: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, d: Seq<u8>, p: int)
    requires d == d0, p == d.len(),
    ensures outk(d0, s, f, 0, d, p),
{
    reveal(outk);
    cat_all(s, f);
    assert(d0 + cat(s.take(0), f) =~= d0);
}
pub proof fn out_step<A>(d0: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int, d: Seq<u8>, p: int)
    requires outk(d0, s, f, k, d, p), 0 <= k < s.len(),
    ensures p == d.len(), outk(d0, s, f, k + 1, d + f(s[k]), p + f(s[k]).len()),
{
    reveal(outk);
    cat_take(s, k, f);
    assert(d0 + cat(s.take(k + 1), f) =~= d + f(s[k]));
}
pub proof fn out_done<A>(d0: Seq<u8>, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, d: Seq<u8>, p: int)
    requires outk(d0, s, f, s.len() as int, d, p),
    ensures d == d0 + cat(s, f), p == d.len(),
{
    reveal(outk);
    cat_all(s, f);
}
pub broadcast proof fn put_there(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p == d.len(),
    ensures #[trigger] put(d, p, b) == d + b,
{
    put_end(d, b);
}
/// the bytes so far, when k bytes of the padding are there
pub open spec fn padk(d: Seq<u8>, x: u8, k: int) -> Seq<u8> { d + fill(k, x) }
pub proof fn pad_first(d: Seq<u8>, x: u8) ensures padk(d, x, 0) == d, { assert(padk(d, x, 0) =~= d); }
pub proof fn pad_next(d: Seq<u8>, x: u8, k: int, b: Seq<u8>)
    requires k >= 0, b.len() == 1, b[0] == x,
    ensures padk(d, x, k) + b == padk(d, x, k + 1), padk(d, x, k).len() == d.len() + k,
{
    assert(padk(d, x, k) + b =~= padk(d, x, k + 1));
}
/// a definition's bytes: first the data, then the padding
pub proof fn pad_whole(d: Seq<u8>, m: Map<Seq<char>, u64>, x: u8, v: DefV)
    ensures padk(d + blob(v.data), x, padof(m, v.name)) == d + fpad(m, x)(v), fpad(m, x)(v).len() == blob(v.data).len() + padof(m, v.name),
{
    assert(padk(d + blob(v.data), x, padof(m, v.name)) =~= d + fpad(m, x)(v));
}
pub proof fn wdef_at<'a>(m: &Mach<'a>, c: Seq<DefV>, blobs: bool, i: int)
    requires wdefs(m.segment.align_pad_map@, c, blobs), 0 <= i < c.len(),
    ensures padof(m.segment.align_pad_map@, c[i].name) < mem(), blobs ==> c[i].data is Blob,
{
    assert(wdef(m.segment.align_pad_map@, c[i]));
}
pub proof fn wsec_at<'a>(m: &Mach<'a>, i: int)
    requires mwritable(m), 0 <= i < nsec(m),
    ensures wsec(m.segment.sections@[i], m.ctx), msecvs(m).len() == nsec(m), msecvs(m)[i] == msecv_at(m, i),
        m_cont(m) + sum(m.segment.sections@.take(i + 1), fsz()) < lim(), m_rel(m) + sum(m.segment.sections@.take(i + 1), fnr()) < lim(),
        sum(m.segment.sections@.take(i + 1), fsz()) == sum(m.segment.sections@.take(i), fsz()) + fsz()(m.segment.sections@[i]), sum(m.segment.sections@.take(i + 1), fnr()) == sum(m.segment.sections@.take(i), fnr()) + 8 * m.segment.sections@[i].1.relocations@.len(),
        0 <= sum(m.segment.sections@.take(i), fsz()), 0 <= sum(m.segment.sections@.take(i), fnr()),
{
    moffs(m);
    sum_room(m.segment.sections@, i);
    reveal(mwritable);
}
pub proof fn wsym_at<'a>(m: &Mach<'a>, i: int)
    requires mwritable(m), 0 <= i < m.symtab.syms().len(),
    ensures ({
        let b = m.symtab.symbols@[i].1;
        let x = m.symtab.syms()[i];
        &&& wsym(x, m.ctx) && b.import == (b.section is None) && (b.section matches Some(s) ==> s < 0xffff_ffff) && b.name == mstroff(m.symtab.syms(), i) && mstroff(m.symtab.syms(), i) < lim()
        &&& nlist(x, b.name as int).n_type == nlist(symv(Seq::empty(), b), 0).n_type && nlist(x, b.name as int).n_desc == nlist(symv(Seq::empty(), b), 0).n_desc && x.sect == symv(Seq::empty(), b).sect && x.value == b.offset && (b.import ==> x.value == 0)
        &&& nls(m.symtab.syms())[i] == nlist(x, b.name as int)
    }), m.symtab.symbols@.len() == m.symtab.syms().len(), nls(m.symtab.syms()).len() == m.symtab.syms().len(),
{
    moffs(m);
    let x = m.symtab.syms();
    assert(x.len() == m.symtab.symbols@.len() && m.symtab.symbols@[i].1.name == mstroff(x, i) && m.symtab.symbols@[i].1.import == (m.symtab.symbols@[i].1.section is None)) by { reveal(SymbolTable::wf); }
    reveal(mwritable);
    assert(wsym(x[i], m.ctx));
    cat_mono(mnames(x), fmstr(), i, x.len() as int);
    cat_all(mnames(x), fmstr());
    reveal(SymbolTable::syms);
}
pub proof fn wlens<'a>(m: &Mach<'a>)
    requires mwritable(m),
    ensures m.symtab.symbols@.len() == m.symtab.syms().len(), nls(m.symtab.syms()).len() == m.symtab.syms().len(), m.symtab.strtable@ == tnames(m.symtab.syms()), tnames(m.symtab.syms()).skip(1) == mnames(m.symtab.syms()), tnames(m.symtab.syms()).len() == m.symtab.syms().len() + 1,
{
    moffs(m);
    reveal(SymbolTable::wf);
    assert(tnames(m.symtab.syms()).skip(1) =~= mnames(m.symtab.syms()));
}
pub proof fn dview_len<'a>(s: Seq<Definition<'a>>) ensures dviews(s).len() == s.len(), {}
pub proof fn dview_at<'a>(s: Seq<Definition<'a>>, i: int)
    requires 0 <= i < s.len(),
    ensures dviews(s)[i] == defn(s[i]),
{
}
pub proof fn str_whole(d: Seq<u8>, n: Seq<char>)
    ensures d + seq![0x5fu8] + utf8(n) + seq![0u8] == d + fmstr()(n), fmstr()(n).len() == utf8(n).len() + 2,
{
    assert(d + seq![0x5fu8] + utf8(n) + seq![0u8] =~= d + fmstr()(n));
}
pub proof fn raw_done<'a>(m: &Mach<'a>, d: Seq<u8>, p: int)
    requires mwritable(m), outk(Seq::empty(), msecvs(m), fmsect(m.ctx), nsec(m), d, p),
    ensures d == cat(msecvs(m), fmsect(m.ctx)), d.len() == cmdsize(m) - msegsize(m.ctx.container),
{
    out_done(Seq::empty(), msecvs(m), fmsect(m.ctx), d, p);
    assert(d =~= cat(msecvs(m), fmsect(m.ctx)));
    let c = m.ctx;
    assert forall|i: int| 0 <= i < msecvs(m).len() implies fmsect(c)(#[trigger] msecvs(m)[i]).len() == msectsize(c.container) by { enc_msect_len(msecvs(m)[i], c); }
    cat_width(msecvs(m), fmsect(c), msectsize(c.container));
    moffs(m);
}
pub proof fn w4_is<'a>(m: &Mach<'a>, d: Seq<u8>)
    ensures d == enc_mh(mheader(m.ctx, m.architecture, cmdsize(m) + 24), m.ctx) + enc_mseg(segv(m), m.ctx) + cat(msecvs(m), fmsect(m.ctx)) + enc_symtab(symcmd(m), m.ctx.le) ==> d == w4(m),
{
    reveal(w4); reveal(w2);
}
}
