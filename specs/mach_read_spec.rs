pub mod mach_read_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::seq_spec::*;
use crate::elf_spec::lim;
use crate::target_spec::*;
use crate::mach::*;
use crate::mach_spec::*;
use crate::mach_object_spec::*;
use crate::mach_write_spec::*;
use crate::elf_object_spec::item;
use crate::goblin::container::{Ctx, Endian};
use crate::goblin::mach::header::{Header, mhsize, enc_mh, enc_mh_len, magic};
use crate::goblin::mach::load_command::{SymtabCommand, enc_symtab, enc_symtab_len};
use crate::goblin::mach::segment::*;
use crate::goblin::mach::symbols::{Nlist, nlsize, enc_nlist, enc_nlist_len};
use crate::goblin::mach::relocation::{RelocationInfo, enc_rinfo, enc_rinfo_len};
use crate::target_lexicon::*;
// What a Mach-O object has to say about an artifact, read back from its bytes.

/// a reading of a Mach-O object: its structures, decoded
pub ghost struct MachV {
    pub hdr: Header,
    pub seg: SegV,
    pub secs: Seq<MSectV>,
    pub st: SymtabCommand,
    pub syms: Seq<Nlist>,
    pub tab: Seq<u8>,
    pub rels: Seq<Seq<RelocationInfo>>, // for every section its relocation entries
}
/// the bytes b are those of v
pub open spec fn mencodes(b: Seq<u8>, c: Ctx, v: MachV) -> bool {
    let h = mhsize(c.container);
    let n = v.secs.len() as int;
    &&& sub_is(b, 0, enc_mh(v.hdr, c)) && sub_is(b, h, enc_mseg(v.seg, c))
    &&& forall|i: int| 0 <= i < n ==> sub_is(b, h + msegsize(c.container) + msectsize(c.container) * i, enc_msect(#[trigger] v.secs[i], c))
    &&& sub_is(b, h + msegsize(c.container) + msectsize(c.container) * n, enc_symtab(v.st, c.le))
    &&& v.st.nsyms == v.syms.len() && forall|i: int| 0 <= i < v.syms.len() ==> sub_is(b, v.st.symoff + nlsize(c.container) * i, enc_nlist(#[trigger] v.syms[i], c))
    &&& v.st.strsize == v.tab.len() && sub_is(b, v.st.stroff as int, v.tab)
    &&& v.rels.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v.secs[i]).nreloc == v.rels[i].len()
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < v.rels[i].len() ==> sub_is(b, v.secs[i].reloff + 8 * j, enc_rinfo(#[trigger] v.rels[i][j], c.le))
}
/// the bytes of section s in the file
pub open spec fn mflen(s: MSectV) -> int { if s.flags == 1 { 0 } else { s.size as int } }
/// the place of definition j in standard section k
pub open spec fn gat(a: &Artifact, k: int, j: int) -> int { roff(mg(a)[k], smin(k), j) }
/// the symbol of definition j in standard section k
pub open spec fn gix(a: &Artifact, k: int, j: int) -> int { stdsyms(mg(a), k).len() + j }

/// C15: class, byte order, machine
pub open spec fn mp15(a: &Artifact, v: MachV) -> bool { v.hdr.magic == magic(ctx_of(&a.target)) && mach_cpu(a.target.architecture) == Some(v.hdr.cputype as int) }
/// C16: the sections, and the definitions in them
pub open spec fn mp16(a: &Artifact, b: Seq<u8>, v: MachV) -> bool {
    let g = mg(a);
    &&& v.secs.len() == 4 + g[4].len() && v.secs.len() == ms(a).len()
    &&& forall|k: int| 0 <= k < 4 ==> (#[trigger] v.secs[k]).sectname == name16(sname(k)) && v.secs[k].segname == name16(sseg(k)) && v.secs[k].flags == sflags(k)
    &&& forall|i: int| 0 <= i < a.defs().len() ==> placed(a, b, v, mkind(#[trigger] a.defs()[i]), pix(a.defs(), i), a.defs()[i])
    // the places of different definitions do not overlap
    &&& forall|k: int, i: int, j: int| 0 <= k < 4 && 0 <= i < j < g[k].len() ==> #[trigger] gat(a, k, i) + dmem(g[k][i].data) <= #[trigger] gat(a, k, j)
}
/// definition d is where it belongs: the j-th of its kind
pub open spec fn placed(a: &Artifact, b: Seq<u8>, v: MachV, k: int, j: int, d: DefV) -> bool {
    &&& 0 <= k <= 4 && 0 <= j < mg(a)[k].len() && mg(a)[k][j] == d
    &&& k == 4 ==> cuseq(b, v.secs[4 + j], d)
    &&& k < 4 ==> 0 <= gat(a, k, j) && gat(a, k, j) + dmem(d.data) <= v.secs[k].size
    &&& k < 3 ==> (d.data matches DataV::Blob(x) && sub_is(b, v.secs[k].offset + gat(a, k, j), x))
    &&& k == 3 ==> d.data is Zero
}
pub open spec fn cuseq(b: Seq<u8>, s: MSectV, d: DefV) -> bool {
    &&& d.data matches DataV::Blob(x) && s.size == x.len() && sub_is(b, s.offset as int, x)
    &&& s.sectname == name16(machname(d.name)) && s.segname == name16(segof(dkind(d))) && s.flags == (if dkind(d) == SectionKind::Debug { 0x0200_0000 } else { 0u32 })
}
/// C17: alignment
pub open spec fn mp17(a: &Artifact, v: MachV) -> bool {
    &&& v.secs.len() == 4 + mg(a)[4].len()
    &&& forall|i: int| 0 <= i < v.secs.len() ==> (#[trigger] v.secs[i]).align < 64 && v.secs[i].addr as int % pow2(v.secs[i].align as nat) == 0
    &&& forall|k: int, j: int| 0 <= k < 4 && 0 <= j < mg(a)[k].len() ==> aligned(v.secs[k], k, #[trigger] gat(a, k, j), dal(mg(a)[k][j]))
    &&& forall|j: int| 0 <= j < mg(a)[4].len() ==> pow2(v.secs[4 + j].align as nat) == dal(#[trigger] mg(a)[4][j])
}
pub open spec fn aligned(s: MSectV, k: int, at: int, al: int) -> bool {
    (s.addr + at) % al == 0 && (s.addr + at) % smin(k) == 0 && pow2(s.align as nat) >= al && pow2(s.align as nat) >= smin(k)
}
/// C18: exactly the symbols of the artifact
pub open spec fn mp18(a: &Artifact, v: MachV) -> bool {
    let x = mx(a);
    &&& v.syms.len() == x.len() && v.secs.len() == ms(a).len()
    &&& forall|p: int| 0 <= p < x.len() ==> #[trigger] v.syms[p] == nlist(x[p], v.syms[p].n_strx as int)
    &&& forall|i: int| 0 <= i < v.secs.len() ==> (#[trigger] v.secs[i]).addr == maddr(ms(a), i)
    // a definition's entry: its section's ordinal and its address
    &&& forall|k: int, j: int| 0 <= k < 4 && 0 <= j < mg(a)[k].len() ==> defentry(v, k, #[trigger] gix(a, k, j), gat(a, k, j), mg(a)[k][j])
    // no two symbols have the same name
    &&& forall|p: int, q: int| 0 <= p < q < x.len() ==> (#[trigger] x[p]).name != (#[trigger] x[q]).name
}
pub open spec fn defentry(v: MachV, k: int, p: int, at: int, d: DefV) -> bool {
    &&& 0 <= p < v.syms.len() && v.syms[p].n_sect == k + 1 && v.syms[p].n_value == v.secs[k].addr + at
    &&& v.syms[p].n_type == (if dlocal(d.decl) { 14u8 } else { 15u8 }) && v.syms[p].n_desc == (if dscope(d.decl) == Scope::Weak { 0x80u16 } else { 0u16 })
}
/// C19: names
pub open spec fn mp19(a: &Artifact, v: MachV) -> bool {
    let x = mx(a);
    &&& v.syms.len() == x.len()
    &&& forall|p: int| 0 <= p < x.len() ==> sub_is(v.tab, #[trigger] v.syms[p].n_strx as int, seq![0x5fu8] + utf8(x[p].name) + seq![0u8])
    &&& v.tab.len() > 0 && v.tab[0] == 0 && v.tab.last() == 0 && v.tab == mstrtab(x)
}
/// C12, C20: relocations
pub open spec fn mp20(a: &Artifact, v: MachV) -> bool {
    v.rels.len() == ms(a).len() && forall|i: int| 0 <= i < ms(a).len() ==> #[trigger] v.rels[i] == minfos(mrels(mx(a), ms(a), a.flinks(), a.flinks().len() as int, i))
}
/// C21: header and commands describe the file
pub open spec fn mp21(a: &Artifact, b: Seq<u8>, v: MachV) -> bool {
    let c = ctx_of(&a.target);
    let n = v.secs.len() as int;
    let h = mhsize(c.container);
    let sc = msegsize(c.container) + msectsize(c.container) * n;
    &&& v.hdr == mheader(c, a.target.architecture, v.hdr.sizeofcmds as int) && v.hdr.sizeofcmds == sc + 24
    &&& v.seg.cmd == (if c.big() { 0x19u32 } else { 1u32 }) && v.seg.cmdsize == sc && v.seg.nsects == n && v.st.cmd == 2 && v.st.cmdsize == 24
    // one region after another, to the end of the file
    &&& v.seg.fileoff == h + sc + 24 && v.seg.fileoff + v.seg.filesize == v.st.symoff && v.st.symoff + nlsize(c.container) * v.st.nsyms == v.st.stroff
    &&& v.st.stroff + v.st.strsize <= b.len()
    // the segment's file range is that of its sections
    &&& n >= 1 && v.secs[0].offset == v.seg.fileoff && v.secs[n - 1].offset + mflen(v.secs[n - 1]) == v.seg.fileoff + v.seg.filesize
    &&& forall|i: int| 0 <= i < n - 1 ==> (#[trigger] v.secs[i]).offset + mflen(v.secs[i]) == v.secs[i + 1].offset
    &&& forall|i: int| 0 <= i < n ==> secs_inside(v, b, #[trigger] v.secs[i])
    &&& forall|i: int, j: int| 0 <= i < j < n && (#[trigger] v.secs[i]).nreloc > 0 && (#[trigger] v.secs[j]).nreloc > 0 ==> v.secs[i].reloff + 8 * v.secs[i].nreloc <= v.secs[j].reloff
    // the memory range covers every section
    &&& v.seg.vmaddr == 0 && forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] v.secs[i]).addr + v.secs[i].size <= (#[trigger] v.secs[j]).addr
}
pub open spec fn secs_inside(v: MachV, b: Seq<u8>, s: MSectV) -> bool {
    &&& v.seg.fileoff <= s.offset && s.offset + mflen(s) <= v.seg.fileoff + v.seg.filesize && s.addr + s.size <= v.seg.vmaddr + v.seg.vmsize
    &&& s.nreloc == 0 ==> s.reloff == 0
    &&& s.nreloc > 0 ==> v.st.stroff + v.st.strsize <= s.reloff && s.reloff + 8 * s.nreloc <= b.len()
}
/// C22: zero-initialized data
pub open spec fn mp22(a: &Artifact, v: MachV) -> bool {
    let z = mg(a)[3];
    &&& v.secs.len() == 4 + mg(a)[4].len() && v.secs[3].flags == 1
    &&& forall|j: int| 0 <= j < z.len() ==> (#[trigger] z[j]).data is Zero && 0 <= gat(a, 3, j) && gat(a, 3, j) + z[j].data->Zero_0 <= v.secs[3].size && (v.secs[3].addr + gat(a, 3, j)) % dal(z[j]) == 0
    // nothing else is in it
    &&& forall|i: int| 0 <= i < a.defs().len() && mkind(#[trigger] a.defs()[i]) == 3 ==> a.defs()[i].data is Zero
    &&& forall|i: int, j: int| 0 <= i < j < z.len() ==> #[trigger] gat(a, 3, i) + z[i].data->Zero_0 <= #[trigger] gat(a, 3, j)
    // it adds nothing to the file
    &&& forall|i: int| 0 <= i < v.secs.len() ==> (#[trigger] v.secs[i]).offset == v.seg.fileoff + mfoff(ms(a), i)
    &&& mfoff(ms(a), 4) == mfoff(ms(a), 3) && v.seg.filesize == mfoff(ms(a), ms(a).len() as int)
}
pub open spec fn mobject_of(a: &Artifact, b: Seq<u8>, v: MachV) -> bool {
    &&& mencodes(b, ctx_of(&a.target), v)
    &&& mp15(a, v) && mp16(a, b, v) && mp17(a, v) && mp18(a, v) && mp19(a, v) && mp20(a, v) && mp21(a, b, v) && mp22(a, v)
}
/// the bytes are a Mach-O object with all that the artifact says and nothing else
pub open spec fn mach_object(a: &Artifact, b: Seq<u8>) -> bool { exists|v: MachV| #[trigger] mobject_of(a, b, v) }

// ---------------------------------------------------------------- definitions of a kind
pub proof fn part_in(d: Seq<DefV>, k: int, j: int)
    requires 0 <= j < part(d, k).len(),
    ensures exists|i: int| 0 <= i < d.len() && mkind(#[trigger] d[i]) == k && pix(d, i) == j && d[i] == part(d, k)[j],
    decreases d.len(),
{
    let t = d.drop_last();
    let n = d.len() - 1;
    if mkind(d.last()) == k && j == part(t, k).len() {
        assert(d.take(n) =~= t);
        assert(d[n] == part(d, k)[j] && pix(d, n) == j);
    } else {
        part_in(t, k, j);
        let i = choose|i: int| 0 <= i < t.len() && mkind(#[trigger] t[i]) == k && pix(t, i) == j && t[i] == part(t, k)[j];
        assert(t.take(i) =~= d.take(i));
        assert(d[i] == t[i]);
        assert(d[i] == part(d, k)[j] && pix(d, i) == j);
    }
}
/// what a definition of a kind is
pub proof fn kind_at(a: &Artifact, k: int, j: int)
    requires mready(a), 0 <= k <= 4, 0 <= j < mg(a)[k].len(),
    ensures ({
        let d = mg(a)[k][j];
        &&& mkind(d) == k && a.declared(d.name) && a.decl_of(d.name) == Decl::Defined(d.decl) && (k == 3 ==> d.data is Zero) && (k != 3 ==> d.data is Blob)
        &&& exists|i: int| 0 <= i < a.defs().len() && #[trigger] a.defs()[i] == d && pix(a.defs(), i) == j
    }), mg(a).len() == 5,
{
    let d = a.defs();
    assert(mg(a)[k] == part(d, k));
    part_in(d, k, j);
    let i = choose|i: int| 0 <= i < d.len() && mkind(#[trigger] d[i]) == k && pix(d, i) == j && d[i] == part(d, k)[j];
    def_decl(a, i);
}
pub proof fn grp_len(a: &Artifact, k: int)
    requires mready(a), 0 <= k <= 4,
    ensures mg(a)[k].len() <= a.defs().len(),
{
    assert(mg(a)[k] == part(a.defs(), k));
    part_len(a.defs(), k);
}
pub proof fn part_len(d: Seq<DefV>, k: int) ensures part(d, k).len() <= d.len(), decreases d.len(), { if d.len() > 0 { part_len(d.drop_last(), k); } }

// ---------------------------------------------------------------- paddings
pub proof fn ins_not<K, V>(m: Map<K, V>, l: Seq<(K, V)>, x: K)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 != x,
    ensures ins(m, l).contains_key(x) == m.contains_key(x), m.contains_key(x) ==> ins(m, l)[x] == m[x],
    decreases l.len(),
{
    if l.len() > 0 {
        let t = l.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != x by { assert(t[i] == l[i]); }
        ins_not(m, t, x);
        assert(l[l.len() - 1].0 != x);
    }
}
pub proof fn ins_has<K, V>(m: Map<K, V>, l: Seq<(K, V)>, j: int)
    requires 0 <= j < l.len(), forall|i: int| j < i < l.len() ==> (#[trigger] l[i]).0 != l[j].0,
    ensures ins(m, l).contains_key(l[j].0), ins(m, l)[l[j].0] == l[j].1,
    decreases l.len(),
{
    let t = l.drop_last();
    if j < t.len() {
        assert forall|i: int| j < i < t.len() implies (#[trigger] t[i]).0 != t[j].0 by { assert(t[i] == l[i]); }
        ins_has(m, t, j);
        assert(l[l.len() - 1].0 != l[j].0);
    }
}
/// different places have different names
pub proof fn gname(a: &Artifact, k: int, j: int, h: int, i: int)
    requires seg_room(mg(a), a.imps()), 0 <= k < 4, 0 <= j < mg(a)[k].len(), 0 <= h < 4, 0 <= i < mg(a)[h].len(), k != h || j != i,
    ensures mg(a)[k][j].name != mg(a)[h][i].name,
{
    gsym_in(a, k, j);
    gsym_in(a, h, i);
    std_len(mg(a), k, h);
    std_len(mg(a), h, k);
}
pub proof fn std_len(g: Seq<Seq<DefV>>, k: int, h: int)
    requires 0 <= k,
    ensures k < h ==> stdsyms(g, k).len() + g[k].len() <= stdsyms(g, h).len(),
    decreases h,
{
    if k < h - 1 { std_len(g, k, h - 1); }
}
pub proof fn pad_none(a: &Artifact, n: Seq<char>, kk: int)
    requires 0 <= kk <= 4, forall|h: int, i: int| 0 <= h < kk && 0 <= i < mg(a)[h].len() ==> (#[trigger] mg(a)[h][i]).name != n,
    ensures !padst(mg(a), kk).contains_key(n),
    decreases kk,
{
    if kk > 0 {
        pad_none(a, n, kk - 1);
        let g = mg(a)[kk - 1];
        let l = padlist(g, smin(kk - 1));
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).0 != n by { assert(mg(a)[kk - 1][i].name != n); }
        ins_not(padst(mg(a), kk - 1), l, n);
    }
}
pub proof fn pad_has(a: &Artifact, k: int, j: int, kk: int)
    requires seg_room(mg(a), a.imps()), 0 <= k < kk <= 4, 0 <= j < mg(a)[k].len(),
    ensures padst(mg(a), kk).contains_key(mg(a)[k][j].name), padst(mg(a), kk)[mg(a)[k][j].name] == gpad(mg(a)[k], smin(k), j) as u64,
    decreases kk,
{
    let h = kk - 1;
    let l = padlist(mg(a)[h], smin(h));
    let n = mg(a)[k][j].name;
    if k < h {
        pad_has(a, k, j, h);
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).0 != n by { gname(a, k, j, h, i); }
        ins_not(padst(mg(a), h), l, n);
    } else {
        assert(l[j].0 == n);
        assert forall|i: int| j < i < l.len() implies (#[trigger] l[i]).0 != l[j].0 by { gname(a, k, j, k, i); }
        ins_has(padst(mg(a), h), l, j);
    }
}
/// a group's room and alignment
pub proof fn grp_is(a: &Artifact, k: int)
    requires mready(a), 0 <= k < 4,
    ensures seg_room(mg(a), a.imps()), stdgrp(mg(a)[k]), ms(a).len() == 4 + mg(a)[4].len(), ms(a)[k] == stdsec(mg(a)[k], k), 0 <= gsize(mg(a)[k], smin(k)) < mlim(), smin(k) > 0, mg(a).len() == 5,
{
    reveal(mach_dom);
    stage(mg(a), a.imps(), k, 0);
    secs_are(mg(a), a.imps());
    grp_fits(mg(a)[k], smin(k), mend(ms(a), k));
    reveal(seg_room);
}
pub proof fn gat_in(a: &Artifact, k: int, j: int)
    requires mready(a), 0 <= k < 4, 0 <= j < mg(a)[k].len(),
    ensures 0 <= gat(a, k, j), 0 <= dmem(mg(a)[k][j].data), gat(a, k, j) + dmem(mg(a)[k][j].data) <= gat(a, k, j + 1) <= gsize(mg(a)[k], smin(k)), gat(a, k, j) + dmem(mg(a)[k][j].data) <= ms(a)[k].size,
        0 <= gpad(mg(a)[k], smin(k), j) < mlim(),
{
    grp_is(a, k);
    let g = mg(a)[k];
    roff_mono(g, smin(k), 0, j);
    roff_mono(g, smin(k), j, j + 1);
    roff_mono(g, smin(k), j + 1, g.len() as int);
}
pub proof fn pad_of(a: &Artifact, k: int, j: int)
    requires mready(a), 0 <= k <= 4, 0 <= j < mg(a)[k].len(),
    ensures k < 4 ==> padof(padst(mg(a), 4), mg(a)[k][j].name) == gpad(mg(a)[k], smin(k), j), k == 4 ==> padof(padst(mg(a), 4), mg(a)[k][j].name) == 0, 0 <= padof(padst(mg(a), 4), mg(a)[k][j].name) < mlim(),
{
    grp_is(a, 0);
    if k < 4 { pad_has(a, k, j, 4); gat_in(a, k, j); }
    else {
        let n = mg(a)[4][j].name;
        kind_at(a, 4, j);
        assert forall|h: int, i: int| 0 <= h < 4 && 0 <= i < mg(a)[h].len() implies (#[trigger] mg(a)[h][i]).name != n by { kind_at(a, h, i); }
        pad_none(a, n, 4);
    }
}
/// where definition j of a group is in the group's bytes
pub proof fn cat_grp(a: &Artifact, k: int, j: int, x: u8)
    requires mready(a), 0 <= k < 3, 0 <= j <= mg(a)[k].len(),
    ensures catoff(mg(a)[k], fpad(padst(mg(a), 4), x), j) == gat(a, k, j),
    decreases j,
{
    let g = mg(a)[k];
    let f = fpad(padst(mg(a), 4), x);
    cat_all(g, f);
    if j > 0 {
        cat_grp(a, k, j - 1, x);
        cat_take(g, j - 1, f);
        pad_of(a, k, j - 1);
        gat_in(a, k, j - 1);
        kind_at(a, k, j - 1);
        assert(gat(a, k, j) == roff(g, smin(k), j));
    }
}
pub proof fn cat_cus(a: &Artifact, j: int, x: u8)
    requires mready(a), 0 <= j <= mg(a)[4].len(),
    ensures catoff(mg(a)[4], fpad(padst(mg(a), 4), x), j) == mfoff(ms(a), 4 + j) - mfoff(ms(a), 4),
    decreases j,
{
    let g = mg(a)[4];
    let f = fpad(padst(mg(a), 4), x);
    cat_all(g, f);
    if j > 0 {
        cat_cus(a, j - 1, x);
        cat_take(g, j - 1, f);
        pad_of(a, 4, j - 1);
        kind_at(a, 4, j - 1);
        grp_is(a, 0);
        cstage(mg(a), a.imps(), j - 1, 0);
    }
}
/// the bytes of a definition, in its group's bytes
pub proof fn blob_in(a: &Artifact, k: int, j: int, x: u8)
    requires mready(a), 0 <= k <= 4, k != 3, 0 <= j < mg(a)[k].len(),
    ensures mg(a)[k][j].data matches DataV::Blob(y) && sub_is(cat(mg(a)[k], fpad(padst(mg(a), 4), x)), if k < 3 { gat(a, k, j) } else { mfoff(ms(a), 4 + j) - mfoff(ms(a), 4) }, y),
{
    let g = mg(a)[k];
    let f = fpad(padst(mg(a), 4), x);
    kind_at(a, k, j);
    if k < 3 { cat_grp(a, k, j, x); } else { cat_cus(a, j, x); }
    cat_at(g, f, j);
    let y = g[j].data->Blob_0;
    assert(f(g[j]).subrange(0, y.len() as int) =~= y);
    assert(sub_is(cat(g, f), catoff(g, f, j), f(g[j])));
    sub_sub(cat(g, f), catoff(g, f, j), f(g[j]), 0, y);
}

// ---------------------------------------------------------------- counting relocations
pub open spec fn reltot(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { reltot(x, s, q, k, n - 1) + mrels(x, s, q, k, n - 1).len() } }
pub proof fn reltot_none(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>, n: int) ensures reltot(x, s, q, 0, n) == 0, decreases n, { if n > 0 { reltot_none(x, s, q, n - 1); } }
pub proof fn reltot_step(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>, k: int, n: int)
    requires k >= 0,
    ensures reltot(x, s, q, k + 1, n) == reltot(x, s, q, k, n) + (if emits(q[k]) && 0 <= mrel(x, s, q[k]).sec < n { 1int } else { 0 }),
    decreases n,
{
    if n > 0 { reltot_step(x, s, q, k, n - 1); }
}
pub proof fn reltot_most(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>, k: int, n: int)
    requires k >= 0,
    ensures reltot(x, s, q, k, n) <= k,
    decreases k,
{
    if k > 0 { reltot_most(x, s, q, k - 1, n); reltot_step(x, s, q, k - 1, n); } else { reltot_none(x, s, q, n); }
}

// ---------------------------------------------------------------- a finished Mach
pub open spec fn mdone<'a>(m: &Mach<'a>, a: &Artifact) -> bool { mready(a) && mbuilt(m, a) }
pub proof fn done_sec<'a>(m: &Mach<'a>, a: &Artifact, i: int)
    requires mdone(m, a), 0 <= i < ms(a).len(),
    ensures nsec(m) == ms(a).len(), secis(m.segment.sections@[i], ms(a)[i], maddr(ms(a), i)), m.segment.sections@[i].1.relocations@ == minfos(mrels(mx(a), ms(a), a.flinks(), a.flinks().len() as int, i)),
        fsz()(m.segment.sections@[i]) == mfile(ms(a)[i]),
{
    reveal(mbuilt); reveal(linked);
    assert(secis(m.segment.sections@[i], ms(a)[i], maddr(ms(a), i)));
}
pub proof fn done_is<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures m.ctx == ctx_of(&a.target), m.architecture == a.target.architecture, nsec(m) == ms(a).len(), m.symtab.syms() == mx(a), m.segment.size == mend(ms(a), ms(a).len() as int), m.segment.align_pad_map@ == padst(mg(a), 4),
        dviews(m.code@) == mg(a)[0], dviews(m.data@) == mg(a)[1], dviews(m.cstrings@) == mg(a)[2], dviews(m.sections@) == mg(a)[4], m.symtab.wf(), seg_room(mg(a), a.imps()), m.segment.offset == mhsize(m.ctx.container) + mfoff(ms(a), ms(a).len() as int),
        secs_ok(ms(a)), ms(a).len() == 4 + mg(a)[4].len(),
{
    reveal(mbuilt); reveal(mach_dom); reveal(linked);
    secs_are(mg(a), a.imps());
}
/// file offsets of contents and relocations
pub proof fn sums<'a>(m: &Mach<'a>, a: &Artifact, k: int)
    requires mdone(m, a), 0 <= k <= ms(a).len(),
    ensures sum(m.segment.sections@.take(k), fsz()) == mfoff(ms(a), k), sum(m.segment.sections@.take(k), fnr()) == 8 * reltot(mx(a), ms(a), a.flinks(), a.flinks().len() as int, k),
        m.segment.sections@.take(ms(a).len() as int) == m.segment.sections@,
    decreases k,
{
    done_is(m, a);
    let e = m.segment.sections@;
    assert(e.take(ms(a).len() as int) =~= e);
    sum_room(e, if k > 0 { k - 1 } else { 0 });
    assert(ms(a).take(0) =~= Seq::empty());
    if k > 0 { sums(m, a, k - 1); done_sec(m, a, k - 1); assert(ms(a).take(k).drop_last() =~= ms(a).take(k - 1)); }
}
/// section i has room in memory
pub proof fn sec_room(a: &Artifact, i: int)
    requires mready(a), 0 <= i < ms(a).len(),
    ensures 0 <= maddr(ms(a), i), 0 <= ms(a)[i].size, maddr(ms(a), i) + ms(a)[i].size <= mend(ms(a), ms(a).len() as int) < mlim(), maddr(ms(a), i) + ms(a)[i].size == mend(ms(a), i + 1), ms(a)[i].align > 0,
        maddr(ms(a), i) % ms(a)[i].align == 0, 0 <= mfoff(ms(a), i), mfoff(ms(a), i + 1) == mfoff(ms(a), i) + mfile(ms(a)[i]) <= mfoff(ms(a), ms(a).len() as int), secs_ok(ms(a)),
        forall|j: int| i < j < ms(a).len() ==> maddr(ms(a), i) + ms(a)[i].size <= #[trigger] maddr(ms(a), j),
{
    reveal(mach_dom);
    secs_are(mg(a), a.imps());
    let s = ms(a);
    let n = s.len() as int;
    reveal(seg_room);
    mend_mono(s, i, n);
    mend_mono(s, i + 1, n);
    up_lemma(mend(s, i), s[i].align);
    assert forall|j: int| i < j < n implies maddr(s, i) + s[i].size <= #[trigger] maddr(s, j) by { mend_mono(s, i, j); mend_mono(s, j, n); mend_mono(s, i + 1, j); }
}

// ---------------------------------------------------------------- a finished Mach can be written
pub proof fn sect_of_std(g: Seq<Seq<DefV>>, k: int, p: int)
    requires 0 <= k <= 4, 0 <= p < stdsyms(g, k).len(),
    ensures 1 <= stdsyms(g, k)[p].sect <= k,
    decreases k,
{
    if k > 0 {
        let n = stdsyms(g, k - 1).len();
        if p < n { sect_of_std(g, k - 1, p); assert(stdsyms(g, k)[p] == stdsyms(g, k - 1)[p]); }
    }
}
pub proof fn sect_of_cus(g: Seq<Seq<DefV>>, k: int, p: int)
    requires 0 <= k, 0 <= p < cusyms(g, k).len(),
    ensures 1 <= cusyms(g, k)[p].sect <= 4 + k,
    decreases k,
{
    if k > 0 {
        let n = cusyms(g, k - 1).len();
        if p < n { sect_of_cus(g, k - 1, p); assert(cusyms(g, k)[p] == cusyms(g, k - 1)[p]); }
    } else { sect_of_std(g, 4, p); }
}
pub proof fn sect_of(a: &Artifact, p: int)
    requires 0 <= p < mx(a).len(),
    ensures 0 <= mx(a)[p].sect <= 4 + mg(a)[4].len(), mx(a)[p].sect == 0 ==> mx(a)[p].value == 0,
{
    let g = mg(a);
    let n = cusyms(g, g[4].len() as int).len();
    if p < n { sect_of_cus(g, g[4].len() as int, p); assert(mx(a)[p] == cusyms(g, g[4].len() as int)[p]); }
    else { assert(mx(a)[p] == isyms(a.imps())[p - n]); }
}
pub proof fn name_len(a: &Artifact, i: int)
    requires mready(a), 0 <= i < ms(a).len(),
    ensures utf8(ms(a)[i].name).len() <= 16, utf8(ms(a)[i].seg).len() <= 16,
{
    reveal(mach_dom);
    secs_are(mg(a), a.imps());
    reveal_strlit("__TEXT"); reveal_strlit("__DATA"); reveal_strlit("__DWARF");
    short("__TEXT"@, 6); short("__DATA"@, 6); short("__DWARF"@, 7);
}
/// ASCII takes a byte per character
pub proof fn short(s: Seq<char>, n: int)
    requires s.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 128,
    ensures utf8(s).len() == n,
{
    assert(vstd::utf8::is_ascii_chars(s));
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
pub proof fn done_write<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mwritable(m),
{
    done_is(m, a);
    let n = ms(a).len() as int;
    let c = m.ctx;
    let e = m.segment.sections@;
    sums(m, a, n);
    reltot_most(mx(a), ms(a), a.flinks(), a.flinks().len() as int, n);
    assert(mach_cpu(m.architecture) is Some && n <= 255 && msize(a) < lim()) by { reveal(mach_dom); }
    assert forall|i: int| 0 <= i < nsec(m) implies wsec(#[trigger] e[i], c) by {
        done_sec(m, a, i);
        name_len(a, i);
        sec_room(a, i);
        reveal(mach_dom);
    }
    assert forall|i: int| 0 <= i < m.symtab.syms().len() implies wsym(#[trigger] m.symtab.syms()[i], c) by { sect_of(a, i); reveal(mach_dom); }
    assert(c.big() || m.segment.size < lim()) by { reveal(mach_dom); }
    let pm = padst(mg(a), 4);
    assert forall|k: int| k == 0 || k == 1 || k == 2 || k == 4 implies #[trigger] wdefs(pm, mg(a)[k], true) by {
        assert forall|i: int| 0 <= i < mg(a)[k].len() implies wdef(pm, #[trigger] mg(a)[k][i]) && mg(a)[k][i].data is Blob by { pad_of(a, k, i); kind_at(a, k, i); }
    }
    assert(wdefs(pm, mg(a)[1], false)) by { assert forall|i: int| 0 <= i < mg(a)[1].len() implies wdef(pm, #[trigger] mg(a)[1][i]) by { pad_of(a, 1, i); } }
    let w = nlsize(c.container);
    let x = mx(a).len() as int;
    assert(x * w <= 16 * x) by (nonlinear_arith) requires x >= 0, w <= 16;
    let z = msectsize(c.container);
    assert(z * n <= 80 * n) by (nonlinear_arith) requires n >= 0, z <= 80;
    reveal(mwritable);
}

// ---------------------------------------------------------------- the parts of the file
pub proof fn sub_pre(b: Seq<u8>, t: Seq<u8>, off: int, x: Seq<u8>)
    requires sub_is(b, off, x),
    ensures sub_is(b + t, off, x),
{
    assert((b + t).subrange(off, off + x.len() as int) =~= b.subrange(off, off + x.len() as int));
}
pub proof fn sub_end(b: Seq<u8>, x: Seq<u8>)
    ensures sub_is(b + x, b.len() as int, x),
{
    assert((b + x).subrange(b.len() as int, b.len() as int + x.len() as int) =~= x);
}
/// what is at a place of an early stage stays there
pub open spec fn kept(b: Seq<u8>, d: Seq<u8>) -> bool { b.len() <= d.len() && forall|off: int, x: Seq<u8>| #[trigger] sub_is(b, off, x) ==> sub_is(d, off, x) }
pub proof fn kept_more(b: Seq<u8>, t: Seq<u8>)
    ensures kept(b, b + t),
{
    assert forall|off: int, x: Seq<u8>| #[trigger] sub_is(b, off, x) implies sub_is(b + t, off, x) by { sub_pre(b, t, off, x); }
}
/// the first stages: header, commands
pub proof fn stages1<'a>(m: &Mach<'a>)
    requires mwritable(m),
    ensures ({
        let c = m.ctx;
        let h = mhsize(c.container);
        &&& sub_is(w4(m), 0, enc_mh(mheader(c, m.architecture, cmdsize(m) + 24), c)) && sub_is(w4(m), h, enc_mseg(segv(m), c))
        &&& sub_is(w4(m), h + msegsize(c.container), cat(msecvs(m), fmsect(c))) && sub_is(w4(m), h + cmdsize(m), enc_symtab(symcmd(m), c.le))
        &&& w4(m).len() == m_cont(m)
    }),
{
    broadcast use {enc_mh_len, enc_mseg_len, enc_msect_len, enc_symtab_len};
    reveal(w4); reveal(w2);
    let c = m.ctx;
    let x0 = enc_mh(mheader(c, m.architecture, cmdsize(m) + 24), c);
    let x1 = enc_mseg(segv(m), c);
    let x2 = cat(msecvs(m), fmsect(c));
    let x3 = enc_symtab(symcmd(m), c.le);
    cat_width(msecvs(m), fmsect(c), msectsize(c.container));
    assert(w4(m) == x0 + x1 + x2 + x3);
    sub_end(Seq::empty(), x0);
    assert(Seq::<u8>::empty() + x0 =~= x0);
    sub_pre(x0, x1, 0, x0); sub_pre(x0 + x1, x2, 0, x0); sub_pre(x0 + x1 + x2, x3, 0, x0);
    sub_end(x0, x1); sub_pre(x0 + x1, x2, x0.len() as int, x1); sub_pre(x0 + x1 + x2, x3, x0.len() as int, x1);
    sub_end(x0 + x1, x2); sub_pre(x0 + x1 + x2, x3, (x0 + x1).len() as int, x2);
    sub_end(x0 + x1 + x2, x3);
}
/// the bytes of each kind, and where they start
pub open spec fn wpart<'a>(m: &Mach<'a>, a: &Artifact, k: int) -> Seq<u8> { cat(mg(a)[k], fpad(padst(mg(a), 4), if k == 0 { 0xcc } else { 0xaa })) }
pub open spec fn wbase<'a>(m: &Mach<'a>, a: &Artifact, k: int) -> int { m_cont(m) + mfoff(ms(a), k) }
pub proof fn part_bytes(a: &Artifact, m: &Mach<'_>)
    requires mdone(m, a),
    ensures wpart(m, a, 0).len() == mfoff(ms(a), 1), wpart(m, a, 1).len() == mfoff(ms(a), 2) - mfoff(ms(a), 1), wpart(m, a, 2).len() == mfoff(ms(a), 3) - mfoff(ms(a), 2), mfoff(ms(a), 4) == mfoff(ms(a), 3), mfoff(ms(a), 0) == 0,
        wpart(m, a, 4).len() == mfoff(ms(a), ms(a).len() as int) - mfoff(ms(a), 4),
{
    done_is(m, a);
    stage0(mg(a));
    assert forall|k: int| 0 <= k < 3 implies wpart(m, a, k).len() == #[trigger] gsize(mg(a)[k], smin(k)) by { let g = mg(a)[k]; cat_grp(a, k, g.len() as int, if k == 0 { 0xcc } else { 0xaa }); cat_all(g, fpad(padst(mg(a), 4), if k == 0 { 0xcc } else { 0xaa })); }
    stage(mg(a), a.imps(), 0, 0); stage(mg(a), a.imps(), 1, 0); stage(mg(a), a.imps(), 2, 0); stage(mg(a), a.imps(), 3, 0);
    assert(wpart(m, a, 0).len() == gsize(mg(a)[0], smin(0)) && wpart(m, a, 1).len() == gsize(mg(a)[1], smin(1)) && wpart(m, a, 2).len() == gsize(mg(a)[2], smin(2)));
    let g = mg(a)[4];
    cat_cus(a, g.len() as int, 0xaa);
    cat_all(g, fpad(padst(mg(a), 4), 0xaa));
}
pub proof fn stages2<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a), mwritable(m),
    ensures kept(w4(m), w8(m)), w8(m).len() == m_sym(m), forall|k: int| k == 0 || k == 1 || k == 2 || k == 4 ==> sub_is(w8(m), #[trigger] wbase(m, a, k), wpart(m, a, k)),
{
    done_is(m, a);
    stages1(m);
    part_bytes(a, m);
    let n = ms(a).len() as int;
    sums(m, a, n);
    reveal(w5); reveal(w6); reveal(w7); reveal(w8);
    let y0 = wpart(m, a, 0); let y1 = wpart(m, a, 1); let y2 = wpart(m, a, 2); let y4 = wpart(m, a, 4);
    assert(w5(m) == w4(m) + y0 && w6(m) == w5(m) + y1 && w7(m) == w6(m) + y2 && w8(m) == w7(m) + y4);
    kept_more(w4(m), y0); kept_more(w5(m), y1); kept_more(w6(m), y2); kept_more(w7(m), y4);
    sub_end(w4(m), y0); sub_end(w5(m), y1); sub_end(w6(m), y2); sub_end(w7(m), y4);
    assert(wbase(m, a, 0) == w4(m).len() && wbase(m, a, 1) == w5(m).len() && wbase(m, a, 2) == w6(m).len() && wbase(m, a, 4) == w7(m).len());
}
pub proof fn stages3<'a>(m: &Mach<'a>)
    requires mwritable(m), w8(m).len() == m_sym(m),
    ensures kept(w8(m), mimage(m)), sub_is(mimage(m), m_sym(m), cat(nls(m.symtab.syms()), fnl(m.ctx))), sub_is(mimage(m), m_str(m), mstrtab(m.symtab.syms())), sub_is(mimage(m), m_rel(m), cat(m.segment.sections@, fsecrel(m.ctx.le))),
        mimage(m).len() == m_end(m),
{
    broadcast use enc_nlist_len;
    let c = m.ctx;
    let x = m.symtab.syms();
    let e = m.segment.sections@;
    moffs(m);
    let z1 = cat(nls(x), fnl(c));
    let z2 = mstrtab(x);
    let z3 = cat(e, fsecrel(c.le));
    cat_width(nls(x), fnl(c), nlsize(c.container));
    assert(x.len() * nlsize(c.container) == nlsize(c.container) * x.len()) by (nonlinear_arith);
    reveal(w9); reveal(w10); reveal(w11); reveal(mimage);
    assert(w10(m) =~= w9(m) + z2);
    kept_more(w8(m), z1); kept_more(w9(m), z2); kept_more(w10(m), z3); kept_more(w11(m), seq![0u8]);
    sub_end(w8(m), z1); sub_end(w9(m), z2); sub_end(w10(m), z3);
    rel_bytes(e, c.le, e.len() as int);
    cat_all(e, fsecrel(c.le));
    assert(e.take(e.len() as int) =~= e);
}
/// the entries of the first k sections take 8 bytes each
pub proof fn rel_bytes(e: Seq<(Seq<char>, SectionBuilder)>, le: Endian, k: int)
    requires 0 <= k <= e.len(),
    ensures catoff(e, fsecrel(le), k) == sum(e.take(k), fnr()),
    decreases k,
{
    broadcast use enc_rinfo_len;
    cat_all(e, fsecrel(le));
    sum_room(e, 0);
    if k > 0 {
        rel_bytes(e, le, k - 1);
        cat_take(e, k - 1, fsecrel(le));
        sum_room(e, k - 1);
        cat_width(e[k - 1].1.relocations@, frinfo(le), 8);
    }
}

// ---------------------------------------------------------------- multiples of powers of two
pub proof fn mod_mod(x: int, a: int, b: int)
    requires a > 0, b > 0, x % a == 0, a % b == 0,
    ensures x % b == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    let q = (a / b) * (x / a);
    assert(x == q * b) by (nonlinear_arith) requires x == a * (x / a), a == b * (a / b), q == (a / b) * (x / a);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, b);
}
pub proof fn add_mod(x: int, y: int, b: int)
    requires b > 0, x % b == 0, y % b == 0,
    ensures (x + y) % b == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, b);
    let q = x / b + y / b;
    assert(x + y == q * b) by (nonlinear_arith) requires x == b * (x / b), y == b * (y / b), q == x / b + y / b;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, b);
}
pub proof fn pow2_div(m: nat, n: nat)
    requires m <= n,
    ensures pow2(n) % pow2(m) == 0, pow2(m) >= 1,
    decreases n,
{
    pow2_pos(m); pow2_pos(n);
    if m < n { pow2_div(m, (n - 1) as nat); add_mod(pow2((n - 1) as nat), pow2((n - 1) as nat), pow2(m)); }
    else { vstd::arithmetic::div_mod::lemma_mod_self_0(pow2(m)); }
}
/// a larger power of two is a multiple of a smaller one
pub proof fn two_div(a: int, b: int)
    requires is_pow2(a), is_pow2(b), a <= b,
    ensures b % a == 0, a > 0,
{
    let m = choose|n: nat| n < 64 && a == #[trigger] pow2(n);
    let n = choose|n: nat| n < 64 && b == #[trigger] pow2(n);
    if n < m { pow2_strict(n, m); }
    pow2_div(m, n);
}
pub proof fn smin_two(k: int)
    ensures is_pow2(smin(k)),
{
    pow2_64();
    assert(smin(k) == pow2(4) || smin(k) == pow2(3) || smin(k) == pow2(0));
}
pub proof fn galign_two(g: Seq<DefV>, m: int)
    requires stdgrp(g), is_pow2(m),
    ensures is_pow2(galign(g, m)), galign(g, m) >= m, forall|j: int| 0 <= j < g.len() ==> dal(#[trigger] g[j]) <= galign(g, m),
    decreases g.len(),
{
    if g.len() > 0 {
        let t = g.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies mkind(#[trigger] t[i]) != 4 && is_pow2(dal(t[i])) by { assert(t[i] == g[i]); }
        galign_two(t, m);
        assert(is_pow2(dal(g[g.len() - 1])));
        assert forall|j: int| 0 <= j < g.len() implies dal(#[trigger] g[j]) <= galign(g, m) by { if j < t.len() { assert(t[j] == g[j]); } }
    }
}
/// a definition's address is a multiple of its alignment and of the section's minimum
pub proof fn gat_aligned(a: &Artifact, k: int, j: int)
    requires mready(a), 0 <= k < 4, 0 <= j < mg(a)[k].len(),
    ensures ({
        let al = dal(mg(a)[k][j]);
        &&& (maddr(ms(a), k) + gat(a, k, j)) % al == 0 && (maddr(ms(a), k) + gat(a, k, j)) % smin(k) == 0
        &&& ms(a)[k].align >= al && ms(a)[k].align >= smin(k)
    }),
{
    grp_is(a, k);
    let g = mg(a)[k];
    let m = smin(k);
    let al = dal(g[j]);
    smin_two(k);
    galign_two(g, m);
    assert(is_pow2(al));
    sec_room(a, k);
    let s = ms(a)[k].align;
    assert(s == galign(g, m));
    two_div(al, s);
    two_div(m, s);
    mod_mod(maddr(ms(a), k), s, al);
    mod_mod(maddr(ms(a), k), s, m);
    let r = gat(a, k, j);
    let n = max(m, al);
    assert(r % n == 0) by {
        if j > 0 { gat_in(a, k, j - 1); up_lemma(gat(a, k, j - 1) + dmem(g[j - 1].data), n); }
        else { assert(r == 0); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(0, n); }
    }
    two_div(al, n);
    two_div(m, n);
    mod_mod(r, n, al);
    mod_mod(r, n, m);
    add_mod(maddr(ms(a), k), r, al);
    add_mod(maddr(ms(a), k), r, m);
}

// ---------------------------------------------------------------- the bytes of a written object say it
pub open spec fn mv<'a>(m: &Mach<'a>) -> MachV {
    MachV { hdr: mheader(m.ctx, m.architecture, cmdsize(m) + 24), seg: segv(m), secs: msecvs(m), st: symcmd(m), syms: nls(m.symtab.syms()), tab: mstrtab(m.symtab.syms()), rels: Seq::new(m.segment.sections@.len(), |i: int| m.segment.sections@[i].1.relocations@) }
}
/// a written object's section i
pub proof fn mv_sec<'a>(m: &Mach<'a>, a: &Artifact, i: int)
    requires mdone(m, a), 0 <= i < ms(a).len(),
    ensures ({
        let s = mv(m).secs[i];
        let y = ms(a)[i];
        &&& mv(m).secs.len() == ms(a).len() && mv(m).rels.len() == ms(a).len()
        &&& s.sectname == name16(y.name) && s.segname == name16(y.seg) && s.flags == y.flags && s.addr == maddr(ms(a), i) && s.size == y.size && s.align < 64 && pow2(s.align as nat) == y.align
        &&& s.offset == m_cont(m) + mfoff(ms(a), i) && mflen(s) == mfile(y)
        &&& mv(m).rels[i] == minfos(mrels(mx(a), ms(a), a.flinks(), a.flinks().len() as int, i)) && s.nreloc == mv(m).rels[i].len()
        &&& s.nreloc == 0 ==> s.reloff == 0
        &&& s.nreloc > 0 ==> s.reloff == m_rel(m) + sum(m.segment.sections@.take(i), fnr())
        &&& m_rel(m) + sum(m.segment.sections@.take(i + 1), fnr()) == m_rel(m) + sum(m.segment.sections@.take(i), fnr()) + 8 * s.nreloc < m_end(m)
    }),
{
    done_is(m, a);
    done_sec(m, a, i);
    done_write(m, a);
    moffs(m);
    wsec_at(m, i);
    sums(m, a, i);
    sec_room(a, i);
    sum_room(m.segment.sections@, i);
    reveal(mwritable);
}
pub proof fn mv_encodes<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mencodes(mimage(m), ctx_of(&a.target), mv(m)),
{
    broadcast use {enc_msect_len, enc_nlist_len, enc_rinfo_len};
    done_is(m, a);
    done_write(m, a);
    moffs(m);
    stages1(m);
    stages2(m, a);
    stages3(m);
    let b = mimage(m);
    let c = m.ctx;
    let v = mv(m);
    let h = mhsize(c.container);
    let w = msectsize(c.container);
    let n = v.secs.len() as int;
    assert(sub_is(w8(m), 0, enc_mh(v.hdr, c)) && sub_is(w8(m), h, enc_mseg(v.seg, c)) && sub_is(w8(m), h + cmdsize(m), enc_symtab(v.st, c.le)) && sub_is(w8(m), h + msegsize(c.container), cat(msecvs(m), fmsect(c))));
    assert forall|i: int| 0 <= i < n implies sub_is(b, h + msegsize(c.container) + w * i, enc_msect(#[trigger] v.secs[i], c)) by { item(b, h + msegsize(c.container), msecvs(m), fmsect(c), w, i); }
    assert forall|i: int| 0 <= i < v.syms.len() implies sub_is(b, v.st.symoff + nlsize(c.container) * i, enc_nlist(#[trigger] v.syms[i], c)) by { item(b, m_sym(m), nls(m.symtab.syms()), fnl(c), nlsize(c.container), i); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] v.secs[i]).nreloc == v.rels[i].len() by { mv_sec(m, a, i); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < v.rels[i].len() implies sub_is(b, v.secs[i].reloff + 8 * j, enc_rinfo(#[trigger] v.rels[i][j], c.le)) by {
        mv_sec(m, a, i);
        let e = m.segment.sections@;
        let f = fsecrel(c.le);
        cat_at(e, f, i);
        rel_bytes(e, c.le, i);
        assert(sub_is(cat(e, f), catoff(e, f, i), cat(e[i].1.relocations@, frinfo(c.le))));
        sub_sub(b, m_rel(m), cat(e, f), catoff(e, f, i), cat(e[i].1.relocations@, frinfo(c.le)));
        item(b, v.secs[i].reloff as int, e[i].1.relocations@, frinfo(c.le), 8, j);
    }
}
pub proof fn mv16<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp16(a, mimage(m), mv(m)),
{
    done_is(m, a);
    done_write(m, a);
    stages2(m, a);
    let v = mv(m);
    let g = mg(a);
    secs_are(g, a.imps());
    assert forall|k: int| 0 <= k < 4 implies (#[trigger] v.secs[k]).sectname == name16(sname(k)) && v.secs[k].segname == name16(sseg(k)) && v.secs[k].flags == sflags(k) by { mv_sec(m, a, k); grp_is(a, k); }
    assert forall|i: int| 0 <= i < a.defs().len() implies placed(a, mimage(m), v, mkind(#[trigger] a.defs()[i]), pix(a.defs(), i), a.defs()[i]) by {
        part_at(a.defs(), i);
        placed_at(m, a, mkind(a.defs()[i]), pix(a.defs(), i));
    }
    assert forall|k: int, i: int, j: int| 0 <= k < 4 && 0 <= i < j < g[k].len() implies #[trigger] gat(a, k, i) + dmem(g[k][i].data) <= #[trigger] gat(a, k, j) by { grp_is(a, k); roff_mono(g[k], smin(k), i, j); }
}
pub proof fn placed_at<'a>(m: &Mach<'a>, a: &Artifact, k: int, j: int)
    requires mdone(m, a), 0 <= k <= 4, 0 <= j < mg(a)[k].len(),
    ensures placed(a, mimage(m), mv(m), k, j, mg(a)[k][j]),
{
    done_is(m, a);
    done_write(m, a);
    stages2(m, a);
    stages3(m);
    let b = mimage(m);
    kind_at(a, k, j);
    if k < 4 { mv_sec(m, a, k); gat_in(a, k, j); }
    else { mv_sec(m, a, 4 + j); secs_are(mg(a), a.imps()); }
    if k != 3 {
        let y = wpart(m, a, k);
        assert(sub_is(b, wbase(m, a, k), y));
        blob_in(a, k, j, if k == 0 { 0xcc } else { 0xaa });
        sub_sub(b, wbase(m, a, k), y, if k < 3 { gat(a, k, j) } else { mfoff(ms(a), 4 + j) - mfoff(ms(a), 4) }, mg(a)[k][j].data->Blob_0);
    }
}
pub proof fn mv17<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp17(a, mv(m)),
{
    done_is(m, a);
    let v = mv(m);
    let g = mg(a);
    secs_are(g, a.imps());
    assert forall|i: int| 0 <= i < v.secs.len() implies (#[trigger] v.secs[i]).align < 64 && v.secs[i].addr as int % pow2(v.secs[i].align as nat) == 0 by { mv_sec(m, a, i); sec_room(a, i); }
    assert forall|k: int, j: int| 0 <= k < 4 && 0 <= j < g[k].len() implies aligned(v.secs[k], k, #[trigger] gat(a, k, j), dal(g[k][j])) by { mv_sec(m, a, k); gat_aligned(a, k, j); }
    assert forall|j: int| 0 <= j < g[4].len() implies pow2(v.secs[4 + j].align as nat) == dal(#[trigger] g[4][j]) by { mv_sec(m, a, 4 + j); }
}
pub proof fn mv18<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp18(a, mv(m)),
{
    done_is(m, a);
    done_write(m, a);
    let v = mv(m);
    let x = mx(a);
    assert forall|p: int| 0 <= p < x.len() implies #[trigger] v.syms[p] == nlist(x[p], v.syms[p].n_strx as int) by {}
    assert forall|i: int| 0 <= i < v.secs.len() implies (#[trigger] v.secs[i]).addr == maddr(ms(a), i) by { mv_sec(m, a, i); }
    assert forall|k: int, j: int| 0 <= k < 4 && 0 <= j < mg(a)[k].len() implies defentry(v, k, #[trigger] gix(a, k, j), gat(a, k, j), mg(a)[k][j]) by { gsym_in(a, k, j); mv_sec(m, a, k); gat_in(a, k, j); sec_room(a, k); }
    assert forall|p: int, q: int| 0 <= p < q < x.len() implies (#[trigger] x[p]).name != (#[trigger] x[q]).name by { sym_in(a, p); sym_in(a, q); }
}
pub proof fn mv19<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp19(a, mv(m)),
{
    done_is(m, a);
    done_write(m, a);
    moffs(m);
    let v = mv(m);
    let x = mx(a);
    let f = fmstr();
    let n = mnames(x);
    assert forall|p: int| 0 <= p < x.len() implies sub_is(v.tab, #[trigger] v.syms[p].n_strx as int, seq![0x5fu8] + utf8(x[p].name) + seq![0u8]) by {
        wsym_at(m, p);
        cat_at(n, f, p);
        let t = cat(n, f);
        assert(sub_is(t, catoff(n, f, p), f(n[p])));
        assert(v.tab == seq![0u8] + t);
        sub_end(seq![0u8], t);
        sub_sub(v.tab, 1, t, catoff(n, f, p), f(n[p]));
    }
    cat_all(n, f);
    if x.len() > 0 { assert(cat(n, f) == cat(n.drop_last(), f) + (seq![0x5fu8] + utf8(n.last()) + seq![0u8])); }
}
pub proof fn mv15<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp15(a, mv(m)), mp20(a, mv(m)),
{
    done_is(m, a);
    let v = mv(m);
    assert(mach_cpu(a.target.architecture) is Some) by { reveal(mach_dom); }
    assert forall|i: int| 0 <= i < ms(a).len() implies #[trigger] v.rels[i] == minfos(mrels(mx(a), ms(a), a.flinks(), a.flinks().len() as int, i)) by { mv_sec(m, a, i); }
}
/// the sections' places
pub proof fn mv_secs<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures ({
        let v = mv(m);
        let n = v.secs.len() as int;
        &&& n == ms(a).len() && n >= 4 && v.secs[0].offset == m_cont(m) && v.secs[n - 1].offset + mflen(v.secs[n - 1]) == m_sym(m) && m_sym(m) == m_cont(m) + mfoff(ms(a), n)
        &&& forall|i: int| 0 <= i < n - 1 ==> (#[trigger] v.secs[i]).offset + mflen(v.secs[i]) == v.secs[i + 1].offset
        &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] v.secs[i]).addr + v.secs[i].size <= (#[trigger] v.secs[j]).addr
    }),
{
    hide(mv); hide(mlim); hide(mhsize);
    done_is(m, a);
    let v = mv(m);
    let n = ms(a).len() as int;
    sums(m, a, n);
    mv_sec(m, a, 0); mv_sec(m, a, n - 1); sec_room(a, n - 1); stage0(mg(a));
    assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] v.secs[i]).offset + mflen(v.secs[i]) == v.secs[i + 1].offset by { mv_sec(m, a, i); mv_sec(m, a, i + 1); sec_room(a, i); }
    assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] v.secs[i]).addr + v.secs[i].size <= (#[trigger] v.secs[j]).addr by { mv_sec(m, a, i); mv_sec(m, a, j); sec_room(a, i); }
}
pub open spec fn sec_in<'a>(m: &Mach<'a>, s: MSectV) -> bool {
    &&& m_cont(m) <= s.offset && s.offset + mflen(s) <= m_sym(m) && s.addr + s.size <= m.segment.size
    &&& s.nreloc == 0 ==> s.reloff == 0
    &&& s.nreloc > 0 ==> m_rel(m) <= s.reloff && s.reloff + 8 * s.nreloc <= m_end(m)
}
pub proof fn mv_inside<'a>(m: &Mach<'a>, a: &Artifact, i: int)
    requires mdone(m, a), 0 <= i < ms(a).len(),
    ensures sec_in(m, mv(m).secs[i]), forall|j: int| i < j < ms(a).len() && mv(m).secs[i].nreloc > 0 && (#[trigger] mv(m).secs[j]).nreloc > 0 ==> mv(m).secs[i].reloff + 8 * mv(m).secs[i].nreloc <= mv(m).secs[j].reloff,
{
    hide(mv); hide(mlim); hide(mhsize);
    done_is(m, a);
    let n = ms(a).len() as int;
    let v = mv(m);
    let e = m.segment.sections@;
    sums(m, a, n);
    mv_sec(m, a, i);
    sec_room(a, i);
    sum_room(e, i);
    assert forall|j: int| i < j < ms(a).len() && v.secs[i].nreloc > 0 && (#[trigger] v.secs[j]).nreloc > 0 implies v.secs[i].reloff + 8 * v.secs[i].nreloc <= v.secs[j].reloff by { mv_sec(m, a, j); sums_mono(e, i + 1, j); }
}
/// the commands
pub proof fn mv_cmds<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures ({
        let c = ctx_of(&a.target);
        let v = mv(m);
        let sc = msegsize(c.container) + msectsize(c.container) * v.secs.len();
        &&& c == m.ctx && sc == cmdsize(m) && v.secs.len() == nsec(m) && v.hdr == mheader(c, a.target.architecture, v.hdr.sizeofcmds as int) && v.hdr.sizeofcmds == sc + 24
        &&& v.seg.cmd == (if c.big() { 0x19u32 } else { 1u32 }) && v.seg.cmdsize == sc && v.seg.nsects == v.secs.len() && v.st.cmd == 2 && v.st.cmdsize == 24
        &&& v.seg.fileoff == m_cont(m) && m_cont(m) == mhsize(c.container) + sc + 24 && v.seg.fileoff + v.seg.filesize == v.st.symoff && v.st.symoff == m_sym(m) && v.st.symoff + nlsize(c.container) * v.st.nsyms == v.st.stroff && v.st.stroff + v.st.strsize == m_rel(m)
        &&& m_rel(m) <= m_end(m) && v.seg.vmaddr == 0 && v.seg.vmsize == m.segment.size
    }),
{
    done_is(m, a);
    done_write(m, a);
    moffs(m);
    assert(m.symtab.syms().len() * nlsize(m.ctx.container) == nlsize(m.ctx.container) * m.symtab.syms().len()) by (nonlinear_arith);
}
pub proof fn mv21<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp21(a, mimage(m), mv(m)),
{
    hide(mv); hide(mlim); hide(mhsize); hide(m_cont); hide(m_sym); hide(m_rel); hide(m_end); hide(cmdsize); hide(mwritable);
    let v = mv(m);
    let n = v.secs.len() as int;
    let b = mimage(m);
    assert(b.len() == m_end(m)) by { done_write(m, a); stages2(m, a); stages3(m); }
    mv_cmds(m, a);
    mv_secs(m, a);
    assert forall|i: int| 0 <= i < n implies secs_inside(v, b, #[trigger] v.secs[i]) by { mv_inside(m, a, i); }
    assert forall|i: int, j: int| 0 <= i < j < n && (#[trigger] v.secs[i]).nreloc > 0 && (#[trigger] v.secs[j]).nreloc > 0 implies v.secs[i].reloff + 8 * v.secs[i].nreloc <= v.secs[j].reloff by { mv_inside(m, a, i); }
}
pub proof fn sums_mono(e: Seq<(Seq<char>, SectionBuilder)>, i: int, j: int)
    requires 0 <= i <= j <= e.len(),
    ensures sum(e.take(i), fnr()) <= sum(e.take(j), fnr()),
    decreases j,
{
    if i < j { sums_mono(e, i, j - 1); sum_room(e, j - 1); }
}
#[verifier::spinoff_prover]
pub proof fn mv22<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mp22(a, mv(m)),
{
    hide(mv); hide(mlim); hide(mhsize); hide(m_cont); hide(m_sym);
    done_is(m, a);
    let v = mv(m);
    let z = mg(a)[3];
    mv_cmds(m, a);
    mv_secs(m, a);
    mv_sec(m, a, 3);
    grp_is(a, 3);
    sec_room(a, 3);
    assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).data is Zero && 0 <= gat(a, 3, j) && gat(a, 3, j) + z[j].data->Zero_0 <= v.secs[3].size && (v.secs[3].addr + gat(a, 3, j)) % dal(z[j]) == 0 by { kind_at(a, 3, j); gat_in(a, 3, j); gat_aligned(a, 3, j); }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies #[trigger] gat(a, 3, i) + z[i].data->Zero_0 <= #[trigger] gat(a, 3, j) by { kind_at(a, 3, i); roff_mono(z, smin(3), i, j); }
    assert forall|i: int| 0 <= i < v.secs.len() implies (#[trigger] v.secs[i]).offset == v.seg.fileoff + mfoff(ms(a), i) by { mv_sec(m, a, i); }
}
pub proof fn mach_conclude<'a>(m: &Mach<'a>, a: &Artifact)
    requires mdone(m, a),
    ensures mach_object(a, mimage(m)),
{
    hide(mencodes); hide(mp15); hide(mp16); hide(mp17); hide(mp18); hide(mp19); hide(mp20); hide(mp21); hide(mp22);
    mv_encodes(m, a); mv16(m, a); mv17(m, a); mv18(m, a); mv19(m, a); mv15(m, a); mv21(m, a); mv22(m, a);
    assert(mobject_of(a, mimage(m), mv(m)));
}
}
