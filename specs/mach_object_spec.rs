pub mod mach_object_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::seq_spec::*;
use crate::elf_spec::lim;
use crate::target_spec::*;
use crate::mach::*;
use crate::mach_spec::*;
use crate::goblin::container::{Ctx, Endian};
use crate::target_lexicon::*;
// What a Mach-O object has to say about an artifact, and that Mach says it.

pub open spec fn mg(a: &Artifact) -> Seq<Seq<DefV>> { groups(a.defs()) }
/// the sections of an artifact
pub open spec fn ms(a: &Artifact) -> Seq<MSec> { msecs(mg(a)) }
/// the symbols of an artifact
pub open spec fn mx(a: &Artifact) -> Seq<MSym> { allms(mg(a), a.imps()) }
pub open spec fn msize(a: &Artifact) -> int {
    let c = ctx_of(&a.target).container;
    crate::goblin::mach::header::mhsize(c) + crate::goblin::mach::segment::msegsize(c) + 80 * ms(a).len() + 24 + mfoff(ms(a), ms(a).len() as int) + 16 * mx(a).len() + mstrtab(mx(a)).len() + 8 * a.flinks().len() + 1
}
/// the artifacts whose Mach-O objects are specified
#[verifier::opaque]
pub open spec fn mach_dom(a: &Artifact) -> bool {
    &&& mach_cpu(a.target.architecture) is Some
    // no two sections, and no two symbols, have the same name; alignments are powers of two
    &&& seg_room(mg(a), a.imps())
    // the names of sections have 16 bytes, their ordinals one
    &&& ms(a).len() <= 255 && forall|i: int| 0 <= i < ms(a).len() ==> utf8((#[trigger] ms(a)[i]).name).len() <= 16
    // links with a documented meaning
    &&& forall|i: int| 0 <= i < a.flinks().len() ==> mlink_ok(#[trigger] a.flinks()[i]) && (emits(a.flinks()[i]) ==> 0 <= mrel(mx(a), ms(a), a.flinks()[i]).addr < 0x8000_0000)
    // the format's integers can hold the values
    &&& mx(a).len() < 0x100_0000 && msize(a) < lim()
    &&& ctx_of(&a.target).container == crate::goblin::container::Container::Big || (mend(ms(a), ms(a).len() as int) < lim() && forall|p: int| 0 <= p < mx(a).len() ==> (#[trigger] mx(a)[p]).value < lim())
}
pub open spec fn mready(a: &Artifact) -> bool { a.wf() && undef(a.decls()).len() == 0 && mach_dom(a) }

// ---------------------------------------------------------------- the parts of the definitions
pub proof fn part_step(d: Seq<DefV>, i: int)
    requires 0 <= i < d.len(),
    ensures forall|k: int| #[trigger] part(d.take(i + 1), k) == (if mkind(d[i]) == k { part(d.take(i), k).push(d[i]) } else { part(d.take(i), k) }),
{
    assert(d.take(i + 1).drop_last() =~= d.take(i));
}
pub proof fn part_all(d: Seq<DefV>)
    ensures d.take(d.len() as int) == d, forall|k: int| #[trigger] part(d.take(0), k) == Seq::<DefV>::empty(),
{
    assert(d.take(d.len() as int) =~= d);
    assert(d.take(0) =~= Seq::empty());
}
pub open spec fn parted<'a>(c: Seq<Definition<'a>>, d: Seq<Definition<'a>>, s: Seq<Definition<'a>>, z: Seq<Definition<'a>>, u: Seq<Definition<'a>>, v: Seq<DefV>) -> bool {
    dviews(c) == part(v, 0) && dviews(d) == part(v, 1) && dviews(s) == part(v, 2) && dviews(z) == part(v, 3) && dviews(u) == part(v, 4)
}
pub broadcast proof fn dviews_push<'a>(s: Seq<Definition<'a>>, x: Definition<'a>)
    ensures #[trigger] dviews(s.push(x)) == dviews(s).push(defn(x)),
{
    assert(dviews(s.push(x)) =~= dviews(s).push(defn(x)));
}
pub proof fn dviews_new<'a>(s: Seq<Definition<'a>>)
    requires s.len() == 0,
    ensures dviews(s) == Seq::<DefV>::empty(),
{
    assert(dviews(s) =~= Seq::<DefV>::empty());
}
/// the place of definition i in its part
pub open spec fn pix(d: Seq<DefV>, i: int) -> int { part(d.take(i), mkind(d[i])).len() as int }
pub proof fn part_at(d: Seq<DefV>, i: int)
    requires 0 <= i < d.len(),
    ensures 0 <= pix(d, i) < part(d, mkind(d[i])).len(), part(d, mkind(d[i]))[pix(d, i)] == d[i], 0 <= mkind(d[i]) <= 4, mg_of(d, mkind(d[i])) == part(d, mkind(d[i])),
{
    let k = mkind(d[i]);
    part_step(d, i);
    part_mono(d, k, i + 1);
    assert(part(d.take(i + 1), k)[pix(d, i)] == d[i]);
}
pub open spec fn mg_of(d: Seq<DefV>, k: int) -> Seq<DefV> { groups(d)[k] }
pub proof fn part_mono(d: Seq<DefV>, k: int, i: int)
    requires 0 <= i <= d.len(),
    ensures part(d.take(i), k).is_prefix_of(part(d, k)),
    decreases d.len() - i,
{
    if i < d.len() { part_step(d, i); part_mono(d, k, i + 1); assert(part(d.take(i), k).is_prefix_of(part(d.take(i + 1), k))); }
    else { part_all(d); }
}

// ---------------------------------------------------------------- symbols and sections of names
pub proof fn gsym_in(a: &Artifact, k: int, j: int)
    requires seg_room(mg(a), a.imps()), 0 <= k < 4, 0 <= j < mg(a)[k].len(),
    ensures ({
        let y = gsym(mg(a)[k], smin(k), k + 1, maddr(ms(a), k), j);
        let p = stdsyms(mg(a), k).len() + j;
        0 <= p < mx(a).len() && mx(a)[p] == y && sfind(mnames(mx(a)), y.name) == p && y.name.len() > 0
    }),
{
    let g = mg(a);
    let y = gsyms(g[k], smin(k), k + 1, maddr(ms(a), k));
    std_grow(g, k + 1, 4);
    cus_grow(g, 0, g[4].len() as int);
    let p = stdsyms(g, k).len() + j;
    assert(stdsyms(g, k + 1) == stdsyms(g, k) + y);
    assert(stdsyms(g, k + 1)[p] == y[j]);
    assert(stdsyms(g, 4)[p] == y[j]);
    assert(cusyms(g, g[4].len() as int)[p] == y[j]);
    assert(mx(a)[p] == y[j]);
    sym_in(a, p);
}
pub proof fn sym_in(a: &Artifact, p: int)
    requires seg_room(mg(a), a.imps()), 0 <= p < mx(a).len(),
    ensures sfind(mnames(mx(a)), mx(a)[p].name) == p, mx(a)[p].name.len() > 0,
{
    reveal(seg_room); reveal(nodup);
    let t = tnames(mx(a));
    let n = mnames(mx(a));
    assert(t[p + 1] == n[p]);
    assert(t[0] == Seq::<char>::empty());
    assert(t[0] != t[p + 1]);
    if n[p].len() == 0 { assert(n[p] =~= Seq::empty()); }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies n[i] != n[j] by { assert(t[i + 1] == n[i]); assert(t[j + 1] == n[j]); }
    sfind_at(n, p);
}
pub proof fn imp_in(a: &Artifact, j: int)
    requires seg_room(mg(a), a.imps()), 0 <= j < a.imps().len(),
    ensures ({ let p = cusyms(mg(a), mg(a)[4].len() as int).len() + j; 0 <= p < mx(a).len() && mx(a)[p] == msym_import(a.imps()[j].0) && sfind(mnames(mx(a)), a.imps()[j].0) == p && a.imps()[j].0.len() > 0 }),
{
    let p = cusyms(mg(a), mg(a)[4].len() as int).len() + j;
    assert(mx(a)[p] == isyms(a.imps())[j]);
    sym_in(a, p);
}
/// a defined name that is not a section has a symbol
pub proof fn def_in_x(a: &Artifact, n: Seq<char>)
    requires a.wf(), undef(a.decls()).len() == 0, seg_room(mg(a), a.imps()), a.declared(n), a.decl_of(n) is Defined, !is_sec(a.decl_of(n)),
    ensures n.len() > 0, ({ let p = sfind(mnames(mx(a)), n); 0 <= p < mx(a).len() && 1 <= mx(a)[p].sect <= 4 }), ms(a).len() >= 4,
{
    let d = a.defs();
    all_defined(a, n);
    let w = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n;
    def_decl(a, w);
    part_at(d, w);
    gsym_in(a, mkind(d[w]), pix(d, w));
}
/// a custom section has a section
pub proof fn sec_in_s(a: &Artifact, n: Seq<char>)
    requires a.wf(), undef(a.decls()).len() == 0, seg_room(mg(a), a.imps()), a.declared(n), a.decl_of(n) is Defined, is_sec(a.decl_of(n)),
    ensures 4 <= sfind(mkeys(ms(a)), n) < ms(a).len(),
{
    let d = a.defs();
    all_defined(a, n);
    let w = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n;
    def_decl(a, w);
    part_at(d, w);
    secs_are(mg(a), a.imps());
    let j = pix(d, w);
    assert(mg(a)[4] == part(d, 4));
    assert(ms(a)[4 + j] == cussec(mg(a)[4][j]));
    assert(mkeys(ms(a))[4 + j] == n);
    reveal(seg_room);
    sfind_at(mkeys(ms(a)), 4 + j);
}
pub proof fn ready_links(a: &Artifact)
    requires mready(a),
    ensures links_ready(mx(a), ms(a), a.flinks()),
{
    reveal(mach_dom);
    let q = a.flinks();
    let x = mx(a);
    let s = ms(a);
    assert forall|i: int| 0 <= i < q.len() implies mlink_ready(x, s, #[trigger] q[i]) by {
        link_decl(a, i);
        assert(mlink_ok(q[i]));
        if emits(q[i]) {
            if q[i].to_decl is Import {
                import_decl(a, q[i].to);
                let j = choose|j: int| 0 <= j < a.imps().len() && (#[trigger] a.imps()[j]).0 == q[i].to;
                imp_in(a, j);
            } else { def_in_x(a, q[i].to); }
            if q[i].reloc is Debug { sec_in_s(a, q[i].from); } else { def_in_x(a, q[i].from); }
        }
    }
    assert(nodup(mkeys(s))) by { reveal(seg_room); }
    reveal(links_ready);
}
/// an object file whose sections the linker may split at symbols
pub open spec fn mheader(c: Ctx, a: Architecture, cmds: int) -> crate::goblin::mach::header::Header {
    crate::goblin::mach::header::Header { magic: crate::goblin::mach::header::magic(c), cputype: mach_cpu(a)->Some_0 as u32, cpusubtype: 3, filetype: 1, ncmds: 2, sizeofcmds: cmds as u32, flags: 0x2000, reserved: 0 }
}
/// what Mach::new makes
#[verifier::opaque]
pub open spec fn mbuilt<'a>(m: &Mach<'a>, a: &Artifact) -> bool {
    &&& m.ctx == ctx_of(&a.target) && m.architecture == a.target.architecture
    &&& m.symtab.wf() && m.symtab.syms() == mx(a)
    &&& linked(m.segment.sections@, ms(a), mx(a), a.flinks(), a.flinks().len() as int)
    &&& m.segment.offset == crate::goblin::mach::header::mhsize(m.ctx.container) + mfoff(ms(a), ms(a).len() as int)
    &&& m.segment.size == mend(ms(a), ms(a).len() as int) && m.segment.align_pad_map@ == padst(mg(a), 4)
    &&& dviews(m.code@) == mg(a)[0] && dviews(m.data@) == mg(a)[1] && dviews(m.cstrings@) == mg(a)[2] && dviews(m.sections@) == mg(a)[4]
}
}
