pub mod elf_object_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::elf::*;
use crate::elf_spec::*;
use crate::elf_write_spec::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::target_spec::*;
use crate::seq_spec::*;
use crate::goblin::container::{Ctx, Endian};
use crate::goblin::elf::header::{Header, ident};
use crate::goblin::elf::sym::*;
use crate::goblin::elf::section_header::*;
use crate::scroll::enc_u32;
// What an ELF object has to say about an artifact, and that Elf says it.

// ---------------------------------------------------------------- symbols and relocations of an artifact
/// the symbols of definitions, in order
pub open spec fn xdefs(d: Seq<DefV>) -> Seq<XSym> decreases d.len() { if d.len() == 0 { Seq::empty() } else { xdefs(d.drop_last()) + dsyms(d.last(), d.len() as int + 2) } }
pub open spec fn ximps(i: Seq<(Seq<char>, ImportKind)>) -> Seq<XSym> { Seq::new(i.len(), |k: int| imp_sym(i[k].0)) }
pub open spec fn xpart(a: &Artifact, i: int, j: int) -> Seq<XSym> { xdefs(a.defs().take(i)) + ximps(a.imps().take(j)) }
pub open spec fn xall(a: &Artifact) -> Seq<XSym> { xdefs(a.defs()) + ximps(a.imps()) }
pub open spec fn floc() -> spec_fn(DefV) -> int { |d: DefV| if dlocal(d.decl) { dsyms(d, 0).len() as int } else { 0 } }
pub open spec fn defnames(d: Seq<DefV>) -> Seq<Seq<char>> { Seq::new(d.len(), |i: int| d[i].name) }
pub open spec fn secnames(d: Seq<DefV>) -> Seq<Seq<char>> { Seq::new(d.len(), |i: int| secname(d[i])) }
pub open spec fn xnames(x: Seq<XSym>) -> Seq<Seq<char>> { Seq::new(x.len(), |i: int| x[i].name) }
/// the definition of a name
pub open spec fn dix(a: &Artifact, n: Seq<char>) -> int { sfind(defnames(a.defs()), n) }
/// the index of the section with link q's source
pub open spec fn lkey(a: &Artifact, q: int) -> int { dix(a, a.flinks()[q].from) + 3 }
/// the index of the symbol that stands for link q's target: the import's own, or that of the section with the definition
pub open spec fn lsym(a: &Artifact, q: int) -> int {
    let l = a.flinks()[q];
    if l.to_decl is Defined { dix(a, l.to) + 2 } else { sfind(xnames(xall(a)), l.to) + 2 + a.defs().len() }
}
pub open spec fn lrelof(a: &Artifact, q: int) -> GReloc { lrel(a.flinks()[q], ctx_of(&a.target).big(), lsym(a, q)) }
/// the relocations of section key that the first k links make, in order
pub open spec fn rgroup(a: &Artifact, k: int, key: int) -> Seq<GReloc> decreases k {
    if k <= 0 { Seq::empty() } else { let r = rgroup(a, k - 1, key); if lkey(a, k - 1) == key { r.push(lrelof(a, k - 1)) } else { r } }
}

// ---------------------------------------------------------------- domain
pub open spec fn fdcost() -> spec_fn(DefV) -> int { |d: DefV| defcost(d) }
pub open spec fn ficost() -> spec_fn((Seq<char>, ImportKind)) -> int { |i: (Seq<char>, ImportKind)| (utf8(i.0).len() + 1) as int }
pub open spec fn flcost(a: &Artifact) -> spec_fn(LinkV) -> int { |l: LinkV| (utf8(relname(secname(a.defs()[dix(a, l.from)]))).len() + 1) as int }
pub open spec fn strbound(a: &Artifact, i: int, j: int, k: int) -> int { basecost(a.name@) + sum(a.defs().take(i), fdcost()) + sum(a.imps().take(j), ficost()) + sum(a.flinks().take(k), flcost(a)) }
pub open spec fn strtotal(a: &Artifact) -> int { strbound(a, a.defs().len() as int, a.imps().len() as int, a.flinks().len() as int) + utf8(".symtab_shndx"@).len() + utf8(".note.GNU-stack"@).len() + 2 }
pub open spec fn def_fits(d: DefV, c: Ctx) -> bool {
    c.big() || (dmem(d.data) < lim() && (dalign(d.decl) matches Some(x) ==> x < lim()) && forall|i: int| 0 <= i < d.syms.len() ==> (#[trigger] d.syms[i]).1 < lim())
}
pub open spec fn link_fits(l: LinkV, c: Ctx) -> bool { c.big() || (l.at < lim() && (l.reloc matches Reloc::Raw { reloc, addend } ==> reloc < 0x100)) }
/// the artifacts whose ELF objects are specified
#[verifier::opaque]
pub open spec fn elf_dom(a: &Artifact) -> bool {
    let c = ctx_of(&a.target);
    &&& elf_machine(a.target.architecture) is Some
    // no two sections, and no two symbols, have the same name
    &&& nodup(secnames(a.defs())) && nodup(xnames(xall(a)))
    // links with a documented meaning
    &&& forall|i: int| 0 <= i < a.flinks().len() ==> link_ok(#[trigger] a.flinks()[i])
    // the format's integers can hold the values
    &&& forall|i: int| 0 <= i < a.defs().len() ==> def_fits(#[trigger] a.defs()[i], c)
    &&& forall|i: int| 0 <= i < a.flinks().len() ==> link_fits(#[trigger] a.flinks()[i], c)
    &&& strtotal(a) < lim()
    &&& a.defs().len() + a.flinks().len() < 0x7000_0000 && a.flinks().len() < 0x4000_0000
    &&& a.defs().len() + xall(a).len() + 2 < (if c.big() { 0x7000_0000int } else { 0x100_0000 })
    &&& cat(a.defs(), fdata()).len() + strtotal(a) + 28 * (a.defs().len() + xall(a).len() + 2) + 24 * a.flinks().len() + 64 * (a.defs().len() + a.flinks().len() + 9) < cap(c)
}

// ---------------------------------------------------------------- the object under construction
#[verifier::opaque]
pub open spec fn rep_defs<'a>(e: &Elf<'a>, a: &Artifact, i: int, j: int, k: int) -> bool {
    let d = a.defs();
    &&& e.ctx == ctx_of(&a.target) && e.architecture == a.target.architecture
    &&& specials(e.strings@, a.name@, e.special_symbols@)
    &&& e.sections@.len() == i && forall|s: int| 0 <= s < i ==> secok(e.strings@, #[trigger] e.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s))
    &&& cat(e.code@, fcode()) == cat(d.take(i), fdata()) && e.sizeof_bits as int == ehsize(e.ctx) + catoff(d, fdata(), i)
    &&& syms_ok(e.strings@, e.symbols@, xpart(a, i, j))
    &&& e.nlocals as int == sum(d.take(i), floc())
    &&& e.sizeof_strtab <= strbound(a, i, j, k)
}
#[verifier::opaque]
pub open spec fn rep_rels<'a>(e: &Elf<'a>, a: &Artifact, k: int) -> bool {
    &&& forall|g: int| 0 <= g < e.relocations@.len() ==> (#[trigger] e.relocations@[g]).1.1@ == rgroup(a, k, e.relocations@[g].0 as int) && e.relocations@[g].1.1@.len() > 0
    &&& forall|q: int| 0 <= q < k ==> hask(e.relocations@, (#[trigger] lkey(a, q)) as usize)
    &&& allrels(e).len() == relsize(true, e.ctx) * k && e.relocations@.len() <= k
}
pub open spec fn ready(a: &Artifact) -> bool { a.wf() && undef(a.decls()).len() == 0 && elf_dom(a) }

pub proof fn defcost_pos(d: DefV) ensures defcost(d) >= 0, { symcost_pos(dsyms(d, 0)); }
pub proof fn budgets(a: &Artifact, i: int, j: int, k: int)
    requires 0 <= i <= a.defs().len(), 0 <= j <= a.imps().len(), 0 <= k <= a.flinks().len(),
    ensures 0 <= strbound(a, i, j, k) <= strtotal(a),
        i < a.defs().len() ==> strbound(a, i + 1, j, k) == strbound(a, i, j, k) + defcost(a.defs()[i]) <= strtotal(a) - 2,
        j < a.imps().len() ==> strbound(a, i, j + 1, k) == strbound(a, i, j, k) + utf8(a.imps()[j].0).len() + 1 <= strtotal(a) - 2,
        k < a.flinks().len() ==> strbound(a, i, j, k + 1) == strbound(a, i, j, k) + flcost(a)(a.flinks()[k]) <= strtotal(a) - 2,
        strbound(a, 0, 0, 0) == basecost(a.name@),
{
    assert forall|i: int| 0 <= i < a.defs().len() implies fdcost()(#[trigger] a.defs()[i]) >= 0 by { defcost_pos(a.defs()[i]); }
    sum_take(a.defs(), fdcost(), i);
    sum_take(a.imps(), ficost(), j);
    sum_take(a.flinks(), flcost(a), k);
}
pub proof fn rep_new<'a>(e: &Elf<'a>, a: &Artifact)
    requires e.wf(), e.sizeof_strtab <= basecost(a.name@), e.ctx == ctx_of(&a.target), e.architecture == a.target.architecture, specials(e.strings@, a.name@, e.special_symbols@),
        e.sections@.len() == 0, e.symbols@.len() == 0, e.relocations@.len() == 0, e.code@.len() == 0, e.nlocals == 0, e.sizeof_bits as int == ehsize(e.ctx),
    ensures rep_defs(e, a, 0, 0, 0), rep_rels(e, a, 0),
{
    reveal(rep_defs); reveal(rep_rels);
    budgets(a, 0, 0, 0);
    cat_all(a.defs(), fdata());
    assert(a.defs().take(0) =~= Seq::empty());
    assert(xpart(a, 0, 0) =~= Seq::empty());
    assert(allrels(e) =~= Seq::empty());
    assert(relsize(true, e.ctx) * 0 == 0);
}
/// where the symbols of definition i are
pub proof fn xdefs_at(d: Seq<DefV>, i: int)
    requires 0 <= i < d.len(),
    ensures xdefs(d.take(i + 1)) == xdefs(d.take(i)) + dsyms(d[i], i + 3), xdefs(d.take(i + 1)).is_prefix_of(xdefs(d)), xdefs(d.take(d.len() as int)) == xdefs(d), xdefs(d.take(i)).is_prefix_of(xdefs(d)),
    decreases d.len() - i,
{
    assert(d.take(i + 1).drop_last() =~= d.take(i));
    assert(d.take(d.len() as int) =~= d);
    if i + 1 < d.len() {
        xdefs_at(d, i + 1);
        assert(xdefs(d.take(i + 2)).is_prefix_of(xdefs(d)));
    }
    let x = xdefs(d.take(i));
    assert(x =~= xdefs(d.take(i + 1)).subrange(0, x.len() as int));
    assert(x =~= xdefs(d).subrange(0, x.len() as int));
}
pub proof fn dsyms_len(d: DefV, a: int, b: int) ensures dsyms(d, a).len() == dsyms(d, b).len(), {}
/// names of symbols are new
pub proof fn sym_new<'a>(e: &Elf<'a>, a: &Artifact, i: int, j: int, k: int, p: int)
    requires rep_defs(e, a, i, j, k), xpart(a, i, j).len() <= p < xall(a).len(), xpart(a, i, j).is_prefix_of(xall(a)), nodup(xnames(xall(a))),
    ensures e.sym_fresh(xall(a)[p].name),
{
    reveal(rep_defs); reveal(nodup); reveal(named);
    let x = xpart(a, i, j);
    assert forall|q: int| 0 <= q < e.symbols@.len() implies e.strings@[(#[trigger] e.symbols@[q]).0 as int] != xall(a)[p].name by {
        assert(symok(e.strings@, e.symbols@[q], x[q]));
        sfind_lemma(e.strings@, x[q].name);
        assert(x[q] == xall(a)[q]);
        assert(xnames(xall(a))[q] != xnames(xall(a))[p]);
    }
}
pub proof fn def_ready<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires ready(a), e.wf(), rep_defs(e, a, i, 0, 0), rep_rels(e, a, 0), 0 <= i < a.defs().len(),
    ensures data_legal(a.defs()[i].decl, a.defs()[i].data, a.defs()[i].syms.len() as int), def_fresh(e, a.defs()[i]),
        e.sizeof_strtab + defcost(a.defs()[i]) < lim(), e.sections@.len() + e.relocations@.len() < 0x7fff_0000, e.sizeof_bits + dfile(a.defs()[i].data) < mem(),
{
    reveal(elf_dom);
    let d = a.defs();
    let x = d[i];
    def_decl(a, i);
    budgets(a, i, 0, 0);
    xdefs_at(d, i);
    assert(a.imps().take(0) =~= Seq::empty());
    assert(xpart(a, i, 0) =~= xdefs(d.take(i)));
    let n = xdefs(d.take(i)).len() as int;
    assert(xpart(a, i, 0) =~= xall(a).subrange(0, n));
    let y = dsyms(x, i + 3);
    assert forall|t: int| 0 <= t < y.len() implies e.sym_fresh(#[trigger] y[t].name) by {
        assert(xdefs(d.take(i + 1))[n + t] == y[t]);
        assert(xall(a)[n + t] == y[t]);
        sym_new(e, a, i, 0, 0, n + t);
    }
    if x.decl is Section {
        assert forall|t: int| 0 <= t < x.syms.len() implies e.sym_fresh((#[trigger] x.syms[t]).0) by { assert(y[t].name == x.syms[t].0); }
    } else { assert(y[0].name == x.name); }
    assert(e.sec_fresh(secname(x))) by {
        reveal(rep_defs); reveal(nodup); reveal(named);
        assert forall|s: int| 0 <= s < e.sections@.len() implies e.strings@[(#[trigger] e.sections@[s]).0 as int] != secname(x) by {
            assert(secok(e.strings@, e.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)));
            sfind_lemma(e.strings@, secname(d[s]));
            assert(secnames(d)[s] != secnames(d)[i]);
        }
    }
    reveal(rep_defs); reveal(rep_rels);
    cat_at(d, fdata(), i);
}
pub proof fn syms_grow(s: Seq<Seq<char>>, t: Seq<Seq<char>>, y: Seq<(usize, Sym)>, z: Seq<(usize, Sym)>, x: Seq<XSym>, w: Seq<XSym>)
    requires syms_ok(s, y, x), s.is_prefix_of(t), y.is_prefix_of(z), z.len() == y.len() + w.len(), forall|k: int| 0 <= k < w.len() ==> symok(t, z[y.len() + k], #[trigger] w[k]),
    ensures syms_ok(t, z, x + w),
{
    assert forall|k: int| 0 <= k < z.len() implies symok(t, #[trigger] z[k], (x + w)[k]) by {
        if k < y.len() { assert(z[k] == y[k]); assert(symok(s, y[k], x[k])); named_grow(s, t, x[k].name, y[k].1.st_name as int); }
        else { assert((x + w)[k] == w[k - y.len()]); }
    }
}
pub proof fn def_step<'a>(o: &Elf<'a>, e: &Elf<'a>, a: &Artifact, i: int)
    requires ready(a), rep_defs(o, a, i, 0, 0), rep_rels(o, a, 0), 0 <= i < a.defs().len(), added_def(o, e, a.defs()[i]),
    ensures rep_defs(e, a, i + 1, 0, 0), rep_rels(e, a, 0),
{
    reveal(rep_defs); reveal(rep_rels);
    let d = a.defs();
    let x = d[i];
    budgets(a, i, 0, 0);
    cat_take(d, i, fdata());
    xdefs_at(d, i);
    assert(o.sections@.len() as int + 3 == i + 3);
    let y = dsyms(x, i + 3);
    syms_grow(o.strings@, e.strings@, o.symbols@, e.symbols@, xpart(a, i, 0), y);
    assert(a.imps().take(0) =~= Seq::empty());
    assert(xpart(a, i, 0) + y =~= xpart(a, i + 1, 0));
    assert(d.take(i + 1).drop_last() =~= d.take(i));
    assert forall|s: int| 0 <= s < i + 1 implies secok(e.strings@, #[trigger] e.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)) by {
        if s < i {
            assert(e.sections@[s] == e.sections@.drop_last()[s]);
            assert(secok(o.strings@, o.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)));
            named_grow(o.strings@, e.strings@, secname(d[s]), o.sections@[s].1.header.sh_name as int);
        }
    }
    specials_grow(o.strings@, e.strings@, a.name@, o.special_symbols@);
    assert(allrels(e) == allrels(o));
}
pub proof fn specials_grow(s: Seq<Seq<char>>, t: Seq<Seq<char>>, n: Seq<char>, y: Seq<Sym>)
    requires specials(s, n, y), s.is_prefix_of(t),
    ensures specials(t, n, y),
{
    named_grow(s, t, n, y[1].st_name as int);
}
pub proof fn imp_ready<'a>(e: &Elf<'a>, a: &Artifact, j: int)
    requires ready(a), rep_defs(e, a, a.defs().len() as int, j, 0), 0 <= j < a.imps().len(),
    ensures e.sizeof_strtab + utf8(a.imps()[j].0).len() + 1 < lim(), e.sym_fresh(a.imps()[j].0),
{
    reveal(elf_dom);
    let d = a.defs();
    budgets(a, d.len() as int, j, 0);
    let n = d.len() as int;
    assert(d.take(n) =~= d);
    let x = xpart(a, n, j);
    assert(x =~= xall(a).subrange(0, x.len() as int));
    let p = xdefs(d).len() + j;
    assert(xall(a)[p] == imp_sym(a.imps()[j].0));
    sym_new(e, a, n, j, 0, p);
    reveal(rep_defs);
}
pub proof fn imp_step<'a>(o: &Elf<'a>, e: &Elf<'a>, a: &Artifact, j: int)
    requires ready(a), rep_defs(o, a, a.defs().len() as int, j, 0), rep_rels(o, a, 0), 0 <= j < a.imps().len(), added_import(o, e, a.imps()[j].0),
    ensures rep_defs(e, a, a.defs().len() as int, j + 1, 0), rep_rels(e, a, 0),
{
    reveal(rep_defs); reveal(rep_rels);
    let d = a.defs();
    let n = d.len() as int;
    budgets(a, n, j, 0);
    let w = seq![imp_sym(a.imps()[j].0)];
    assert(o.symbols@.is_prefix_of(e.symbols@)) by { assert(o.symbols@ =~= e.symbols@.subrange(0, o.symbols@.len() as int)); }
    syms_grow(o.strings@, e.strings@, o.symbols@, e.symbols@, xpart(a, n, j), w);
    assert(xpart(a, n, j) + w =~= xpart(a, n, j + 1));
    assert forall|s: int| 0 <= s < n implies secok(e.strings@, #[trigger] e.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)) by {
        assert(secok(o.strings@, o.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)));
        named_grow(o.strings@, e.strings@, secname(d[s]), o.sections@[s].1.header.sh_name as int);
    }
    specials_grow(o.strings@, e.strings@, a.name@, o.special_symbols@);
    assert(allrels(e) == allrels(o));
}
pub open spec fn full<'a>(e: &Elf<'a>, a: &Artifact, k: int) -> bool { rep_defs(e, a, a.defs().len() as int, a.imps().len() as int, k) && rep_rels(e, a, k) }
pub proof fn whole(a: &Artifact)
    ensures xpart(a, a.defs().len() as int, a.imps().len() as int) == xall(a), a.defs().take(a.defs().len() as int) == a.defs(), a.imps().take(a.imps().len() as int) == a.imps(), a.flinks().take(a.flinks().len() as int) == a.flinks(),
{
    assert(a.defs().take(a.defs().len() as int) =~= a.defs());
    assert(a.imps().take(a.imps().len() as int) =~= a.imps());
    assert(a.flinks().take(a.flinks().len() as int) =~= a.flinks());
}
pub proof fn sym_at_x<'a>(e: &Elf<'a>, a: &Artifact, k: int, p: int)
    requires full(e, a, k), 0 <= p < xall(a).len(),
    ensures ({ let id = sfind(e.strings@, xall(a)[p].name); 0 <= id < e.strings@.len() && hask(e.symbols@, id as usize) && find(e.symbols@, id as usize) == p && e.symbols@[p].1.st_shndx as int == xall(a)[p].shndx }),
{
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    whole(a);
    reveal(rep_defs); reveal(named);
    assert(symok(e.strings@, e.symbols@[p], xall(a)[p]));
    sfind_lemma(e.strings@, xall(a)[p].name);
    find_at(e.symbols@, p);
}
/// a defined name has a section
pub proof fn place<'a>(e: &Elf<'a>, a: &Artifact, k: int, n: Seq<char>)
    requires ready(a), full(e, a, k), a.declared(n), a.decl_of(n) is Defined,
    ensures e.has(n, a.decl_of(n)), e.shof(n, a.decl_of(n)) == dix(a, n) + 3, 0 <= dix(a, n) < a.defs().len(), a.defs()[dix(a, n)].name == n, e.sections@.len() == a.defs().len(),
{
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    let d = a.defs();
    let nd = d.len() as int;
    all_defined(a, n);
    let w = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n;
    sfind_lemma(defnames(d), n);
    assert(defnames(d)[w] == n);
    let i = dix(a, n);
    assert(defnames(d)[i] == d[i].name);
    def_decl(a, i);
    whole(a);
    assert(e.sections@.len() == nd) by { reveal(rep_defs); }
    if d[i].decl is Section {
        reveal(rep_defs); reveal(named);
        assert(secok(e.strings@, e.sections@[i], d[i], i, ehsize(e.ctx) + catoff(d, fdata(), i)));
        sfind_lemma(e.strings@, n);
        find_at(e.sections@, i);
    } else {
        xdefs_at(d, i);
        let p = xdefs(d.take(i)).len() as int;
        assert(xdefs(d.take(i + 1))[p] == dsyms(d[i], i + 3)[0]);
        assert(xall(a)[p] == def_sym(d[i], i + 3));
        sym_at_x(e, a, k, p);
    }
}
/// an import has a symbol
pub proof fn iplace<'a>(e: &Elf<'a>, a: &Artifact, k: int, n: Seq<char>)
    requires ready(a), full(e, a, k), a.declared(n), a.decl_of(n) is Import,
    ensures e.has(n, a.decl_of(n)), e.symof(n, a.decl_of(n)) == sfind(xnames(xall(a)), n) + 2 + a.defs().len(), 0 <= sfind(xnames(xall(a)), n) < xall(a).len(),
{
    reveal(elf_dom);
    import_decl(a, n);
    let j = choose|j: int| 0 <= j < a.imps().len() && (#[trigger] a.imps()[j]).0 == n;
    let p = xdefs(a.defs()).len() + j;
    assert(xall(a)[p] == imp_sym(n));
    sym_at_x(e, a, k, p);
    assert(xnames(xall(a))[p] == n);
    sfind_at(xnames(xall(a)), p);
    assert(e.sections@.len() == a.defs().len()) by { reveal(rep_defs); }
}
pub proof fn rgroup_len(a: &Artifact, k: int, key: int)
    ensures rgroup(a, k, key).len() <= (if k <= 0 { 0 } else { k }), (forall|q: int| 0 <= q < k ==> #[trigger] lkey(a, q) != key) ==> rgroup(a, k, key).len() == 0,
    decreases k,
{
    if k > 0 { rgroup_len(a, k - 1, key); assert(lkey(a, k - 1) == lkey(a, k - 1)); }
}
pub proof fn rgroup_at(a: &Artifact, k: int, key: int, j: int)
    requires 0 <= j < rgroup(a, k, key).len(),
    ensures exists|q: int| 0 <= q < k && rgroup(a, k, key)[j] == #[trigger] lrelof(a, q),
    decreases k,
{
    if k > 0 {
        if lkey(a, k - 1) == key && j == rgroup(a, k - 1, key).len() { assert(rgroup(a, k, key)[j] == lrelof(a, k - 1)); }
        else { rgroup_at(a, k - 1, key, j); let q = choose|q: int| 0 <= q < k - 1 && rgroup(a, k - 1, key)[j] == #[trigger] lrelof(a, q); assert(rgroup(a, k, key)[j] == lrelof(a, q)); }
    }
}
/// where a link goes
pub proof fn lplace<'a>(e: &Elf<'a>, a: &Artifact, k: int, q: int)
    requires ready(a), full(e, a, k), 0 <= q < a.flinks().len(),
    ensures e.has(a.flinks()[q].from, a.flinks()[q].from_decl), e.has(a.flinks()[q].to, a.flinks()[q].to_decl),
        e.shof(a.flinks()[q].from, a.flinks()[q].from_decl) == lkey(a, q), 3 <= lkey(a, q) < 3 + e.sections@.len(), e.sections@.len() == a.defs().len(),
        a.flinks()[q].to_decl is Defined ==> 3 <= e.shof(a.flinks()[q].to, a.flinks()[q].to_decl) < 3 + e.sections@.len(),
        e.symof(a.flinks()[q].to, a.flinks()[q].to_decl) == lsym(a, q), 2 <= lsym(a, q) < 2 + a.defs().len() + xall(a).len(),
{
    link_decl(a, q);
    let l = a.flinks()[q];
    place(e, a, k, l.from);
    if l.to_decl is Import { iplace(e, a, k, l.to); } else { place(e, a, k, l.to); }
}
pub proof fn keycost<'a>(e: &Elf<'a>, a: &Artifact, k: int, q: int)
    requires ready(a), full(e, a, k), 0 <= q < a.flinks().len(),
    ensures e.strings@[e.sections@[lkey(a, q) - 3].0 as int] == secname(a.defs()[lkey(a, q) - 3]), flcost(a)(a.flinks()[q]) == utf8(relname(secname(a.defs()[lkey(a, q) - 3]))).len() + 1,
{
    lplace(e, a, k, q);
    reveal(rep_defs); reveal(named);
    let i = lkey(a, q) - 3;
    assert(secok(e.strings@, e.sections@[i], a.defs()[i], i, ehsize(e.ctx) + catoff(a.defs(), fdata(), i)));
    sfind_lemma(e.strings@, secname(a.defs()[i]));
}
pub proof fn link_ready<'a>(e: &Elf<'a>, a: &Artifact, k: int)
    requires ready(a), full(e, a, k), 0 <= k < a.flinks().len(),
    ensures ({
        let l = a.flinks()[k];
        &&& link_ok(l) && e.has(l.from, l.from_decl) && e.has(l.to, l.to_decl)
        &&& e.shof(l.from, l.from_decl) == lkey(a, k) && 3 <= lkey(a, k) < 3 + e.sections@.len() && (l.to_decl is Defined ==> 3 <= e.shof(l.to, l.to_decl) < 3 + e.sections@.len())
        &&& e.symof(l.to, l.to_decl) == lsym(a, k)
        &&& e.sizeof_strtab + utf8(relname(e.strings@[e.sections@[lkey(a, k) - 3].0 as int])).len() + 1 < lim()
        &&& e.sections@.len() + e.relocations@.len() < 0x7fff_0000 && e.nrels(lkey(a, k) as usize) < 0x4000_0000
        &&& e.sections@.len() + e.symbols@.len() < mem()
        &&& e.ctx == ctx_of(&a.target)
    }),
{
    lplace(e, a, k, k);
    keycost(e, a, k, k);
    budgets(a, a.defs().len() as int, a.imps().len() as int, k);
    reveal(elf_dom);
    whole(a);
    reveal(rep_defs); reveal(rep_rels);
    let key = lkey(a, k) as usize;
    find_lemma(e.relocations@, key);
    rgroup_len(a, k, key as int);
}
pub proof fn link_step<'a>(o: &Elf<'a>, e: &Elf<'a>, a: &Artifact, k: int)
    requires ready(a), full(o, a, k), 0 <= k < a.flinks().len(), added_reloc(o, e, lkey(a, k) as usize, lrelof(a, k)), e.wf(),
    ensures full(e, a, k + 1),
{
    broadcast use {crate::indexmap::indexmap_wf, crate::goblin::elf::reloc::enc_reloc_len};
    let d = a.defs();
    let n = d.len() as int;
    let ni = a.imps().len() as int;
    lplace(o, a, k, k);
    keycost(o, a, k, k);
    budgets(a, n, ni, k);
    assert(rep_defs(e, a, n, ni, k + 1)) by {
        reveal(rep_defs);
        syms_grow(o.strings@, e.strings@, o.symbols@, e.symbols@, xpart(a, n, ni), Seq::empty());
        assert(xpart(a, n, ni) + Seq::<XSym>::empty() =~= xpart(a, n, ni));
        assert forall|s: int| 0 <= s < n implies secok(e.strings@, #[trigger] e.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)) by {
            assert(secok(o.strings@, o.sections@[s], d[s], s, ehsize(e.ctx) + catoff(d, fdata(), s)));
            named_grow(o.strings@, e.strings@, secname(d[s]), o.sections@[s].1.header.sh_name as int);
        }
        specials_grow(o.strings@, e.strings@, a.name@, o.special_symbols@);
    }
    assert(rep_rels(e, a, k + 1)) by {
        reveal(rep_rels);
        let key = lkey(a, k) as usize;
        let t = o.relocations@;
        let u = e.relocations@;
        let i = find(t, key);
        let r = lrelof(a, k);
        let c = e.ctx;
        let w = relsize(true, c);
        let f = frels(c);
        find_lemma(t, key);
        assert(w * (k + 1) == w * k + w) by (nonlinear_arith);
        if hask(t, key) {
            assert forall|g: int| 0 <= g < u.len() implies (#[trigger] u[g]).1.1@ == rgroup(a, k + 1, u[g].0 as int) && u[g].1.1@.len() > 0 by {
                if g == i { assert(t[g].0 == key); assert(t[i].1.1@ == rgroup(a, k, key as int)); } else { assert(u[g] == t[g]); reveal(distinct); assert(t[g].0 != t[i].0); }
            }
            assert(u =~= t.update(i, u[i]));
            cat_update(t, f, i, u[i]);
            cat_push(t[i].1.1@, r, frel(c));
            assert forall|q: int| 0 <= q < k + 1 implies hask(u, (#[trigger] lkey(a, q)) as usize) by {
                let x = lkey(a, q) as usize;
                find_lemma(t, x);
                find_lemma(u, x);
                if q < k { assert(hask(t, x)); }
                let y = find(t, x);
                if y == i { assert(u[i].0 == key); } else { assert(u[y] == t[y]); }
            }
        } else {
            assert(u =~= t.push(u.last()));
            assert(rgroup(a, k, key as int).len() == 0) by { assert forall|q: int| 0 <= q < k implies #[trigger] lkey(a, q) != key as int by { assert(hask(t, lkey(a, q) as usize)); } rgroup_len(a, k, key as int); }
            assert forall|g: int| 0 <= g < u.len() implies (#[trigger] u[g]).1.1@ == rgroup(a, k + 1, u[g].0 as int) && u[g].1.1@.len() > 0 by {
                if g == t.len() { assert(rgroup(a, k + 1, key as int) =~= seq![r]); } else { assert(u[g] == t[g]); assert(t[g].0 != key) by { if t[g].0 == key { find_lemma(t, key); } } }
            }
            cat_push(t, u.last(), f);
            assert(u.last().1.1@ =~= Seq::<GReloc>::empty().push(r));
            cat_push(Seq::<GReloc>::empty(), r, frel(c));
            assert forall|q: int| 0 <= q < k + 1 implies hask(u, (#[trigger] lkey(a, q)) as usize) by {
                let x = lkey(a, q) as usize;
                find_lemma(t, x);
                find_lemma(u, x);
                if q < k { assert(hask(t, x)); assert(u[find(t, x)].0 == x); } else { assert(u[u.len() - 1].0 == x); }
            }
        }
    }
}
/// every symbol is a definition's or an import's
pub proof fn xdefs_from(d: Seq<DefV>, p: int)
    requires 0 <= p < xdefs(d).len(),
    ensures exists|i: int, j: int| 0 <= i < d.len() && 0 <= j < dsyms(d[i], i + 3).len() && xdefs(d)[p] == #[trigger] dsyms(d[i], i + 3)[j],
    decreases d.len(),
{
    if d.len() > 0 {
        let n = d.len() as int - 1;
        let x = xdefs(d.drop_last());
        if p < x.len() {
            xdefs_from(d.drop_last(), p);
            let (i, j) = choose|i: int, j: int| 0 <= i < n && 0 <= j < dsyms(d.drop_last()[i], i + 3).len() && x[p] == #[trigger] dsyms(d.drop_last()[i], i + 3)[j];
            assert(xdefs(d)[p] == dsyms(d[i], i + 3)[j]);
        } else { assert(xdefs(d)[p] == dsyms(d[n], n + 3)[p - x.len()]); }
    }
}
pub proof fn xfits(a: &Artifact, p: int)
    requires ready(a), 0 <= p < xall(a).len(),
    ensures 0 <= xall(a)[p].shndx < 3 + a.defs().len(), ctx_of(&a.target).big() || (xall(a)[p].value < lim() && xall(a)[p].size < lim()),
{
    reveal(elf_dom);
    let d = a.defs();
    if p < xdefs(d).len() {
        xdefs_from(d, p);
        let (i, j) = choose|i: int, j: int| 0 <= i < d.len() && 0 <= j < dsyms(d[i], i + 3).len() && xdefs(d)[p] == #[trigger] dsyms(d[i], i + 3)[j];
        assert(def_fits(d[i], ctx_of(&a.target)));
        assert(xall(a)[p] == dsyms(d[i], i + 3)[j]);
        if d[i].decl is Section { assert(dsyms(d[i], i + 3)[j] == cus_sym(d[i].syms[j], i + 3)); }
    } else { assert(xall(a)[p] == imp_sym(a.imps()[p - xdefs(d).len()].0)); }
}
pub proof fn z_str_bound<'a>(e: &Elf<'a>)
    requires e.wf(),
    ensures z_str(e) <= e.sizeof_strtab + utf8(".symtab_shndx"@).len() + utf8(".note.GNU-stack"@).len() + 2,
{
    broadcast use crate::string_interner::interner_wf;
    let s = e.strings@;
    strtab_ends(s);
    intern_bound(s, ".symtab_shndx"@);
    let t = if needx(e) { intern(s, ".symtab_shndx"@) } else { s };
    intern_bound(t, ".note.GNU-stack"@);
}
pub proof fn intern_bound(s: Seq<Seq<char>>, x: Seq<char>)
    ensures strtab(intern(s, x)).len() <= strtab(s).len() + utf8(x).len() + 1,
{
    cat_push(s, x, fstr());
}
pub proof fn syms_fit<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires ready(a), e.wf(), full(e, a, a.flinks().len() as int), 0 <= i < nsyms(e),
    ensures sym_fits(allsyms(e)[i], e.ctx),
{
    whole(a);
    reveal(rep_defs);
    reveal(elf_dom);
    let k = a.flinks().len() as int;
    budgets(a, a.defs().len() as int, a.imps().len() as int, k);
    let n = e.sections@.len() as int;
    strtab_ends(e.strings@);
    if i < 2 {
        assert(allsyms(e)[i] == (e.special_symbols@[i], false));
        if i == 1 { name_small(e.strings@, a.name@, e.special_symbols@[1].st_name as int); }
    } else if i < 2 + n {
        assert(allsyms(e)[i] == (e.sections@[i - 2].1.symbol, true));
        assert(secok(e.strings@, e.sections@[i - 2], a.defs()[i - 2], i - 2, ehsize(e.ctx) + catoff(a.defs(), fdata(), i - 2)));
    } else {
        let p = i - 2 - n;
        assert(allsyms(e)[i] == (e.symbols@[p].1, true));
        assert(symok(e.strings@, e.symbols@[p], xall(a)[p]));
        name_small(e.strings@, xall(a)[p].name, e.symbols@[p].1.st_name as int);
        xfits(a, p);
    }
}
pub proof fn shdrs_fit0<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires ready(a), e.wf(), full(e, a, a.flinks().len() as int), 0 <= i < e.sections@.len(),
    ensures shdr_fits(e.sections@[i].1.header, e.ctx),
{
    reveal(rep_defs);
    reveal(elf_dom);
    let d = a.defs();
    let k = a.flinks().len() as int;
    budgets(a, d.len() as int, a.imps().len() as int, k);
    assert(secok(e.strings@, e.sections@[i], d[i], i, ehsize(e.ctx) + catoff(d, fdata(), i)));
    strtab_ends(e.strings@);
    name_small(e.strings@, secname(d[i]), e.sections@[i].1.header.sh_name as int);
    assert(def_fits(d[i], e.ctx));
    cat_at(d, fdata(), i);
}
pub proof fn rels_fit<'a>(e: &Elf<'a>, a: &Artifact, i: int, j: int)
    requires ready(a), e.wf(), full(e, a, a.flinks().len() as int), 0 <= i < e.relocations@.len(), 0 <= j < e.relocations@[i].1.1@.len(),
    ensures rel_fits(e.relocations@[i].1.1@[j], e.ctx),
{
    let k = a.flinks().len() as int;
    assert(e.relocations@[i].1.1@ == rgroup(a, k, e.relocations@[i].0 as int)) by { reveal(rep_rels); }
    rgroup_at(a, k, e.relocations@[i].0 as int, j);
    let q = choose|q: int| 0 <= q < k && rgroup(a, k, e.relocations@[i].0 as int)[j] == #[trigger] lrelof(a, q);
    lplace(e, a, k, q);
    reveal(elf_dom);
    reveal(rep_defs);
    assert(link_ok(a.flinks()[q]) && link_fits(a.flinks()[q], e.ctx));
}
/// a whole object can be written
pub proof fn full_writable<'a>(e: &Elf<'a>, a: &Artifact)
    requires ready(a), e.wf(), full(e, a, a.flinks().len() as int),
    ensures writable(e),
{
    let k = a.flinks().len() as int;
    let c = e.ctx;
    assert(fits_all(e)) by {
        assert forall|i: int| 0 <= i < nsyms(e) implies sym_fits(#[trigger] allsyms(e)[i], c) by { syms_fit(e, a, i); }
        assert forall|i: int| 0 <= i < e.sections@.len() implies shdr_fits((#[trigger] e.sections@[i]).1.header, c) by { shdrs_fit0(e, a, i); }
        assert forall|i: int, j: int| 0 <= i < e.relocations@.len() && 0 <= j < e.relocations@[i].1.1@.len() implies rel_fits(#[trigger] e.relocations@[i].1.1@[j], c) by { rels_fit(e, a, i, j); }
    }
    whole(a);
    budgets(a, a.defs().len() as int, a.imps().len() as int, k);
    places(e);
    z_str_bound(e);
    reveal(rep_defs); reveal(rep_rels); reveal(elf_dom);
    assert(relsize(true, c) * k <= 24 * k) by (nonlinear_arith) requires relsize(true, c) <= 24, k >= 0;
}
// ---------------------------------------------------------------- what an object says
/// a reading of an ELF object: its structures, decoded
pub ghost struct ElfV {
    pub hdr: Header,
    pub shdrs: Seq<SectionHeader>,
    pub tab: Seq<u8>,            // the string table, section 1
    pub syms: Seq<Sym>,          // the symbol table, section 2
    pub shx: int,                // the section with the extended index table, or 0
    pub xi: Seq<u32>,            // its entries
    pub rels: Seq<Seq<GReloc>>,  // for every section the relocation entries in it
}
/// the bytes b are those of v
pub open spec fn encodes(b: Seq<u8>, c: Ctx, v: ElfV) -> bool {
    let n = v.shdrs.len();
    &&& sub_is(b, 0, enc_header(v.hdr, c))
    &&& n >= 4 && b.len() == v.hdr.e_shoff + shdrsize(c) * n
    &&& forall|i: int| 0 <= i < n ==> sub_is(b, v.hdr.e_shoff + shdrsize(c) * i, enc_shdr(#[trigger] v.shdrs[i], c))
    &&& sub_is(b, v.shdrs[1].sh_offset as int, v.tab) && v.tab.len() == v.shdrs[1].sh_size
    &&& v.shdrs[2].sh_size == symsize(c.container) * v.syms.len()
    &&& forall|i: int| 0 <= i < v.syms.len() ==> sub_is(b, v.shdrs[2].sh_offset + symsize(c.container) * i, enc_sym(#[trigger] v.syms[i], c))
    &&& 0 <= v.shx < n && (v.shx > 0 ==> v.shdrs[v.shx].sh_size == 4 * v.xi.len() && forall|i: int| 0 <= i < v.xi.len() ==> sub_is(b, v.shdrs[v.shx].sh_offset + 4 * i, enc_u32(#[trigger] v.xi[i], c.le)))
    &&& v.rels.len() == n
    &&& forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 ==> v.shdrs[s].sh_size == relsize(true, c) * v.rels[s].len()
    &&& forall|s: int, j: int| 0 <= s < n && v.shdrs[s].sh_type == 4 && 0 <= j < v.rels[s].len() ==> sub_is(b, v.shdrs[s].sh_offset + relsize(true, c) * j, enc_reloc(#[trigger] v.rels[s][j], (true, c)))
}
/// the bytes a section takes in the file
pub open spec fn flen(h: SectionHeader) -> int { if h.sh_type == 0 || h.sh_type == 8 { 0 } else { h.sh_size as int } }
pub open spec fn clear(h: SectionHeader, g: SectionHeader) -> bool { flen(h) == 0 || flen(g) == 0 || h.sh_offset + flen(h) <= g.sh_offset || g.sh_offset + flen(g) <= h.sh_offset }
pub open spec fn apart(v: ElfV) -> bool { forall|i: int, j: int| 0 <= i < j < v.shdrs.len() ==> clear(#[trigger] v.shdrs[i], #[trigger] v.shdrs[j]) }
pub open spec fn inside(v: ElfV, c: Ctx) -> bool { forall|i: int| 0 <= i < v.shdrs.len() && flen(#[trigger] v.shdrs[i]) > 0 ==> ehsize(c) <= v.shdrs[i].sh_offset && v.shdrs[i].sh_offset + flen(v.shdrs[i]) <= v.hdr.e_shoff }
/// the section index of symbol k, escaped or not
pub open spec fn shndx_is(v: ElfV, k: int, s: int) -> bool { if v.syms[k].st_shndx == 0xffff { v.shx > 0 && v.xi[k] as int == s } else { v.syms[k].st_shndx as int == s } }

/// C06: every definition has section i+3 of its own, with exactly its bytes
pub open spec fn p06(a: &Artifact, b: Seq<u8>, v: ElfV) -> bool {
    &&& v.shdrs.len() >= 3 + a.defs().len() && apart(v) && inside(v, ctx_of(&a.target))
    &&& forall|i: int| 0 <= i < a.defs().len() ==> ((#[trigger] a.defs()[i]).data matches DataV::Blob(x) ==> sub_is(b, v.shdrs[i + 3].sh_offset as int, x) && v.shdrs[i + 3].sh_type == 1 && v.shdrs[i + 3].sh_size == x.len())
}
/// C07: its attributes are the declared ones
pub open spec fn p07(a: &Artifact, v: ElfV) -> bool { v.shdrs.len() >= 3 + a.defs().len() && forall|i: int| 0 <= i < a.defs().len() ==> sechdr(v.shdrs[i + 3], #[trigger] a.defs()[i]) }
/// C08: null, file, a symbol per section, one per symbol of the artifact
pub open spec fn p08(a: &Artifact, v: ElfV) -> bool {
    let d = a.defs();
    let x = xall(a);
    &&& v.syms.len() == 2 + d.len() + x.len() && v.syms[0] == sym0()
    &&& v.syms[1].st_info == 4 && v.syms[1].st_other == 0 && v.syms[1].st_shndx == 0xfff1 && v.syms[1].st_value == 0 && v.syms[1].st_size == 0 && resolves(v.tab, a.name@, v.syms[1].st_name as int)
    &&& forall|i: int| #![trigger v.syms[i + 2]] 0 <= i < d.len() ==> v.syms[i + 2].st_name == 0 && v.syms[i + 2].st_info == 3 && v.syms[i + 2].st_other == 0 && v.syms[i + 2].st_value == 0 && v.syms[i + 2].st_size == 0 && shndx_is(v, i + 2, i + 3)
    &&& forall|p: int| 0 <= p < x.len() ==> named_sym(v, 2 + d.len() + p, #[trigger] x[p])
}
pub open spec fn named_sym(v: ElfV, k: int, x: XSym) -> bool {
    let y = v.syms[k];
    resolves(v.tab, x.name, y.st_name as int) && y.st_info as int == x.info && y.st_other as int == x.other && y.st_value as int == x.value && y.st_size as int == x.size && shndx_is(v, k, x.shndx)
}
/// C09: the symbols below the boundary are the local ones
pub open spec fn p09(v: ElfV) -> bool { v.shdrs.len() > 2 && v.shdrs[2].sh_info <= v.syms.len() && forall|k: int| 0 <= k < v.syms.len() ==> ((#[trigger] v.syms[k]).st_info < 16 <==> k < v.shdrs[2].sh_info) }
/// C10: names are where offsets say
pub open spec fn p10(a: &Artifact, v: ElfV) -> bool {
    let d = a.defs();
    let x = xall(a);
    let n = v.shdrs.len() as int;
    &&& v.syms.len() == 2 + d.len() + x.len() && n >= 3 + d.len()
    &&& v.tab.len() > 0 && v.tab[0] == 0 && v.tab.last() == 0
    &&& forall|p: int| 0 <= p < x.len() ==> resolves(v.tab, (#[trigger] x[p]).name, v.syms[2 + d.len() + p].st_name as int)
    &&& resolves(v.tab, a.name@, v.syms[1].st_name as int)
    &&& forall|i: int| 0 <= i < d.len() ==> resolves(v.tab, secname(#[trigger] d[i]), v.shdrs[i + 3].sh_name as int)
    &&& forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 ==> 3 <= v.shdrs[s].sh_info < 3 + d.len() && resolves(v.tab, relname(secname(d[v.shdrs[s].sh_info - 3])), v.shdrs[s].sh_name as int)
    &&& resolves(v.tab, ".strtab"@, v.shdrs[1].sh_name as int) && resolves(v.tab, ".symtab"@, v.shdrs[2].sh_name as int) && resolves(v.tab, ".note.GNU-stack"@, v.shdrs[n - 1].sh_name as int)
    &&& v.shx > 0 ==> resolves(v.tab, ".symtab_shndx"@, v.shdrs[v.shx].sh_name as int)
}
/// C11, C12: the relocation sections are exactly those of the links
pub open spec fn p11(a: &Artifact, v: ElfV) -> bool {
    let k = a.flinks().len() as int;
    let n = v.shdrs.len() as int;
    &&& forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 ==> v.shdrs[s].sh_link == 2 && v.rels[s] == rgroup(a, k, v.shdrs[s].sh_info as int) && v.rels[s].len() > 0
    &&& forall|s: int, t: int| 0 <= s < t < n && (#[trigger] v.shdrs[s]).sh_type == 4 && (#[trigger] v.shdrs[t]).sh_type == 4 ==> v.shdrs[s].sh_info != v.shdrs[t].sh_info
    &&& forall|q: int| 0 <= q < k ==> rel_section(v, #[trigger] lkey(a, q))
}
pub open spec fn rel_section(v: ElfV, key: int) -> bool { exists|s: int| 0 <= s < v.shdrs.len() && (#[trigger] v.shdrs[s]).sh_type == 4 && v.shdrs[s].sh_info as int == key }
/// C13: the structures fit together
pub open spec fn p13(a: &Artifact, b: Seq<u8>, v: ElfV) -> bool {
    let c = ctx_of(&a.target);
    let n = v.shdrs.len() as int;
    let h = v.hdr;
    &&& h.e_type == 1 && h.e_version == 1 && h.e_entry == 0 && h.e_phoff == 0 && h.e_phnum == 0 && h.e_flags == 0 && h.e_ehsize == ehsize(c) && h.e_shentsize == shdrsize(c) && h.e_shstrndx == 1
    &&& h.e_shoff as int % wsz(c) == 0 && b.len() == h.e_shoff + shdrsize(c) * n
    &&& apart(v) && inside(v, c)
    &&& v.shdrs[0] == (SectionHeader { sh_size: v.shdrs[0].sh_size, ..shdr0() }) && v.shdrs[1].sh_type == 3 && v.shdrs[2].sh_type == 2 && v.shdrs[2].sh_link == 1
    &&& v.shdrs[2].sh_entsize == symsize(c.container) && v.shdrs[2].sh_offset as int % wsz(c) == 0
    &&& forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 ==> v.shdrs[s].sh_entsize == relsize(true, c) && v.shdrs[s].sh_offset as int % wsz(c) == 0 && v.shdrs[s].sh_flags == 0x40
    &&& v.shdrs[n - 1].sh_type == 1 && v.shdrs[n - 1].sh_flags == 0 && v.shdrs[n - 1].sh_size == 0
    // 0 null, 1 strings, 2 symbols, the definitions, perhaps the extended index table, relocations, the stack note
    &&& n >= 4 + a.defs().len() + (if v.shx > 0 { 1int } else { 0 }) && (v.shx > 0 ==> v.shx == 3 + a.defs().len())
    &&& forall|s: int| 3 + a.defs().len() + (if v.shx > 0 { 1int } else { 0 }) <= s < n - 1 ==> (#[trigger] v.shdrs[s]).sh_type == 4
    &&& forall|i: int| 0 <= i < a.defs().len() ==> (#[trigger] v.shdrs[i + 3]).sh_type == 1 || v.shdrs[i + 3].sh_type == 8
}
/// C14: how sections are counted
pub open spec fn p14(v: ElfV) -> bool {
    let n = v.shdrs.len() as int;
    &&& n < 0xff00 ==> v.hdr.e_shnum == n && v.shx == 0 && v.shdrs[0].sh_size == 0 && forall|s: int| 0 <= s < n ==> (#[trigger] v.shdrs[s]).sh_type != 18
    &&& n >= 0xff00 ==> v.hdr.e_shnum == 0 && v.shdrs[0].sh_size == n && v.shx > 0 && v.shdrs[v.shx].sh_type == 18 && v.shdrs[v.shx].sh_link == 2 && v.shdrs[v.shx].sh_entsize == 4 && v.xi.len() == v.syms.len() && v.shdrs[v.shx].sh_offset as int % 4 == 0
    &&& forall|k: int| 2 <= k < v.syms.len() ==> ((#[trigger] v.syms[k]).st_shndx < 0xff00 || (v.syms[k].st_shndx == 0xffff && v.shx > 0 && v.xi[k] >= 0xff00))
}
/// C15: the target's class, byte order and machine
pub open spec fn p15(a: &Artifact, v: ElfV) -> bool { v.hdr.e_ident == ident(ctx_of(&a.target)) && elf_machine(a.target.architecture) == Some(v.hdr.e_machine as int) }
/// C22: zero-initialized data takes no place in the file
pub open spec fn p22(a: &Artifact, v: ElfV) -> bool {
    &&& v.shdrs.len() >= 3 + a.defs().len()
    &&& forall|i: int| 0 <= i < a.defs().len() ==> v.shdrs[i + 3].sh_offset as int == ehsize(ctx_of(&a.target)) + catoff(a.defs(), fdata(), i)
        && ((#[trigger] a.defs()[i]).data matches DataV::Zero(n) ==> v.shdrs[i + 3].sh_type == 8 && v.shdrs[i + 3].sh_flags & 3 == 3 && v.shdrs[i + 3].sh_size == n && (dalign(a.defs()[i].decl) matches Some(x) ==> v.shdrs[i + 3].sh_addralign == x))
}

// ---------------------------------------------------------------- the bytes of a written object say it
pub open spec fn xi_of<'a>(e: &Elf<'a>) -> Seq<u32> { if needx(e) { Seq::new(allsyms(e).len(), |i: int| allsyms(e)[i].0.st_shndx as u32) } else { Seq::empty() } }
pub open spec fn relbase<'a>(e: &Elf<'a>) -> int { 3 + e.sections@.len() + (if needx(e) { 1int } else { 0 }) }
pub open spec fn rels_of<'a>(e: &Elf<'a>, s: int) -> Seq<GReloc> { if relbase(e) <= s < relbase(e) + e.relocations@.len() { e.relocations@[s - relbase(e)].1.1@ } else { Seq::empty() } }
pub open spec fn v_of<'a>(e: &Elf<'a>) -> ElfV {
    ElfV {
        hdr: mhdr(e), shdrs: shdrs(e), tab: strtab(strs1(e)), syms: Seq::new(allsyms(e).len(), |i: int| vsym(allsyms(e)[i])),
        shx: if needx(e) { 3 + e.sections@.len() as int } else { 0 }, xi: xi_of(e),
        rels: Seq::new(shdrs(e).len(), |s: int| rels_of(e, s)),
    }
}
/// the parts of a written object
pub proof fn parts<'a>(e: &Elf<'a>)
    requires writable(e),
    ensures sub_is(image(e), 0, enc_header(mhdr(e), e.ctx)), sub_is(image(e), ehsize(e.ctx), cat(e.code@, fcode())), sub_is(image(e), o_str(e), strtab(strs1(e))),
        sub_is(image(e), o_sym(e), cat(allsyms(e), fsym(e.ctx))), needx(e) ==> sub_is(image(e), o_shx(e), cat(allsyms(e), fxi(e.ctx))),
        allrels(e).len() > 0 ==> sub_is(image(e), o_rel(e), allrels(e)), sub_is(image(e), o_sh(e), cat(shdrs(e), fshdr(e.ctx))),
{
    broadcast use {enc_sym_len, crate::scroll::enc_u32_len, crate::goblin::elf::header::enc_header_len, enc_shdr_len};
    places(e);
    sizes(e);
    let h = enc_header(mhdr(e), e.ctx);
    let k = cat(e.code@, fcode());
    let t = strtab(strs1(e));
    let i2 = im2(e);
    assert(i2.subrange(0, h.len() as int) =~= h);
    assert(i2.subrange(h.len() as int, (h.len() + k.len()) as int) =~= k);
    assert(i2.subrange(o_str(e), o_str(e) + t.len()) =~= t);
    assert(sub_is(i2, 0, h) && sub_is(i2, h.len() as int, k) && sub_is(i2, o_str(e), t));
    let s = cat(allsyms(e), fsym(e.ctx));
    let x = cat(allsyms(e), fxi(e.ctx));
    cat_width(allsyms(e), fsym(e.ctx), symsize(e.ctx.container));
    cat_width(allsyms(e), fxi(e.ctx), 4);
    assert(allsyms(e).len() == nsyms(e));
    app_keeps(im2(e), o_sym(e), s, 0, h); app_keeps(im2(e), o_sym(e), s, ehsize(e.ctx), k); app_keeps(im2(e), o_sym(e), s, o_str(e), t);
    app_keeps(im3(e), o_shx(e), x, 0, h); app_keeps(im3(e), o_shx(e), x, ehsize(e.ctx), k); app_keeps(im3(e), o_shx(e), x, o_str(e), t); app_keeps(im3(e), o_shx(e), x, o_sym(e), s);
    let r = allrels(e);
    app_keeps(im4(e), o_rel(e), r, 0, h); app_keeps(im4(e), o_rel(e), r, ehsize(e.ctx), k); app_keeps(im4(e), o_rel(e), r, o_str(e), t); app_keeps(im4(e), o_rel(e), r, o_sym(e), s); app_keeps(im4(e), o_rel(e), r, o_shx(e), x);
    let w = cat(shdrs(e), fshdr(e.ctx));
    app_keeps(im5(e), o_sh(e), w, 0, h); app_keeps(im5(e), o_sh(e), w, ehsize(e.ctx), k); app_keeps(im5(e), o_sh(e), w, o_str(e), t); app_keeps(im5(e), o_sh(e), w, o_sym(e), s); app_keeps(im5(e), o_sh(e), w, o_shx(e), x); app_keeps(im5(e), o_sh(e), w, o_rel(e), r);
}
/// item i of a table of equally long items
pub proof fn item<A>(b: Seq<u8>, off: int, s: Seq<A>, f: spec_fn(A) -> Seq<u8>, w: int, i: int)
    requires sub_is(b, off, cat(s, f)), 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() ==> f(#[trigger] s[j]).len() == w,
    ensures sub_is(b, off + w * i, f(s[i])),
{
    cat_at(s, f, i);
    cat_width_off(s, f, w, i);
    assert(sub_is(cat(s, f), catoff(s, f, i), f(s[i])));
    sub_sub(b, off, cat(s, f), w * i, f(s[i]));
}
/// relocation j of group g
pub proof fn rel_item<'a>(e: &Elf<'a>, g: int, j: int)
    requires writable(e), 0 <= g < e.relocations@.len(), 0 <= j < e.relocations@[g].1.1@.len(),
    ensures sub_is(image(e), relhdr(e, g).sh_offset + relsize(true, e.ctx) * j, enc_reloc(e.relocations@[g].1.1@[j], (true, e.ctx))), relhdr(e, g).sh_offset == o_rel(e) + catoff(e.relocations@, frels(e.ctx), g),
{
    broadcast use crate::goblin::elf::reloc::enc_reloc_len;
    parts(e);
    sizes(e);
    let c = e.ctx;
    let t = e.relocations@;
    cat_at(t, frels(c), g);
    let rs = t[g].1.1@;
    rel_sizes(e, g);
    assert(sub_is(allrels(e), catoff(t, frels(c), g), cat(rs, frel(c))));
    assert(cat(rs, frel(c)).len() > 0);
    sub_sub(image(e), o_rel(e), allrels(e), catoff(t, frels(c), g), cat(rs, frel(c)));
    item(image(e), o_rel(e) + catoff(t, frels(c), g), rs, frel(c), relsize(true, c), j);
}
/// the headers, by index
pub proof fn heads<'a>(e: &Elf<'a>)
    ensures ({
        let v = shdrs(e);
        let b = relbase(e);
        let n = v.len() as int;
        &&& n == b + e.relocations@.len() + 1 && v[0] == nullhdr(e) && v[1] == strhdr(e) && v[2] == symhdr(e) && v[n - 1] == notehdr(e) && (needx(e) ==> v[b - 1] == shxhdr(e))
        &&& forall|i: int| 0 <= i < e.sections@.len() ==> (#[trigger] v[i + 3]) == e.sections@[i].1.header
        &&& forall|g: int| 0 <= g < e.relocations@.len() ==> (#[trigger] v[b + g]) == relhdr(e, g)
    }),
{
}
/// a whole object
pub open spec fn done<'a>(e: &Elf<'a>, a: &Artifact) -> bool { ready(a) && e.wf() && full(e, a, a.flinks().len() as int) && writable(e) }
/// section i + 3 is definition i's
pub proof fn defsec<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires done(e, a), 0 <= i < a.defs().len(),
    ensures e.sections@.len() == a.defs().len(), shdrs(e)[i + 3] == e.sections@[i].1.header, secok(e.strings@, e.sections@[i], a.defs()[i], i, ehsize(e.ctx) + catoff(a.defs(), fdata(), i)), sechdr(shdrs(e)[i + 3], a.defs()[i]), shdrs(e)[i + 3].sh_type == 1 || shdrs(e)[i + 3].sh_type == 8,
        e.ctx == ctx_of(&a.target), cat(e.code@, fcode()) == cat(a.defs(), fdata()), shdrs(e)[i + 3].sh_offset == ehsize(e.ctx) + catoff(a.defs(), fdata(), i),
{
    heads(e);
    whole(a);
    reveal(rep_defs);
    assert(secok(e.strings@, e.sections@[i], a.defs()[i], i, ehsize(e.ctx) + catoff(a.defs(), fdata(), i)));
}
pub proof fn same_ctx<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures e.ctx == ctx_of(&a.target), e.architecture == a.target.architecture, e.sections@.len() == a.defs().len(), e.symbols@.len() == xall(a).len(), e.nlocals as int == sum(a.defs(), floc()), cat(e.code@, fcode()) == cat(a.defs(), fdata()),
        specials(e.strings@, a.name@, e.special_symbols@), syms_ok(e.strings@, e.symbols@, xall(a)),
{
    whole(a);
    reveal(rep_defs);
}
/// which sections hold relocations
pub proof fn relsec<'a>(e: &Elf<'a>, a: &Artifact, s: int)
    requires done(e, a), 0 <= s < shdrs(e).len(),
    ensures shdrs(e)[s].sh_type == 4 <==> relbase(e) <= s < relbase(e) + e.relocations@.len(),
        relbase(e) <= s < relbase(e) + e.relocations@.len() ==> shdrs(e)[s] == relhdr(e, s - relbase(e)) && rel_ok(e.strings@, e.sections@, e.ctx, e.relocations@[s - relbase(e)].0, e.relocations@[s - relbase(e)].1.0, e.relocations@[s - relbase(e)].1.1@.len() as int),
        shdrs(e)[s].sh_type == 18 ==> needx(e),
{
    heads(e);
    same_ctx(e, a);
    let b = relbase(e);
    if 3 <= s < 3 + e.sections@.len() { defsec(e, a, s - 3); }
    if b <= s < b + e.relocations@.len() { assert(shdrs(e)[b + (s - b)] == relhdr(e, s - b)); assert(rel_ok(e.strings@, e.sections@, e.ctx, e.relocations@[s - b].0, e.relocations@[s - b].1.0, e.relocations@[s - b].1.1@.len() as int)); }
}
pub proof fn obj_encodes<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures encodes(image(e), e.ctx, v_of(e)),
{
    broadcast use {enc_sym_len, crate::scroll::enc_u32_len, enc_shdr_len};
    parts(e);
    sizes(e);
    heads(e);
    let b = image(e);
    let c = e.ctx;
    let v = v_of(e);
    let n = v.shdrs.len() as int;
    mul_swap(nsyms(e), symsize(c.container), z_sym(e));
    assert forall|i: int| 0 <= i < n implies sub_is(b, v.hdr.e_shoff + shdrsize(c) * i, enc_shdr(#[trigger] v.shdrs[i], c)) by { item(b, o_sh(e), shdrs(e), fshdr(c), shdrsize(c), i); }
    assert forall|i: int| 0 <= i < v.syms.len() implies sub_is(b, v.shdrs[2].sh_offset + symsize(c.container) * i, enc_sym(#[trigger] v.syms[i], c)) by { item(b, o_sym(e), allsyms(e), fsym(c), symsize(c.container), i); }
    if needx(e) {
        assert(v.shdrs[v.shx] == shxhdr(e));
        assert forall|i: int| 0 <= i < v.xi.len() implies sub_is(b, v.shdrs[v.shx].sh_offset + 4 * i, enc_u32(#[trigger] v.xi[i], c.le)) by { item(b, o_shx(e), allsyms(e), fxi(c), 4, i); }
    }
    assert forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 implies v.shdrs[s].sh_size == relsize(true, c) * v.rels[s].len() by { relsec(e, a, s); }
    assert forall|s: int, j: int| 0 <= s < n && v.shdrs[s].sh_type == 4 && 0 <= j < v.rels[s].len() implies sub_is(b, v.shdrs[s].sh_offset + relsize(true, c) * j, enc_reloc(#[trigger] v.rels[s][j], (true, c))) by {
        relsec(e, a, s);
        rel_item(e, s - relbase(e), j);
    }
}
/// the place of each section's bytes
pub open spec fn lo<'a>(e: &Elf<'a>, a: &Artifact, s: int) -> int {
    let b = relbase(e);
    if s == 1 { o_str(e) } else if s == 2 { o_sym(e) } else if 3 <= s < 3 + e.sections@.len() { ehsize(e.ctx) + catoff(a.defs(), fdata(), s - 3) } else if s < b { o_shx(e) } else { o_rel(e) + catoff(e.relocations@, frels(e.ctx), s - b) }
}
pub open spec fn hi<'a>(e: &Elf<'a>, a: &Artifact, s: int) -> int {
    let b = relbase(e);
    if s == 1 { o_str(e) + z_str(e) } else if s == 2 { o_sym(e) + z_sym(e) } else if 3 <= s < 3 + e.sections@.len() { ehsize(e.ctx) + catoff(a.defs(), fdata(), s - 2) } else if s < b { o_shx(e) + z_shx(e) } else { o_rel(e) + catoff(e.relocations@, frels(e.ctx), s + 1 - b) }
}
pub proof fn extent<'a>(e: &Elf<'a>, a: &Artifact, s: int)
    requires done(e, a), 0 <= s < shdrs(e).len(), flen(shdrs(e)[s]) > 0,
    ensures 1 <= s < shdrs(e).len() - 1, shdrs(e)[s].sh_offset == lo(e, a, s), shdrs(e)[s].sh_offset + flen(shdrs(e)[s]) == hi(e, a, s), ehsize(e.ctx) <= lo(e, a, s) < hi(e, a, s) <= o_sh(e),
        3 <= s < 3 + e.sections@.len() ==> hi(e, a, s) <= o_str(e), s == 3 + e.sections@.len() && needx(e) ==> lo(e, a, s) >= o_sym(e) + z_sym(e) && hi(e, a, s) <= o_rel(e), s >= relbase(e) ==> lo(e, a, s) >= o_rel(e) && o_rel(e) >= o_sym(e) + z_sym(e),
        o_str(e) + z_str(e) <= o_sym(e), o_sym(e) + z_sym(e) <= o_shx(e) + z_shx(e),
{
    broadcast use crate::goblin::elf::header::enc_header_len;
    heads(e);
    same_ctx(e, a);
    places(e);
    sizes(e);
    let b = relbase(e);
    let d = a.defs();
    if 3 <= s < 3 + e.sections@.len() {
        let i = s - 3;
        defsec(e, a, i);
        cat_at(d, fdata(), i);
        cat_mono(d, fdata(), i + 1, d.len() as int);
    } else if b <= s < b + e.relocations@.len() {
        relsec(e, a, s);
        rel_sizes(e, s - b);
        cat_mono(e.relocations@, frels(e.ctx), s - b, s + 1 - b);
        cat_mono(e.relocations@, frels(e.ctx), s + 1 - b, e.relocations@.len() as int);
    }
}
pub proof fn obj_apart<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures apart(v_of(e)), inside(v_of(e), ctx_of(&a.target)),
{
    let v = v_of(e);
    let n = v.shdrs.len() as int;
    same_ctx(e, a);
    sizes(e);
    assert forall|i: int, j: int| 0 <= i < j < n implies clear(#[trigger] v.shdrs[i], #[trigger] v.shdrs[j]) by {
        if flen(v.shdrs[i]) > 0 && flen(v.shdrs[j]) > 0 {
            extent(e, a, i);
            extent(e, a, j);
            let m = e.sections@.len() as int;
            let b = relbase(e);
            heads(e);
            if 3 <= i && j < 3 + m { cat_mono(a.defs(), fdata(), i - 2, j - 3); }
            if b <= i { cat_mono(e.relocations@, frels(e.ctx), i + 1 - b, j - b); }
        }
    }
    assert forall|i: int| 0 <= i < n && flen(#[trigger] v.shdrs[i]) > 0 implies ehsize(e.ctx) <= v.shdrs[i].sh_offset && v.shdrs[i].sh_offset + flen(v.shdrs[i]) <= v.hdr.e_shoff by { extent(e, a, i); }
}
pub proof fn obj06<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p06(a, image(e), v_of(e)),
{
    hide(apart); hide(inside); hide(image); hide(done);
    obj_apart(e, a);
    heads(e);
    assert(shdrs(e).len() >= 3 + a.defs().len()) by { same_ctx(e, a); }
    let v = v_of(e);
    let d = a.defs();
    assert forall|i: int| 0 <= i < d.len() implies ((#[trigger] d[i]).data matches DataV::Blob(x) ==> sub_is(image(e), v.shdrs[i + 3].sh_offset as int, x) && v.shdrs[i + 3].sh_type == 1 && v.shdrs[i + 3].sh_size == x.len()) by { contents(e, a, i); }
}
pub proof fn contents<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires done(e, a), 0 <= i < a.defs().len(),
    ensures a.defs()[i].data matches DataV::Blob(x) ==> sub_is(image(e), shdrs(e)[i + 3].sh_offset as int, x) && shdrs(e)[i + 3].sh_type == 1 && shdrs(e)[i + 3].sh_size == x.len(),
{
    hide(shdrs); hide(image);
    let d = a.defs();
    defsec(e, a, i);
    if let DataV::Blob(x) = d[i].data {
        parts(e);
        cat_at(d, fdata(), i);
        assert(sub_is(cat(d, fdata()), catoff(d, fdata(), i), x));
        sub_sub(image(e), ehsize(e.ctx), cat(d, fdata()), catoff(d, fdata(), i), x);
    }
}
#[verifier::spinoff_prover]
pub proof fn obj07<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p07(a, v_of(e)), p22(a, v_of(e)),
{
    hide(shdrs); hide(done);
    assert(shdrs(e).len() >= 3 + a.defs().len()) by { reveal(shdrs); heads(e); same_ctx(e, a); }
    let v = v_of(e);
    let d = a.defs();
    assert(e.ctx == ctx_of(&a.target)) by { same_ctx(e, a); }
    assert forall|i: int| 0 <= i < d.len() implies sechdr(v.shdrs[i + 3], #[trigger] d[i]) by { defsec(e, a, i); }
    assert forall|i: int| 0 <= i < d.len() implies v.shdrs[i + 3].sh_offset as int == ehsize(e.ctx) + catoff(d, fdata(), i)
        && ((#[trigger] d[i]).data matches DataV::Zero(n) ==> v.shdrs[i + 3].sh_type == 8 && v.shdrs[i + 3].sh_flags & 3 == 3 && v.shdrs[i + 3].sh_size == n && (dalign(d[i].decl) matches Some(x) ==> v.shdrs[i + 3].sh_addralign == x)) by { zeroed(e, a, i); }
}
pub proof fn zeroed<'a>(e: &Elf<'a>, a: &Artifact, i: int)
    requires done(e, a), 0 <= i < a.defs().len(),
    ensures ({
        let h = shdrs(e)[i + 3];
        h.sh_offset as int == ehsize(e.ctx) + catoff(a.defs(), fdata(), i)
        && (a.defs()[i].data matches DataV::Zero(n) ==> h.sh_type == 8 && h.sh_flags & 3 == 3 && h.sh_size == n && (dalign(a.defs()[i].decl) matches Some(x) ==> h.sh_addralign == x)) }),
{
    defsec(e, a, i);
    def_decl(a, i);
    assert(3u64 & 3 == 3) by (bit_vector);
}
/// the strings written begin with those collected
pub proof fn all_names<'a>(e: &Elf<'a>)
    requires writable(e),
    ensures e.strings@.is_prefix_of(strs1(e)), resolves(strtab(strs1(e)), ".strtab"@, strhdr(e).sh_name as int), resolves(strtab(strs1(e)), ".symtab"@, symhdr(e).sh_name as int),
        resolves(strtab(strs1(e)), ".note.GNU-stack"@, notehdr(e).sh_name as int), needx(e) ==> resolves(strtab(strs1(e)), ".symtab_shndx"@, shxhdr(e).sh_name as int),
{
    let s = strs1(e);
    let t = if needx(e) { intern(e.strings@, ".symtab_shndx"@) } else { e.strings@ };
    lits();
    assert(e.strings@.is_prefix_of(t));
    assert(t.is_prefix_of(s));
    sfind_lemma(e.strings@, ".strtab"@); sfind_lemma(e.strings@, ".symtab"@);
    assert(named(e.strings@, ".strtab"@, stroff(e.strings@, sfind(e.strings@, ".strtab"@)))) by { reveal(named); assert(e.strings@[0] == ".strtab"@); }
    assert(named(e.strings@, ".symtab"@, stroff(e.strings@, sfind(e.strings@, ".symtab"@)))) by { reveal(named); assert(e.strings@[1] == ".symtab"@); }
    assert(e.strings@[0] == ".strtab"@ && e.strings@[1] == ".symtab"@);
    assert(e.strings@.is_prefix_of(s));
    sfind_grow(e.strings@, s, ".strtab"@); sfind_grow(e.strings@, s, ".symtab"@);
    noff_at(e, ".strtab"@); noff_at(e, ".symtab"@);
    intern_in(t, ".note.GNU-stack"@);
    noff_at(e, ".note.GNU-stack"@);
    if needx(e) { intern_in(e.strings@, ".symtab_shndx"@); sfind_grow(t, s, ".symtab_shndx"@); noff_at(e, ".symtab_shndx"@); }
}
/// a name in the table is at its offset
pub proof fn noff_at<'a>(e: &Elf<'a>, x: Seq<char>)
    requires writable(e), sfind(strs1(e), x) < strs1(e).len(),
    ensures resolves(strtab(strs1(e)), x, noff(strs1(e), x) as int),
{
    let s = strs1(e);
    sfind_lemma(s, x);
    assert(named(s, x, stroff(s, sfind(s, x)))) by { reveal(named); }
    name_small(s, x, stroff(s, sfind(s, x)));
    strtab_ends(s);
    sizes(e);
    strtab_at(s, x, stroff(s, sfind(s, x)));
    cat_mono(s, fstr(), 0, sfind(s, x));
    cat_all(s, fstr());
}
pub proof fn at_names<'a>(e: &Elf<'a>, x: Seq<char>, off: int)
    requires writable(e), named(e.strings@, x, off),
    ensures resolves(strtab(strs1(e)), x, off),
{
    all_names(e);
    named_grow(e.strings@, strs1(e), x, off);
    strtab_at(strs1(e), x, off);
}
/// entry k of the symbol table
pub proof fn entry<'a>(e: &Elf<'a>, a: &Artifact, k: int)
    requires done(e, a), 0 <= k < nsyms(e),
    ensures ({
        let v = v_of(e);
        let n = a.defs().len() as int;
        let y = allsyms(e)[k].0;
        &&& v.syms.len() == nsyms(e) == 2 + n + xall(a).len()
        &&& k < 2 ==> v.syms[k] == e.special_symbols@[k] && y == e.special_symbols@[k]
        &&& 2 <= k ==> v.syms[k] == esc(y) && shndx_is(v, k, y.st_shndx as int) && y.st_shndx as int <= 2 + n
        &&& 2 <= k < 2 + n ==> y == e.sections@[k - 2].1.symbol && secsym(y, k + 1)
        &&& 2 + n <= k ==> y == e.symbols@[k - 2 - n].1 && symok(e.strings@, e.symbols@[k - 2 - n], xall(a)[k - 2 - n])
    }),
{
    same_ctx(e, a);
    heads(e);
    sizes(e);
    let n = a.defs().len() as int;
    if 2 <= k < 2 + n { defsec(e, a, k - 2); }
    if 2 + n <= k { assert(symok(e.strings@, e.symbols@[k - 2 - n], xall(a)[k - 2 - n])); xfits(a, k - 2 - n); }
}
pub proof fn obj08<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p08(a, v_of(e)),
{
    same_ctx(e, a);
    sizes(e);
    let v = v_of(e);
    let d = a.defs();
    let x = xall(a);
    entry(e, a, 0);
    entry(e, a, 1);
    at_names(e, a.name@, e.special_symbols@[1].st_name as int);
    assert forall|i: int| #![trigger v.syms[i + 2]] 0 <= i < d.len() implies v.syms[i + 2].st_name == 0 && v.syms[i + 2].st_info == 3 && v.syms[i + 2].st_other == 0 && v.syms[i + 2].st_value == 0 && v.syms[i + 2].st_size == 0 && shndx_is(v, i + 2, i + 3) by { entry(e, a, i + 2); }
    assert forall|p: int| 0 <= p < x.len() implies named_sym(v, 2 + d.len() + p, #[trigger] x[p]) by {
        entry(e, a, 2 + d.len() + p);
        at_names(e, x[p].name, e.symbols@[p].1.st_name as int);
    }
}
/// the local symbols come first
pub proof fn locals(d: Seq<DefV>, m: int)
    requires 0 <= m <= d.len(), forall|i: int| 0 <= i < d.len() ==> dlocal((#[trigger] d[i]).decl) == (i < m),
    ensures sum(d, floc()) <= xdefs(d).len(), forall|p: int| 0 <= p < xdefs(d).len() ==> ((#[trigger] xdefs(d)[p]).info < 16 <==> p < sum(d, floc())), m == d.len() ==> sum(d, floc()) == xdefs(d).len(), sum(d, floc()) >= 0,
    decreases d.len(),
{
    if d.len() > 0 {
        let t = d.drop_last();
        let y = d.last();
        let n = d.len() as int - 1;
        assert(d[n] == y);
        assert forall|i: int| 0 <= i < t.len() implies dlocal((#[trigger] t[i]).decl) == (i < if m < d.len() { m } else { n }) by { assert(t[i] == d[i]); }
        locals(t, if m < d.len() { m } else { n });
        dsyms_len(y, 0, n + 3);
        assert forall|p: int| 0 <= p < xdefs(d).len() implies ((#[trigger] xdefs(d)[p]).info < 16 <==> p < sum(d, floc())) by {
            if p < xdefs(t).len() { assert(xdefs(d)[p] == xdefs(t)[p]); } else { assert(xdefs(d)[p] == dsyms(y, n + 3)[p - xdefs(t).len()]); }
        }
    }
}
pub proof fn obj09<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p09(v_of(e)),
{
    same_ctx(e, a);
    sizes(e);
    heads(e);
    let v = v_of(e);
    let d = a.defs();
    assert forall|i: int| 0 <= i < d.len() implies dlocal((#[trigger] d[i]).decl) == (i < a.ldefs().len()) by { def_decl(a, i); }
    locals(d, a.ldefs().len() as int);
    assert forall|k: int| 0 <= k < v.syms.len() implies ((#[trigger] v.syms[k]).st_info < 16 <==> k < v.shdrs[2].sh_info) by {
        entry(e, a, k);
        let p = k - 2 - d.len();
        if p >= 0 { if p < xdefs(d).len() { assert(xall(a)[p] == xdefs(d)[p]); } else { assert(xall(a)[p] == imp_sym(a.imps()[p - xdefs(d).len()].0)); } }
    }
}
pub proof fn obj10<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p10(a, v_of(e)),
{
    same_ctx(e, a);
    sizes(e);
    heads(e);
    let v = v_of(e);
    let d = a.defs();
    let x = xall(a);
    let n = v.shdrs.len() as int;
    strtab_ends(strs1(e));
    all_names(e);
    entry(e, a, 1);
    at_names(e, a.name@, e.special_symbols@[1].st_name as int);
    assert forall|p: int| 0 <= p < x.len() implies resolves(v.tab, (#[trigger] x[p]).name, v.syms[2 + d.len() + p].st_name as int) by {
        entry(e, a, 2 + d.len() + p);
        at_names(e, x[p].name, e.symbols@[p].1.st_name as int);
    }
    assert forall|i: int| 0 <= i < d.len() implies resolves(v.tab, secname(#[trigger] d[i]), v.shdrs[i + 3].sh_name as int) by {
        defsec(e, a, i);
        at_names(e, secname(d[i]), v.shdrs[i + 3].sh_name as int);
    }
    assert forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 implies 3 <= v.shdrs[s].sh_info < 3 + d.len() && resolves(v.tab, relname(secname(d[v.shdrs[s].sh_info - 3])), v.shdrs[s].sh_name as int) by {
        relsec(e, a, s);
        let i = v.shdrs[s].sh_info - 3;
        defsec(e, a, i);
        reveal(named);
        sfind_lemma(e.strings@, secname(d[i]));
        at_names(e, relname(secname(d[i])), v.shdrs[s].sh_name as int);
    }
}
pub proof fn obj11<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p11(a, v_of(e)),
{
    broadcast use crate::indexmap::indexmap_wf;
    same_ctx(e, a);
    heads(e);
    let v = v_of(e);
    let k = a.flinks().len() as int;
    let n = v.shdrs.len() as int;
    let b = relbase(e);
    reveal(rep_rels);
    assert forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 implies v.shdrs[s].sh_link == 2 && v.rels[s] == rgroup(a, k, v.shdrs[s].sh_info as int) && v.rels[s].len() > 0 by {
        relsec(e, a, s);
        assert(e.relocations@[s - b].1.1@ == rgroup(a, k, e.relocations@[s - b].0 as int));
    }
    assert forall|s: int, t: int| 0 <= s < t < n && (#[trigger] v.shdrs[s]).sh_type == 4 && (#[trigger] v.shdrs[t]).sh_type == 4 implies v.shdrs[s].sh_info != v.shdrs[t].sh_info by {
        relsec(e, a, s);
        relsec(e, a, t);
        reveal(distinct);
        assert(e.relocations@[s - b].0 != e.relocations@[t - b].0);
    }
    assert forall|q: int| 0 <= q < k implies rel_section(v, #[trigger] lkey(a, q)) by {
        lplace(e, a, k, q);
        let key = lkey(a, q) as usize;
        assert(hask(e.relocations@, key));
        find_lemma(e.relocations@, key);
        let g = find(e.relocations@, key);
        relsec(e, a, b + g);
        assert(v.shdrs[b + g] == relhdr(e, g));
    }
}
pub proof fn obj13<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures p13(a, image(e), v_of(e)), p14(v_of(e)), p15(a, v_of(e)),
{
    same_ctx(e, a);
    heads(e);
    places(e);
    sizes(e);
    obj_apart(e, a);
    let v = v_of(e);
    let c = e.ctx;
    let n = v.shdrs.len() as int;
    let b = relbase(e);
    assert forall|s: int| 0 <= s < n && (#[trigger] v.shdrs[s]).sh_type == 4 implies v.shdrs[s].sh_entsize == relsize(true, c) && v.shdrs[s].sh_offset as int % wsz(c) == 0 && v.shdrs[s].sh_flags == 0x40 by {
        relsec(e, a, s);
        let g = s - b;
        rel_sizes(e, g);
        aligned_group(e, g);
    }
    assert forall|s: int| 3 + a.defs().len() + (if v.shx > 0 { 1int } else { 0 }) <= s < n - 1 implies (#[trigger] v.shdrs[s]).sh_type == 4 by { relsec(e, a, s); }
    assert forall|i: int| 0 <= i < a.defs().len() implies (#[trigger] v.shdrs[i + 3]).sh_type == 1 || v.shdrs[i + 3].sh_type == 8 by { defsec(e, a, i); }
    assert forall|s: int| 0 <= s < n && n < 0xff00 implies (#[trigger] v.shdrs[s]).sh_type != 18 by { relsec(e, a, s); }
    assert forall|k: int| 2 <= k < v.syms.len() implies ((#[trigger] v.syms[k]).st_shndx < 0xff00 || (v.syms[k].st_shndx == 0xffff && v.shx > 0 && v.xi[k] >= 0xff00)) by { entry(e, a, k); }
}
/// groups of relocations start at multiples of the word size
pub proof fn aligned_group<'a>(e: &Elf<'a>, g: int)
    requires writable(e), 0 <= g < e.relocations@.len(),
    ensures (o_rel(e) + catoff(e.relocations@, frels(e.ctx), g)) % wsz(e.ctx) == 0, relhdr(e, g).sh_offset == o_rel(e) + catoff(e.relocations@, frels(e.ctx), g),
    decreases g,
{
    places(e);
    sizes(e);
    rel_sizes(e, g);
    let c = e.ctx;
    if g > 0 {
        aligned_group(e, g - 1);
        rel_sizes(e, g - 1);
        let w = wsz(c);
        let q = e.relocations@[g - 1].1.1@.len() as int;
        let z = relsize(true, c);
        assert(z == (if c.big() { 24int } else { 12 }));
        assert(z * q == 3 * w * q) by (nonlinear_arith) requires z == 3 * w;
        let x = o_rel(e) + catoff(e.relocations@, frels(c), g - 1);
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(3 * q, x, w);
        assert(w * (3 * q) == 3 * w * q) by (nonlinear_arith);
    } else { cat_all(e.relocations@, frels(c)); }
}
pub open spec fn object_of(a: &Artifact, b: Seq<u8>, v: ElfV) -> bool {
    &&& encodes(b, ctx_of(&a.target), v)
    &&& p06(a, b, v) && p07(a, v) && p08(a, v) && p09(v) && p10(a, v) && p11(a, v) && p13(a, b, v) && p14(v) && p15(a, v) && p22(a, v)
}
/// the bytes are an ELF object with all that the artifact says and nothing else
pub open spec fn elf_object(a: &Artifact, b: Seq<u8>) -> bool { exists|v: ElfV| #[trigger] object_of(a, b, v) }
pub proof fn conclude<'a>(e: &Elf<'a>, a: &Artifact)
    requires done(e, a),
    ensures elf_object(a, image(e)),
{
    hide(encodes); hide(p06); hide(p07); hide(p08); hide(p09); hide(p10); hide(p11); hide(p13); hide(p14); hide(p15); hide(p22);
    same_ctx(e, a);
    obj_encodes(e, a); obj06(e, a); obj07(e, a); obj08(e, a); obj09(e, a); obj10(e, a); obj11(e, a); obj13(e, a);
    assert(object_of(a, image(e), v_of(e)));
}
}
