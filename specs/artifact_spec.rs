pub mod artifact_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::std_collections::ord_same;
use crate::target_lexicon::*;
use crate::elf_spec::*;
use crate::mach_object_spec::*;
use crate::mach_read_spec::*;
// ---------------------------------------------------------------- declarations
pub open spec fn fdecl0() -> FunctionDecl { FunctionDecl { scope: Scope::Local, visibility: Visibility::Default, align: None } }
pub open spec fn ddecl0() -> DataDecl { DataDecl { scope: Scope::Local, visibility: Visibility::Default, writable: false, datatype: DataType::Bytes, align: None } }
pub open spec fn sdecl0(kind: SectionKind) -> SectionDecl { SectionDecl { kind, datatype: DataType::Bytes, align: None } }
pub open spec fn dscope(d: DefinedDecl) -> Scope { match d { DefinedDecl::Function(f) => f.scope, DefinedDecl::Data(f) => f.scope, DefinedDecl::Section(_) => Scope::Local } }
pub open spec fn dlocal(d: DefinedDecl) -> bool { dscope(d) == Scope::Local }
pub open spec fn dwritable(d: DefinedDecl) -> bool { match d { DefinedDecl::Function(f) => false, DefinedDecl::Data(f) => f.writable, DefinedDecl::Section(s) => s.kind == SectionKind::Data } }
pub open spec fn dalign(d: DefinedDecl) -> Option<u64> { match d { DefinedDecl::Function(f) => f.align, DefinedDecl::Data(f) => f.align, DefinedDecl::Section(s) => s.align } }
/// the documented merge rule
pub open spec fn merge(a: Decl, b: Decl) -> Option<Decl> {
    if a == b { Some(a) } else {
        match (a, b) {
            (Decl::Import(ImportKind::Function), Decl::Defined(DefinedDecl::Function(_))) => Some(b),
            (Decl::Import(ImportKind::Data), Decl::Defined(DefinedDecl::Data(_))) => Some(b),
            (Decl::Defined(DefinedDecl::Function(_)), Decl::Import(ImportKind::Function)) => Some(a),
            (Decl::Defined(DefinedDecl::Data(_)), Decl::Import(ImportKind::Data)) => Some(a),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- the artifact, by name
pub ghost enum DataV { Blob(Seq<u8>), Zero(usize) }
pub open spec fn datav(d: Data) -> DataV { match d { Data::Blob(b) => DataV::Blob(b@), Data::ZeroInit(n) => DataV::Zero(n) } }
pub ghost struct DefV { pub name: Seq<char>, pub decl: DefinedDecl, pub syms: Seq<(Seq<char>, u64)>, pub data: DataV }
pub open spec fn defn<'a>(d: Definition<'a>) -> DefV { DefV { name: d.name@, decl: *d.decl, syms: d.symbols@, data: datav(*d.data) } }
pub ghost struct LinkV { pub from: Seq<char>, pub from_decl: Decl, pub to: Seq<char>, pub to_decl: Decl, pub at: u64, pub reloc: Reloc }
pub open spec fn linkv<'a>(l: LinkAndDecl<'a>) -> LinkV { LinkV { from: l.from.name@, from_decl: *l.from.decl, to: l.to.name@, to_decl: *l.to.decl, at: l.at, reloc: l.reloc } }
pub open spec fn idefv(strs: Seq<Seq<char>>, d: InternalDefinition) -> DefV { DefV { name: strs[d.name as int], decl: d.decl, syms: d.symbols@, data: datav(d.data) } }
pub open spec fn data_legal(decl: DefinedDecl, data: DataV, nsyms: int) -> bool { (data is Zero ==> decl is Data) && (nsyms > 0 ==> decl is Section) }

/// names whose declaration is not an import and that have no definition, in declaration order
pub open spec fn undef(d: Seq<(Seq<char>, InternalDecl)>) -> Seq<Seq<char>> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else {
        let r = undef(d.drop_last());
        if !d.last().1.defined && !(d.last().1.decl is Import) { r.push(d.last().0) } else { r }
    }
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

pub open spec fn imp_ix(im: Seq<(usize, ImportKind)>, id: usize) -> bool { exists|i: int| 0 <= i < im.len() && (#[trigger] im[i]).0 == id }
pub open spec fn def_in(ds: Seq<InternalDefinition>, id: usize) -> bool { exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == id }
pub open spec fn defs_ok(ds: Seq<InternalDefinition>, local: bool, de: Seq<(usize, InternalDecl)>) -> bool {
    &&& forall|i: int| 0 <= i < ds.len() ==> hask(de, (#[trigger] ds[i]).name) && de[find(de, ds[i].name)].1 == (InternalDecl { decl: Decl::Defined(ds[i].decl), defined: true })
            && dlocal(ds[i].decl) == local && data_legal(ds[i].decl, datav(ds[i].data), ds[i].symbols@.len() as int)
    &&& forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i]).name != (#[trigger] ds[j]).name
}
pub open spec fn imports_ok(im: Seq<(usize, ImportKind)>, de: Seq<(usize, InternalDecl)>) -> bool {
    &&& forall|i: int| 0 <= i < im.len() ==> hask(de, (#[trigger] im[i]).0) && de[find(de, im[i].0)].1.decl == Decl::Import(im[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < im.len() ==> (#[trigger] im[i]).0 != (#[trigger] im[j]).0
    &&& forall|j: int| 0 <= j < de.len() && (#[trigger] de[j]).1.decl is Import ==> imp_ix(im, de[j].0)
}
impl Artifact {
    pub open spec fn strs(&self) -> Seq<Seq<char>> { self.strings@ }
    /// every declared name with its current declaration, in declaration order
    #[verifier::opaque]
    pub open spec fn decls(&self) -> Seq<(Seq<char>, InternalDecl)> { Seq::new(self.declarations@.len(), |i: int| (self.strings@[self.declarations@[i].0 as int], self.declarations@[i].1)) }
    #[verifier::opaque]
    pub open spec fn imps(&self) -> Seq<(Seq<char>, ImportKind)> { Seq::new(self.imports@.len(), |i: int| (self.strings@[self.imports@[i].0 as int], self.imports@[i].1)) }
    #[verifier::opaque]
    pub open spec fn ldefs(&self) -> Seq<DefV> { Seq::new(self.local_definitions@.len(), |i: int| idefv(self.strings@, self.local_definitions@[i])) }
    #[verifier::opaque]
    pub open spec fn gdefs(&self) -> Seq<DefV> { Seq::new(self.nonlocal_definitions@.len(), |i: int| idefv(self.strings@, self.nonlocal_definitions@[i])) }
    pub open spec fn defs(&self) -> Seq<DefV> { self.ldefs() + self.gdefs() }
    /// what a link records: the names of its ends, place and kind
    #[verifier::opaque]
    pub open spec fn lnks(&self) -> Seq<(Seq<char>, Seq<char>, u64, Reloc)> { Seq::new(self.links@.len(), |i: int| (self.strings@[self.links@[i].0 as int], self.strings@[self.links@[i].1 as int], self.links@[i].2, self.links@[i].3)) }
    /// links with their ends' current declarations
    pub open spec fn flinks(&self) -> Seq<LinkV> { Seq::new(self.lnks().len(), |i: int| LinkV { from: self.lnks()[i].0, from_decl: self.decl_of(self.lnks()[i].0), to: self.lnks()[i].1, to_decl: self.decl_of(self.lnks()[i].1), at: self.lnks()[i].2, reloc: self.lnks()[i].3 }) }
    pub open spec fn declared(&self, n: Seq<char>) -> bool { hask(self.decls(), n) }
    pub open spec fn entry_of(&self, n: Seq<char>) -> InternalDecl { self.decls()[find(self.decls(), n)].1 }
    pub open spec fn decl_of(&self, n: Seq<char>) -> Decl { self.entry_of(n).decl }
    /// the invariant of every artifact that the public interface can make
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        let n = self.strings@.len();
        let de = self.declarations@;
        &&& forall|i: int| 0 <= i < de.len() ==> (#[trigger] de[i]).0 < n && (de[i].1.defined ==> de[i].1.decl is Defined && (def_in(self.local_definitions@, de[i].0) || def_in(self.nonlocal_definitions@, de[i].0)))
        &&& imports_ok(self.imports@, de)
        &&& forall|i: int| 0 <= i < self.links@.len() ==> hask(de, (#[trigger] self.links@[i]).0) && hask(de, self.links@[i].1) && !(de[find(de, self.links@[i].0)].1.decl is Import)
        &&& defs_ok(self.local_definitions@, true, de)
        &&& defs_ok(self.nonlocal_definitions@, false, de)
    }
    /// nothing an observer can see differs
    pub open spec fn same(&self, o: &Artifact) -> bool {
        self.decls() == o.decls() && self.imps() == o.imps() && self.ldefs() == o.ldefs() && self.gdefs() == o.gdefs() && self.lnks() == o.lnks() && self.conf(o)
    }
    pub open spec fn conf(&self, o: &Artifact) -> bool { self.name == o.name && self.target == o.target && self.is_library == o.is_library }
    pub open spec fn imported(&self, n: Seq<char>, k: ImportKind) -> bool { exists|i: int| 0 <= i < self.imps().len() && #[trigger] self.imps()[i] == (n, k) }
}
pub open spec fn dfile(d: DataV) -> int { match d { DataV::Blob(b) => b.len() as int, DataV::Zero(n) => 0 } }
pub open spec fn dmem(d: DataV) -> int { match d { DataV::Blob(b) => b.len() as int, DataV::Zero(n) => n as int } }
pub open spec fn idviews<'a>(strs: Seq<Seq<char>>, v: Seq<(&'a usize, &'a InternalDecl)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| strs[*v[i].0 as int]) }
impl Artifact {
    pub proof fn ids(&self)
        requires self.wf(),
        ensures distinct(self.declarations@), nodup(self.strings@),
            forall|i: int| 0 <= i < self.imports@.len() ==> (#[trigger] self.imports@[i]).0 < self.strings@.len(),
            forall|i: int| 0 <= i < self.links@.len() ==> (#[trigger] self.links@[i]).0 < self.strings@.len() && self.links@[i].1 < self.strings@.len(),
            forall|i: int| 0 <= i < self.local_definitions@.len() ==> (#[trigger] self.local_definitions@[i]).name < self.strings@.len(),
            forall|i: int| 0 <= i < self.nonlocal_definitions@.len() ==> (#[trigger] self.nonlocal_definitions@[i]).name < self.strings@.len(),
    {
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
        broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
        let de = self.declarations@;
        assert(distinct(de));
        reveal(nodup);
        assert(nodup(self.strings@));
        assert forall|i: int| 0 <= i < self.imports@.len() implies (#[trigger] self.imports@[i]).0 < self.strings@.len() by { find_lemma(de, self.imports@[i].0); }
        assert forall|i: int| 0 <= i < self.links@.len() implies (#[trigger] self.links@[i]).0 < self.strings@.len() && self.links@[i].1 < self.strings@.len() by { find_lemma(de, self.links@[i].0); find_lemma(de, self.links@[i].1); }
        assert forall|i: int| 0 <= i < self.local_definitions@.len() implies (#[trigger] self.local_definitions@[i]).name < self.strings@.len() by { find_lemma(de, self.local_definitions@[i].name); }
        assert forall|i: int| 0 <= i < self.nonlocal_definitions@.len() implies (#[trigger] self.nonlocal_definitions@[i]).name < self.strings@.len() by { find_lemma(de, self.nonlocal_definitions@[i].name); }
    }
    /// looking a name up by its id
    pub proof fn by_id(&self, id: usize)
        requires self.wf(), hask(self.declarations@, id),
        ensures id < self.strings@.len(), self.declared(self.strings@[id as int]), self.entry_of(self.strings@[id as int]) == self.declarations@[find(self.declarations@, id)].1,
            find(self.decls(), self.strings@[id as int]) == find(self.declarations@, id),
    {
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
        self.ids();
        find_lemma(self.declarations@, id);
        sfind_at(self.strings@, id as int);
        by_name(self, self.strings@[id as int]);
    }
}
/// derived Ord compares the name too (ord_derived is read off the attribute on every run)
pub broadcast axiom fn ord_same_def(a: InternalDefinition, b: InternalDefinition) requires #[trigger] ord_same(a, b), InternalDefinition::ord_derived(), ensures a.name == b.name;

/// finding by name is finding by id
pub proof fn by_name(a: &Artifact, n: Seq<char>)
    requires a.wf(),
    ensures distinct(a.decls()), distinct(a.declarations@), nodup(a.strings@),
        sfind(a.strings@, n) < a.strings@.len() ==> a.declared(n) == hask(a.declarations@, sfind(a.strings@, n) as usize) && find(a.decls(), n) == find(a.declarations@, sfind(a.strings@, n) as usize),
        sfind(a.strings@, n) >= a.strings@.len() ==> !a.declared(n) && find(a.decls(), n) == a.decls().len(),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    reveal(distinct); reveal(nodup);
    let de = a.declarations@;
    assert(distinct(de));
    assert(nodup(a.strings@));
    assert forall|i: int, j: int| 0 <= i < j < a.decls().len() implies a.decls()[i].0 != a.decls()[j].0 by { assert(de[i].0 != de[j].0); assert(de[i].0 < a.strings@.len()); assert(de[j].0 < a.strings@.len()); }
    sfind_lemma(a.strings@, n);
    find_lemma(a.decls(), n);
    let id = sfind(a.strings@, n);
    if id < a.strings@.len() {
        let id = id as usize;
        find_lemma(de, id);
        let x = find(de, id);
        let y = find(a.decls(), n);
        if x < de.len() { assert(a.decls()[x].0 == n); if y < x { assert(a.decls()[y].0 == n); assert(de[y].0 != id); assert(a.strings@[de[y].0 as int] == n); } else if x < y { assert(a.decls()[x].0 != n); } }
        else if y < de.len() { assert(a.decls()[y].0 == n); assert(de[y].0 < a.strings@.len()); assert(de[y].0 == id); assert(false); }
    } else if find(a.decls(), n) < a.decls().len() {
        assert(a.decls()[find(a.decls(), n)].0 == n);
        assert(de[find(a.decls(), n)].0 < a.strings@.len());
    }
}

/// when nothing is undefined, everything declared that is no import is defined
pub proof fn undef_none(d: Seq<(Seq<char>, InternalDecl)>, i: int)
    requires undef(d).len() == 0, 0 <= i < d.len(),
    ensures d[i].1.defined || d[i].1.decl is Import,
    decreases d.len(),
{
    if i < d.len() - 1 { undef_none(d.drop_last(), i); assert(d.drop_last()[i] == d[i]); }
}
pub proof fn all_defined(a: &Artifact, n: Seq<char>)
    requires a.wf(), undef(a.decls()).len() == 0, a.declared(n), !(a.decl_of(n) is Import),
    ensures exists|i: int| 0 <= i < a.defs().len() && (#[trigger] a.defs()[i]).name == n,
{
    broadcast use crate::string_interner::interner_wf;
    find_lemma(a.decls(), n);
    let x = find(a.decls(), n);
    undef_none(a.decls(), x);
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::ldefs); reveal(Artifact::gdefs);
    a.ids();
    let de = a.declarations@;
    assert(de[x].1.defined);
    let id = de[x].0;
    assert(a.strings@[id as int] == n);
    if def_in(a.local_definitions@, id) {
        let i = choose|i: int| 0 <= i < a.local_definitions@.len() && (#[trigger] a.local_definitions@[i]).name == id;
        assert(a.defs()[i].name == n);
    } else {
        let i = choose|i: int| 0 <= i < a.nonlocal_definitions@.len() && (#[trigger] a.nonlocal_definitions@[i]).name == id;
        assert(a.defs()[a.ldefs().len() + i].name == n);
    }
}
/// a definition is what its name's declaration says
pub proof fn def_decl(a: &Artifact, i: int)
    requires a.wf(), 0 <= i < a.defs().len(),
    ensures a.declared(a.defs()[i].name), a.decl_of(a.defs()[i].name) == Decl::Defined(a.defs()[i].decl), data_legal(a.defs()[i].decl, a.defs()[i].data, a.defs()[i].syms.len() as int),
        dlocal(a.defs()[i].decl) == (i < a.ldefs().len()), distinct(a.defs()[i].syms),
{
    broadcast use crate::std_collections::btreemap_wf;
    a.ids();
    reveal(Artifact::wf); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::decls);
    if i < a.ldefs().len() { a.by_id(a.local_definitions@[i].name); } else { a.by_id(a.nonlocal_definitions@[i - a.ldefs().len()].name); }
}
/// what a link recorded stays true
pub proof fn link_decl(a: &Artifact, i: int)
    requires a.wf(), 0 <= i < a.flinks().len(),
    ensures a.declared(a.flinks()[i].from), a.declared(a.flinks()[i].to), a.flinks()[i].from_decl == a.decl_of(a.flinks()[i].from), a.flinks()[i].to_decl == a.decl_of(a.flinks()[i].to), !(a.flinks()[i].from_decl is Import),
{
    a.ids();
    reveal(Artifact::wf); reveal(Artifact::lnks); reveal(Artifact::decls);
    a.by_id(a.links@[i].0);
    a.by_id(a.links@[i].1);
}
/// an import is reported
pub proof fn import_decl(a: &Artifact, n: Seq<char>)
    requires a.wf(), a.declared(n), a.decl_of(n) is Import,
    ensures exists|i: int| 0 <= i < a.imps().len() && (#[trigger] a.imps()[i]).0 == n,
{
    broadcast use crate::string_interner::interner_wf;
    find_lemma(a.decls(), n);
    let x = find(a.decls(), n);
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps);
    a.ids();
    let id = a.declarations@[x].0;
    assert(a.declarations@[x].1.decl is Import);
    assert(imp_ix(a.imports@, id));
    let i = choose|i: int| 0 <= i < a.imports@.len() && (#[trigger] a.imports@[i]).0 == id;
    assert(a.imps()[i].0 == n);
}

// ---------------------------------------------------------------- steps of an artifact
pub open spec fn grew(o: &Artifact, n: &Artifact) -> bool { o.strings@.is_prefix_of(n.strings@) }
/// what interning does
pub broadcast proof fn interned(s: Seq<Seq<char>>, x: Seq<char>)
    ensures s.is_prefix_of(#[trigger] intern(s, x)), sfind(s, x) < intern(s, x).len(), intern(s, x)[sfind(s, x)] == x, s.len() <= intern(s, x).len(), 0 <= sfind(s, x) <= s.len(),
{
    sfind_lemma(s, x);
}
/// parts that stay, look the same
pub broadcast proof fn kept(o: &Artifact, n: &Artifact)
    requires o.wf(), grew(o, n),
    ensures #![trigger o.wf(), n.wf()] #![trigger o.wf(), n.imps()] #![trigger o.wf(), n.lnks()] #![trigger o.wf(), n.ldefs()] #![trigger o.wf(), n.gdefs()] #![trigger o.wf(), n.decls()]
        n.imports@ == o.imports@ ==> n.imps() == o.imps(),
        n.links@ == o.links@ ==> n.lnks() == o.lnks(),
        n.local_definitions@ == o.local_definitions@ ==> n.ldefs() == o.ldefs(),
        n.nonlocal_definitions@ == o.nonlocal_definitions@ ==> n.gdefs() == o.gdefs(),
        n.declarations@ == o.declarations@ ==> n.decls() == o.decls(),
        n.imports@ == o.imports@ && n.links@ == o.links@ && n.local_definitions@ == o.local_definitions@ && n.nonlocal_definitions@ == o.nonlocal_definitions@ && n.declarations@ == o.declarations@ ==> n.wf(),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    o.ids();
    if n.imports@ == o.imports@ { assert(n.imps() =~= o.imps()); }
    if n.links@ == o.links@ { assert(n.lnks() =~= o.lnks()); }
    if n.local_definitions@ == o.local_definitions@ { assert(n.ldefs() =~= o.ldefs()); }
    if n.nonlocal_definitions@ == o.nonlocal_definitions@ { assert(n.gdefs() =~= o.gdefs()); }
    if n.declarations@ == o.declarations@ { assert(n.decls() =~= o.decls()); }
}
/// finding by name after the names grew
pub broadcast proof fn names(o: &Artifact, nm: Seq<char>)
    requires o.wf(),
    ensures #![trigger o.wf(), intern(o.strings@, nm)] o.declared(nm) == hask(o.declarations@, sfind(o.strings@, nm) as usize), find(o.decls(), nm) == find(o.declarations@, sfind(o.strings@, nm) as usize),
        sfind(o.strings@, nm) < o.strings@.len() || !o.declared(nm),
        o.declared(nm) ==> o.entry_of(nm) == o.declarations@[find(o.declarations@, sfind(o.strings@, nm) as usize)].1,
        distinct(o.decls()),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    sfind_lemma(o.strings@, nm);
    by_name(o, nm);
    assert(o.strings@.len() < mem());
    let id = sfind(o.strings@, nm) as usize;
    if id >= o.strings@.len() {
        assert forall|i: int| 0 <= i < o.declarations@.len() implies o.declarations@[i].0 != id by {}
        find_lemma(o.declarations@, id);
    }
    find_lemma(o.declarations@, id);
}
/// the imports are the names declared as imports
pub broadcast proof fn has_import(o: &Artifact, id: usize)
    requires o.wf(),
    ensures #![trigger o.wf(), find(o.declarations@, id)] imp_ix(o.imports@, id) == (hask(o.declarations@, id) && o.declarations@[find(o.declarations@, id)].1.decl is Import),
{
    reveal(Artifact::wf);
    find_lemma(o.declarations@, id);
    if hask(o.declarations@, id) { assert(o.declarations@[find(o.declarations@, id)].0 == id); }
    if imp_ix(o.imports@, id) { let i = choose|i: int| 0 <= i < o.imports@.len() && (#[trigger] o.imports@[i]).0 == id; assert(hask(o.declarations@, o.imports@[i].0)); }
}
/// the imports that go with a (re)declaration
pub open spec fn imports_step(oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, id: usize, was: Option<Decl>, now: Decl) -> bool {
    match (was, now) {
        (None, Decl::Import(k)) => ni == oi.push((id, k)),
        (Some(Decl::Import(_)), Decl::Defined(_)) => exists|x: int| 0 <= x < oi.len() && (#[trigger] oi[x]).0 == id && (ni == oi.update(x, oi.last()).drop_last() || ni == oi.remove(x)),
        _ => ni == oi,
    }
}
pub open spec fn known(de: Seq<(usize, InternalDecl)>, id: usize) -> Option<InternalDecl> { if hask(de, id) { Some(de[find(de, id)].1) } else { None } }
pub open spec fn ent_ok(m: (usize, ImportKind), de: Seq<(usize, InternalDecl)>) -> bool { hask(de, m.0) && de[find(de, m.0)].1.decl == Decl::Import(m.1) }
/// no two entries name the same symbol
#[verifier::opaque]
pub open spec fn im_once(im: Seq<(usize, ImportKind)>) -> bool { forall|i: int, j: int| 0 <= i < j < im.len() ==> (#[trigger] im[i]).0 != (#[trigger] im[j]).0 }
/// one entry taken out, in either of the two ways an index map takes it out
pub open spec fn taken(oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, x: int, rm: bool) -> bool { 0 <= x < oi.len() && if rm { ni == oi.remove(x) } else { ni == oi.update(x, oi.last()).drop_last() } }
pub proof fn im_differ(im: Seq<(usize, ImportKind)>, a: int, b: int)
    requires im_once(im), 0 <= a < im.len(), 0 <= b < im.len(), a != b,
    ensures im[a].0 != im[b].0,
{
    reveal(im_once);
    if a < b { assert(im[a].0 != im[b].0); } else { assert(im[b].0 != im[a].0); }
}
/// where an entry that is still there was
pub open spec fn back(rm: bool, l: int, x: int, i: int) -> int { if rm { if i < x { i } else { i + 1 } } else { if i == x { l } else { i } } }
/// where an entry that stays goes
pub open spec fn forth(rm: bool, l: int, x: int, y: int) -> int { if rm { if y < x { y } else { y - 1 } } else { if y == l { x } else { y } } }
pub proof fn taken_back(oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, x: int, rm: bool, i: int)
    requires taken(oi, ni, x, rm), 0 <= i < ni.len(),
    ensures ni.len() == oi.len() - 1, ni[i] == oi[back(rm, oi.len() - 1, x, i)], 0 <= back(rm, oi.len() - 1, x, i) < oi.len(), back(rm, oi.len() - 1, x, i) != x,
{}
pub proof fn taken_forth(oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, x: int, rm: bool, y: int)
    requires taken(oi, ni, x, rm), 0 <= y < oi.len(), y != x,
    ensures 0 <= forth(rm, oi.len() - 1, x, y) < ni.len(), ni[forth(rm, oi.len() - 1, x, y)] == oi[y],
{}
pub proof fn taken_once(oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, x: int, rm: bool)
    requires taken(oi, ni, x, rm), im_once(oi),
    ensures im_once(ni),
{
    hide(taken); hide(back);
    assert forall|i: int, j: int| 0 <= i < j < ni.len() implies (#[trigger] ni[i]).0 != (#[trigger] ni[j]).0 by {
        let l = oi.len() - 1;
        taken_back(oi, ni, x, rm, i);
        taken_back(oi, ni, x, rm, j);
        assert(back(rm, l, x, i) != back(rm, l, x, j)) by { reveal(taken); reveal(back); }
        im_differ(oi, back(rm, l, x, i), back(rm, l, x, j));
    }
    reveal(im_once);
}
/// every entry is an import of the declarations
#[verifier::opaque]
pub open spec fn im_sound(im: Seq<(usize, ImportKind)>, de: Seq<(usize, InternalDecl)>) -> bool { forall|i: int| 0 <= i < im.len() ==> ent_ok(#[trigger] im[i], de) }
pub proof fn taken_sound(de: Seq<(usize, InternalDecl)>, oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, id: usize, e: InternalDecl, x: int, rm: bool)
    requires distinct(de), im_once(oi), im_sound(oi, de), taken(oi, ni, x, rm), oi[x].0 == id,
    ensures im_sound(ni, put_kv(de, id, e)),
{
    hide(taken); hide(back); hide(put_kv); hide(hask);
    put_lemma(de, id, e);
    assert forall|i: int| 0 <= i < ni.len() implies ent_ok(#[trigger] ni[i], put_kv(de, id, e)) by {
        taken_back(oi, ni, x, rm, i);
        let y = back(rm, oi.len() - 1, x, i);
        assert(0 <= x < oi.len()) by { reveal(taken); }
        im_differ(oi, x, y);
        assert(ent_ok(oi[y], de)) by { reveal(im_sound); }
    }
    reveal(im_sound);
}
/// every import of the declarations has its entry
#[verifier::opaque]
pub open spec fn im_all(im: Seq<(usize, ImportKind)>, de: Seq<(usize, InternalDecl)>) -> bool { forall|j: int| 0 <= j < de.len() && (#[trigger] de[j]).1.decl is Import ==> imp_ix(im, de[j].0) }
pub proof fn taken_all(de: Seq<(usize, InternalDecl)>, oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, id: usize, e: InternalDecl, x: int, rm: bool)
    requires distinct(de), im_all(oi, de), hask(de, id), e.decl is Defined, taken(oi, ni, x, rm), oi[x].0 == id,
    ensures im_all(ni, put_kv(de, id, e)),
{
    hide(taken); hide(forth); hide(imp_ix);
    let nd = put_kv(de, id, e);
    find_lemma(de, id);
    assert forall|j: int| 0 <= j < nd.len() && (#[trigger] nd[j]).1.decl is Import implies imp_ix(ni, nd[j].0) by {
        assert(j != find(de, id));
        assert(nd[j] == de[j]);
        assert(imp_ix(oi, de[j].0)) by { reveal(im_all); }
        let y = choose|y: int| 0 <= y < oi.len() && (#[trigger] oi[y]).0 == de[j].0;
        assert(0 <= y < oi.len() && oi[y].0 == de[j].0) by { reveal(imp_ix); }
        if y == x { find_at(de, j); assert(false); }
        taken_forth(oi, ni, x, rm, y);
        assert(imp_ix(ni, nd[j].0)) by { reveal(imp_ix); assert(ni[forth(rm, oi.len() - 1, x, y)].0 == nd[j].0); }
    }
    reveal(im_all);
}
pub proof fn imports_parts(im: Seq<(usize, ImportKind)>, de: Seq<(usize, InternalDecl)>)
    ensures imports_ok(im, de) == (im_once(im) && im_sound(im, de) && im_all(im, de)),
{
    hide(imp_ix); hide(hask);
    reveal(im_once); reveal(im_sound); reveal(im_all);
    if im_sound(im, de) { assert forall|i: int| 0 <= i < im.len() implies hask(de, (#[trigger] im[i]).0) && de[find(de, im[i].0)].1.decl == Decl::Import(im[i].1) by { assert(ent_ok(im[i], de)); } }
}
pub proof fn imports_removed(de: Seq<(usize, InternalDecl)>, oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, id: usize, e: InternalDecl, x: int)
    requires distinct(de), imports_ok(oi, de), hask(de, id), e.decl is Defined, 0 <= x < oi.len(), oi[x].0 == id, ni == oi.update(x, oi.last()).drop_last() || ni == oi.remove(x),
    ensures imports_ok(ni, put_kv(de, id, e)),
{
    hide(imports_ok); hide(put_kv); hide(hask);
    let rm = ni == oi.remove(x);
    assert(taken(oi, ni, x, rm));
    imports_parts(oi, de);
    imports_parts(ni, put_kv(de, id, e));
    taken_once(oi, ni, x, rm);
    taken_sound(de, oi, ni, id, e, x, rm);
    taken_all(de, oi, ni, id, e, x, rm);
}
pub proof fn imports_kept(de: Seq<(usize, InternalDecl)>, oi: Seq<(usize, ImportKind)>, ni: Seq<(usize, ImportKind)>, id: usize, e: InternalDecl)
    requires distinct(de), imports_ok(oi, de), imports_step(oi, ni, id, match known(de, id) { Some(p) => Some(p.decl), None => None }, e.decl),
        known(de, id) matches Some(p) ==> (p.decl is Defined ==> e.decl == p.decl) && (p.decl is Import && e.decl is Import ==> e.decl == p.decl),
    ensures imports_ok(ni, put_kv(de, id, e)),
{
    let nd = put_kv(de, id, e);
    put_lemma(de, id, e);
    find_lemma(de, id);
    if hask(de, id) && de[find(de, id)].1.decl is Import && e.decl is Defined {
        let x = choose|x: int| 0 <= x < oi.len() && (#[trigger] oi[x]).0 == id && (ni == oi.update(x, oi.last()).drop_last() || ni == oi.remove(x));
        imports_removed(de, oi, ni, id, e, x);
    } else {
        assert forall|i: int| 0 <= i < oi.len() implies ent_ok(#[trigger] ni[i], nd) && ni[i] == oi[i] by { assert(ni[i] == oi[i]); assert(hask(de, oi[i].0)); }
        assert forall|i: int| 0 <= i < ni.len() implies ent_ok(#[trigger] ni[i], nd) by { if i >= oi.len() { assert(ni[i] == ni.last()); } }
        assert forall|i: int, j: int| 0 <= i < j < ni.len() implies (#[trigger] ni[i]).0 != (#[trigger] ni[j]).0 by { assert(ni[i] == oi[i]); if j < oi.len() { assert(ni[j] == oi[j]); assert(oi[i].0 != oi[j].0); } else { assert(hask(de, oi[i].0)); } }
        assert forall|j: int| 0 <= j < nd.len() && (#[trigger] nd[j]).1.decl is Import implies imp_ix(ni, nd[j].0) by {
            if j < de.len() {
                assert(de[j].0 == nd[j].0 && de[j].1.decl is Import);
                assert(imp_ix(oi, de[j].0));
                let y = choose|y: int| 0 <= y < oi.len() && (#[trigger] oi[y]).0 == de[j].0;
                assert(ni[y] == oi[y]);
            } else { assert(ni[oi.len() as int].0 == id); }
        }
        assert forall|i: int| 0 <= i < ni.len() implies hask(nd, (#[trigger] ni[i]).0) && nd[find(nd, ni[i].0)].1.decl == Decl::Import(ni[i].1) by { assert(ent_ok(ni[i], nd)); }
    }
}
/// one (re)declaration
pub broadcast proof fn declared_step(o: &Artifact, n: &Artifact)
    requires o.wf(), grew(o, n),
    ensures #![trigger o.wf(), n.wf()] #![trigger o.wf(), n.decls()] forall|id: usize, e: InternalDecl| n.declarations@ == #[trigger] put_kv(o.declarations@, id, e) && id < n.strings@.len()
        && n.links@ == o.links@ && n.local_definitions@ == o.local_definitions@ && n.nonlocal_definitions@ == o.nonlocal_definitions@
        && (match known(o.declarations@, id) { Some(p) => e.defined == p.defined && (p.decl is Defined ==> e.decl == p.decl) && (p.decl is Import && e.decl is Import ==> e.decl == p.decl), None => !e.defined })
        ==> n.decls() == put_kv(o.decls(), n.strings@[id as int], e) && (imports_step(o.imports@, n.imports@, id, match known(o.declarations@, id) { Some(p) => Some(p.decl), None => None }, e.decl) ==> n.wf()),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    assert forall|id: usize, e: InternalDecl| n.declarations@ == #[trigger] put_kv(o.declarations@, id, e) && id < n.strings@.len()
        && n.links@ == o.links@ && n.local_definitions@ == o.local_definitions@ && n.nonlocal_definitions@ == o.nonlocal_definitions@
        && (match known(o.declarations@, id) { Some(p) => e.defined == p.defined && (p.decl is Defined ==> e.decl == p.decl) && (p.decl is Import && e.decl is Import ==> e.decl == p.decl), None => !e.defined })
        implies n.decls() == put_kv(o.decls(), n.strings@[id as int], e) && (imports_step(o.imports@, n.imports@, id, match known(o.declarations@, id) { Some(p) => Some(p.decl), None => None }, e.decl) ==> n.wf()) by
    {
        let de = o.declarations@;
        let nd = n.declarations@;
        reveal(nodup);
        o.ids();
        put_lemma(de, id, e);
        find_lemma(de, id);
        let nm = n.strings@[id as int];
        find_lemma(o.decls(), nm);
        assert(n.decls() =~= put_kv(o.decls(), nm, e)) by {
            if hask(de, id) { o.by_id(id); } else {
                assert forall|i: int| 0 <= i < o.decls().len() implies (#[trigger] o.decls()[i]).0 != nm by { assert(de[i].0 != id); assert(n.strings@[de[i].0 as int] == o.strings@[de[i].0 as int]); }
                find_none(o.decls(), nm);
            }
        }
        if imports_step(o.imports@, n.imports@, id, match known(de, id) { Some(p) => Some(p.decl), None => None }, e.decl) {
            imports_kept(de, o.imports@, n.imports@, id, e);
            assert forall|i: int| 0 <= i < nd.len() implies (#[trigger] nd[i]).0 < n.strings@.len() && (nd[i].1.defined ==> nd[i].1.decl is Defined && (def_in(n.local_definitions@, nd[i].0) || def_in(n.nonlocal_definitions@, nd[i].0))) by {
                if i < de.len() { assert(nd[i].0 == de[i].0); assert(de[i].0 < o.strings@.len()); if nd[i] != de[i] { assert(i == find(de, id)); } }
            }
            assert forall|i: int| 0 <= i < n.links@.len() implies hask(nd, (#[trigger] n.links@[i]).0) && hask(nd, n.links@[i].1) && !(nd[find(nd, n.links@[i].0)].1.decl is Import) by {
                let l = o.links@[i]; assert(hask(de, l.0) && hask(de, l.1)); 
            }
            assert(defs_ok(n.local_definitions@, true, nd)) by { assert forall|i: int| 0 <= i < n.local_definitions@.len() implies hask(nd, (#[trigger] n.local_definitions@[i]).name) && nd[find(nd, n.local_definitions@[i].name)].1 == (InternalDecl { decl: Decl::Defined(n.local_definitions@[i].decl), defined: true }) by { assert(hask(de, o.local_definitions@[i].name)); } }
            assert(defs_ok(n.nonlocal_definitions@, false, nd)) by { assert forall|i: int| 0 <= i < n.nonlocal_definitions@.len() implies hask(nd, (#[trigger] n.nonlocal_definitions@[i]).name) && nd[find(nd, n.nonlocal_definitions@[i].name)].1 == (InternalDecl { decl: Decl::Defined(n.nonlocal_definitions@[i].decl), defined: true }) by { assert(hask(de, o.nonlocal_definitions@[i].name)); } }
        }
    }
}

/// a new artifact
pub broadcast proof fn emptied(n: &Artifact)
    requires n.strings@.len() == 0, n.imports@.len() == 0, n.links@.len() == 0, n.local_definitions@.len() == 0, n.nonlocal_definitions@.len() == 0, n.declarations@.len() == 0,
    ensures #[trigger] n.wf(), n.decls().len() == 0, n.imps().len() == 0, n.lnks().len() == 0, n.ldefs().len() == 0, n.gdefs().len() == 0,
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
}
pub open spec fn one_in(o: Seq<InternalDefinition>, n: Seq<InternalDefinition>, id: usize, d: DefinedDecl, data: DataV, syms: Seq<(Seq<char>, u64)>) -> bool {
    exists|i: int, x: InternalDefinition| 0 <= i <= o.len() && n == #[trigger] o.insert(i, x) && x.name == id && x.decl == d && datav(x.data) == data && x.symbols@ == syms
}
pub open spec fn one_more(o: Seq<DefV>, n: Seq<DefV>, x: DefV) -> bool { exists|i: int| 0 <= i <= o.len() && n == #[trigger] o.insert(i, x) }
/// one more definition
pub proof fn one_defined(os: Seq<InternalDefinition>, ns: Seq<InternalDefinition>, ostr: Seq<Seq<char>>, nstr: Seq<Seq<char>>, local: bool, de: Seq<(usize, InternalDecl)>, id: usize, d: DefinedDecl, data: DataV, syms: Seq<(Seq<char>, u64)>)
    requires defs_ok(os, local, de), distinct(de), hask(de, id), de[find(de, id)].1 == (InternalDecl { decl: Decl::Defined(d), defined: false }), dlocal(d) == local, data_legal(d, data, syms.len() as int),
        one_in(os, ns, id, d, data, syms), ostr.is_prefix_of(nstr), forall|i: int| 0 <= i < os.len() ==> (#[trigger] os[i]).name < ostr.len(), id < nstr.len(),
    ensures defs_ok(ns, local, put_kv(de, id, InternalDecl { decl: Decl::Defined(d), defined: true })), def_in(ns, id), forall|k: usize| def_in(os, k) ==> #[trigger] def_in(ns, k),
        one_more(Seq::new(os.len(), |i: int| idefv(ostr, os[i])), Seq::new(ns.len(), |i: int| idefv(nstr, ns[i])), DefV { name: nstr[id as int], decl: d, syms, data }),
{
    let nd = put_kv(de, id, InternalDecl { decl: Decl::Defined(d), defined: true });
    put_lemma(de, id, InternalDecl { decl: Decl::Defined(d), defined: true });
    let (p, x) = choose|i: int, x: InternalDefinition| 0 <= i <= os.len() && ns == #[trigger] os.insert(i, x) && x.name == id && x.decl == d && datav(x.data) == data && x.symbols@ == syms;
    assert forall|i: int| 0 <= i < os.len() implies (#[trigger] os[i]).name != id by { assert(hask(de, os[i].name)); }
    assert(ns[p] == x);
    assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] ns[i]) == (if i < p { os[i] } else if i == p { x } else { os[i - 1] }) by {}
    assert forall|i: int| 0 <= i < ns.len() implies hask(nd, (#[trigger] ns[i]).name) && nd[find(nd, ns[i].name)].1 == (InternalDecl { decl: Decl::Defined(ns[i].decl), defined: true }) && dlocal(ns[i].decl) == local && data_legal(ns[i].decl, datav(ns[i].data), ns[i].symbols@.len() as int) by {
        if i != p { let y = os[if i < p { i } else { i - 1 }]; assert(hask(de, y.name)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies (#[trigger] ns[i]).name != (#[trigger] ns[j]).name by {
        let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 };
        if i != p && j != p { assert(os[a].name != os[b].name); } else if i == p { assert(os[b].name != id); } else { assert(os[a].name != id); }
    }
    assert forall|k: usize| def_in(os, k) implies #[trigger] def_in(ns, k) by { let i = choose|i: int| 0 <= i < os.len() && (#[trigger] os[i]).name == k; assert(ns[if i < p { i } else { i + 1 }].name == k); }
    let ov = Seq::new(os.len(), |i: int| idefv(ostr, os[i]));
    let nv = Seq::new(ns.len(), |i: int| idefv(nstr, ns[i]));
    let v = DefV { name: nstr[id as int], decl: d, syms, data };
    assert forall|i: int| 0 <= i < nv.len() implies nv[i] == ov.insert(p, v)[i] by { if i < p { assert(os[i].name < ostr.len()); } else if i > p { assert(os[i - 1].name < ostr.len()); } }
    assert(nv =~= ov.insert(p, v));
}
pub broadcast proof fn defined_step(o: &Artifact, n: &Artifact)
    requires o.wf(), grew(o, n),
    ensures #![trigger o.wf(), n.wf()] #![trigger o.wf(), n.ldefs()] #![trigger o.wf(), n.gdefs()] #![trigger o.wf(), n.decls()]
        forall|id: usize, e: InternalDecl, i: int, x: InternalDefinition| #![trigger put_kv(o.declarations@, id, e), o.local_definitions@.insert(i, x)] #![trigger put_kv(o.declarations@, id, e), o.nonlocal_definitions@.insert(i, x)]
            defining1(o, n, id, e, i, x) ==> defined_post(o, n, id, e, datav(x.data), x.symbols@),
{
    assert forall|id: usize, e: InternalDecl, i: int, x: InternalDefinition| #![trigger put_kv(o.declarations@, id, e), o.local_definitions@.insert(i, x)] #![trigger put_kv(o.declarations@, id, e), o.nonlocal_definitions@.insert(i, x)]
        defining1(o, n, id, e, i, x) implies defined_post(o, n, id, e, datav(x.data), x.symbols@) by { defined_lemma(o, n, id, e, datav(x.data), x.symbols@); }
}
pub open spec fn defining1(o: &Artifact, n: &Artifact, id: usize, e: InternalDecl, i: int, x: InternalDefinition) -> bool {
    &&& n.declarations@ == put_kv(o.declarations@, id, e) && id < n.strings@.len() && n.links@ == o.links@ && n.imports@ == o.imports@
    &&& known(o.declarations@, id) == Some(InternalDecl { decl: e.decl, defined: false }) && e.defined && e.decl == Decl::Defined(x.decl) && data_legal(x.decl, datav(x.data), x.symbols@.len() as int) && x.name == id
    &&& if dlocal(x.decl) { n.nonlocal_definitions@ == o.nonlocal_definitions@ && 0 <= i <= o.local_definitions@.len() && n.local_definitions@ == o.local_definitions@.insert(i, x) }
        else { n.local_definitions@ == o.local_definitions@ && 0 <= i <= o.nonlocal_definitions@.len() && n.nonlocal_definitions@ == o.nonlocal_definitions@.insert(i, x) }
}
pub open spec fn defining(o: &Artifact, n: &Artifact, id: usize, e: InternalDecl, data: DataV, syms: Seq<(Seq<char>, u64)>) -> bool {
    &&& n.declarations@ == put_kv(o.declarations@, id, e) && id < n.strings@.len() && n.links@ == o.links@ && n.imports@ == o.imports@
    &&& known(o.declarations@, id) == Some(InternalDecl { decl: e.decl, defined: false }) && e.defined && e.decl is Defined && data_legal(e.decl->Defined_0, data, syms.len() as int)
    &&& if dlocal(e.decl->Defined_0) { n.nonlocal_definitions@ == o.nonlocal_definitions@ && one_in(o.local_definitions@, n.local_definitions@, id, e.decl->Defined_0, data, syms) }
        else { n.local_definitions@ == o.local_definitions@ && one_in(o.nonlocal_definitions@, n.nonlocal_definitions@, id, e.decl->Defined_0, data, syms) }
}
pub open spec fn defined_post(o: &Artifact, n: &Artifact, id: usize, e: InternalDecl, data: DataV, syms: Seq<(Seq<char>, u64)>) -> bool {
    let v = DefV { name: n.strings@[id as int], decl: e.decl->Defined_0, syms, data };
    n.wf() && n.decls() == put_kv(o.decls(), n.strings@[id as int], e)
        && (if dlocal(v.decl) { one_more(o.ldefs(), n.ldefs(), v) } else { one_more(o.gdefs(), n.gdefs(), v) })
}
pub proof fn defined_lemma(o: &Artifact, n: &Artifact, id: usize, e: InternalDecl, data: DataV, syms: Seq<(Seq<char>, u64)>)
    requires o.wf(), grew(o, n), defining(o, n, id, e, data, syms),
    ensures defined_post(o, n, id, e, data, syms),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    let de = o.declarations@;
    let nd = n.declarations@;
    let d = e.decl->Defined_0;
    let nm = n.strings@[id as int];
    o.ids();
    put_lemma(de, id, e);
    find_lemma(de, id);
    o.by_id(id);
    assert(n.decls() =~= put_kv(o.decls(), nm, e));
    imports_kept(de, o.imports@, n.imports@, id, e);
    if dlocal(d) { one_defined(o.local_definitions@, n.local_definitions@, o.strings@, n.strings@, true, de, id, d, data, syms); }
    else { one_defined(o.nonlocal_definitions@, n.nonlocal_definitions@, o.strings@, n.strings@, false, de, id, d, data, syms); }
    assert(defs_ok(n.local_definitions@, true, nd)) by { if !dlocal(d) { assert forall|i: int| 0 <= i < n.local_definitions@.len() implies hask(nd, (#[trigger] n.local_definitions@[i]).name) && nd[find(nd, n.local_definitions@[i].name)].1 == (InternalDecl { decl: Decl::Defined(n.local_definitions@[i].decl), defined: true }) by { assert(hask(de, o.local_definitions@[i].name)); } } }
    assert(defs_ok(n.nonlocal_definitions@, false, nd)) by { if dlocal(d) { assert forall|i: int| 0 <= i < n.nonlocal_definitions@.len() implies hask(nd, (#[trigger] n.nonlocal_definitions@[i]).name) && nd[find(nd, n.nonlocal_definitions@[i].name)].1 == (InternalDecl { decl: Decl::Defined(n.nonlocal_definitions@[i].decl), defined: true }) by { assert(hask(de, o.nonlocal_definitions@[i].name)); } } }
    assert forall|i: int| 0 <= i < nd.len() implies (#[trigger] nd[i]).0 < n.strings@.len() && (nd[i].1.defined ==> nd[i].1.decl is Defined && (def_in(n.local_definitions@, nd[i].0) || def_in(n.nonlocal_definitions@, nd[i].0))) by {
        assert(nd[i].0 == de[i].0); assert(de[i].0 < o.strings@.len()); if nd[i] != de[i] { assert(i == find(de, id)); }
    }
    assert forall|i: int| 0 <= i < n.links@.len() implies hask(nd, (#[trigger] n.links@[i]).0) && hask(nd, n.links@[i].1) && !(nd[find(nd, n.links@[i].0)].1.decl is Import) by { let l = o.links@[i]; assert(hask(de, l.0) && hask(de, l.1)); }
}
/// a set cannot refuse the definition of a name that is not defined
pub broadcast proof fn no_twin(o: &Artifact, a: InternalDefinition, b: InternalDefinition)
    requires o.wf(), ord_same(a, b), hask(o.declarations@, b.name), !o.declarations@[find(o.declarations@, b.name)].1.defined,
    ensures #![trigger o.wf(), ord_same(a, b)] !o.local_definitions@.contains(a), !o.nonlocal_definitions@.contains(a),
{
    reveal(Artifact::wf);
    broadcast use ord_same_def;
}
/// one more link
pub broadcast proof fn linked_step(o: &Artifact, n: &Artifact)
    requires o.wf(), grew(o, n),
    ensures #![trigger o.wf(), n.wf()] #![trigger o.wf(), n.lnks()]
        forall|f: usize, t: usize, at: u64, k: Reloc| n.links@ == #[trigger] o.links@.push((f, t, at, k)) && n.imports@ == o.imports@ && n.declarations@ == o.declarations@ && n.local_definitions@ == o.local_definitions@ && n.nonlocal_definitions@ == o.nonlocal_definitions@
            && f < n.strings@.len() && t < n.strings@.len() && hask(o.declarations@, f) && hask(o.declarations@, t) && !(o.declarations@[find(o.declarations@, f)].1.decl is Import)
            ==> n.wf() && n.lnks() == o.lnks().push((n.strings@[f as int], n.strings@[t as int], at, k)),
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    o.ids();
    assert forall|f: usize, t: usize, at: u64, k: Reloc| n.links@ == #[trigger] o.links@.push((f, t, at, k)) && n.imports@ == o.imports@ && n.declarations@ == o.declarations@ && n.local_definitions@ == o.local_definitions@ && n.nonlocal_definitions@ == o.nonlocal_definitions@
            && f < n.strings@.len() && t < n.strings@.len() && hask(o.declarations@, f) && hask(o.declarations@, t) && !(o.declarations@[find(o.declarations@, f)].1.decl is Import)
            implies n.wf() && n.lnks() == o.lnks().push((n.strings@[f as int], n.strings@[t as int], at, k)) by {
        assert(n.lnks() =~= o.lnks().push((n.strings@[f as int], n.strings@[t as int], at, k)));
        assert forall|i: int| 0 <= i < n.links@.len() implies hask(n.declarations@, (#[trigger] n.links@[i]).0) && hask(n.declarations@, n.links@[i].1) && !(n.declarations@[find(n.declarations@, n.links@[i].0)].1.decl is Import) by { if i < o.links@.len() { assert(n.links@[i] == o.links@[i]); } }
    }
}
pub broadcast group steps { crate::indexmap::put_same, interned, kept, names, has_import, declared_step, emptied, defined_step, linked_step, no_twin, crate::indexmap::indexmap_wf, crate::string_interner::interner_wf }

// ---------------------------------------------------------------- what the public operations promise
pub open spec fn def_legal(a: &Artifact, name: Seq<char>, data: DataV, nsyms: int) -> bool {
    a.declared(name) && a.decl_of(name) is Defined && !a.entry_of(name).defined && data_legal(a.decl_of(name)->Defined_0, data, nsyms)
}
/// a definition that was accepted
pub open spec fn def_done(o: &Artifact, n: &Artifact, name: Seq<char>, data: DataV, syms: Seq<(Seq<char>, u64)>) -> bool {
    let d = o.decl_of(name)->Defined_0;
    let v = DefV { name, decl: d, syms, data };
    &&& n.wf() && n.conf(o) && n.lnks() == o.lnks() && n.imps() == o.imps()
    &&& n.decls() == o.decls().update(find(o.decls(), name), (name, InternalDecl { decl: Decl::Defined(d), defined: true }))
    &&& if dlocal(d) { one_more(o.ldefs(), n.ldefs(), v) && n.gdefs() == o.gdefs() } else { one_more(o.gdefs(), n.gdefs(), v) && n.ldefs() == o.ldefs() }
}
/// the reason of a refusal is the actual one
pub open spec fn def_error(a: &Artifact, name: Seq<char>, data: DataV, syms: Seq<(Seq<char>, u64)>, e: ArtifactError) -> bool {
    match e {
        ArtifactError::Undeclared(s) => s@ == name && !a.declared(name),
        ArtifactError::ImportDefined(s) => s@ == name && a.declared(name) && a.decl_of(name) is Import,
        ArtifactError::DuplicateDefinition(s) => s@ == name && a.declared(name) && a.entry_of(name).defined,
        ArtifactError::NonSectionCustomSymbols(d, m) => a.declared(name) && a.decl_of(name) == Decl::Defined(d) && !(d is Section) && m@ == syms && syms.len() > 0,
        ArtifactError::InvalidZeroInit(d) => a.declared(name) && a.decl_of(name) == Decl::Defined(d) && !(d is Data) && data is Zero,
        _ => false,
    }
}
pub open spec fn link_legal(a: &Artifact, l: Link) -> bool { a.declared(l.from@) && a.declared(l.to@) && !(a.decl_of(l.from@) is Import) }
pub open spec fn link_error(a: &Artifact, l: Link, e: ArtifactError) -> bool {
    match e {
        ArtifactError::Undeclared(s) => !a.declared(s@) && (s@ == l.from@ || s@ == l.to@),
        ArtifactError::RelocateImport(s) => s@ == l.from@ && a.declared(s@) && a.decl_of(s@) is Import,
        _ => false,
    }
}
pub open spec fn link_done(o: &Artifact, n: &Artifact, l: Link, reloc: Reloc) -> bool {
    n.wf() && n.conf(o) && n.lnks() == o.lnks().push((l.from@, l.to@, l.at, reloc)) && n.decls() == o.decls() && n.imps() == o.imps() && n.ldefs() == o.ldefs() && n.gdefs() == o.gdefs()
}
/// a redeclaration
pub open spec fn declare_post(o: &Artifact, n: &Artifact, name: Seq<char>, decl: Decl, r: Result<(), ArtifactError>) -> bool {
    &&& n.lnks() == o.lnks() && n.ldefs() == o.ldefs() && n.gdefs() == o.gdefs() && n.conf(o)
    &&& !o.declared(name) ==> r is Ok && n.decls() == o.decls().push((name, InternalDecl { decl, defined: false }))
    &&& o.declared(name) ==> (match merge(o.decl_of(name), decl) {
        Some(m) => r is Ok && n.decls() == o.decls().update(find(o.decls(), name), (name, InternalDecl { decl: m, defined: o.entry_of(name).defined })),
        None => r == Err::<(), ArtifactError>(ArtifactError::IncompatibleDeclaration { old: o.decl_of(name), new: decl }) && n.same(o),
    })
}

/// h: the artifact before and after each of the first k declarations
pub open spec fn declared_seq<'a>(h: Seq<Artifact>, o: &Artifact, n: &Artifact, items: Seq<(&'a str, Decl)>, k: int) -> bool {
    0 <= k <= items.len() && h.len() == k + 1 && h[0] == *o && h[k] == *n && forall|i: int| 0 <= i < k ==> (#[trigger] h[i]).wf() && declare_post(&h[i], &h[i + 1], items[i].0@, items[i].1, Ok(()))
}
/// every declaration in order, up to the first that is refused
pub open spec fn declared_all<'a>(o: &Artifact, n: &Artifact, items: Seq<(&'a str, Decl)>, r: Result<(), ArtifactError>) -> bool {
    exists|h: Seq<Artifact>, m: Artifact, k: int| #[trigger] declared_seq(h, o, &m, items, k)
        && match r { Ok(_) => k == items.len() && *n == m, Err(e) => k < items.len() && m.wf() && declare_post(&m, n, items[k].0@, items[k].1, Err(e)) }
}

/// the conditions under which emission is specified
pub open spec fn emit_dom(a: &Artifact, format: BinaryFormat) -> bool { match format { BinaryFormat::Elf => elf_dom(a), BinaryFormat::Macho => mach_dom(a), _ => true } }
pub open spec fn emit_post(a: &Artifact, format: BinaryFormat, r: Result<Vec<u8>, ArtifactError>) -> bool {
    if undef(a.decls()).len() > 0 { r matches Err(ArtifactError::UndefinedSymbols(v)) && views(v@) == undef(a.decls()) }
    else {
        match format {
            BinaryFormat::Elf => r is Ok && elf_object(a, r->Ok_0@),
            BinaryFormat::Macho => r is Ok && mach_object(a, r->Ok_0@),
            _ => r == Err::<Vec<u8>, ArtifactError>(ArtifactError::UnsupportedBinaryFormat(format)),
        }
    }
}
/// nothing is written unless emission succeeded; a write that succeeds wrote exactly the emitted bytes
pub open spec fn write_post(e: Result<Vec<u8>, ArtifactError>, before: Seq<u8>, after: Seq<u8>, r: Result<(), ArtifactError>) -> bool {
    match e {
        Ok(bytes) => (r is Ok ==> after == before + bytes@) && exists|k: int| 0 <= k <= bytes@.len() && after == before + #[trigger] bytes@.take(k),
        Err(x) => r == Err::<(), ArtifactError>(x) && after == before,
    }
}
/// after a declaration the name is declared
pub broadcast proof fn redeclared(o: &Artifact, n: &Artifact, name: Seq<char>, decl: Decl, r: Result<(), ArtifactError>)
    requires #[trigger] declare_post(o, n, name, decl, r), o.wf(), n.wf(),
    ensures r is Ok ==> n.declared(name),
{
    by_name(o, name);
    find_lemma(o.decls(), name);
    find_lemma(n.decls(), name);
    if r is Ok {
        if o.declared(name) { assert(n.decls()[find(o.decls(), name)].0 == name); } else { assert(n.decls()[o.decls().len() as int].0 == name); }
    }
}

/// after a definition the name is defined
pub broadcast proof fn done_defined(o: &Artifact, n: &Artifact, name: Seq<char>, data: DataV, syms: Seq<(Seq<char>, u64)>)
    requires #[trigger] def_done(o, n, name, data, syms), o.wf(), o.declared(name),
    ensures n.declared(name), n.entry_of(name).defined,
{
    by_name(o, name);
    find_lemma(o.decls(), name);
    by_name(n, name);
    find_at(n.decls(), find(o.decls(), name));
}

// the error conversions that the derived From impls of ArtifactError give `?` and into()
impl VInto<ArtifactError> for crate::goblin::error::Error {
    open spec fn vi_req(self) -> bool { true }
    open spec fn vi_ens(self, r: ArtifactError) -> bool { r == ArtifactError::Goblin(self) }
    fn v_into(self) -> (r: ArtifactError) { ArtifactError::Goblin(self) }
}
impl VInto<ArtifactError> for crate::std_io::Error {
    open spec fn vi_req(self) -> bool { true }
    open spec fn vi_ens(self, r: ArtifactError) -> bool { r == ArtifactError::Io(self) }
    fn v_into(self) -> (r: ArtifactError) { ArtifactError::Io(self) }
}
}
