pub mod elf_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::elf::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::target_spec::*;
use crate::seq_spec::*;
use crate::target_lexicon::*;
use crate::goblin::container::Ctx;
use crate::goblin::elf::sym::*;
use crate::goblin::elf::section_header::*;
pub use crate::goblin::elf::header::{ehsize, enc_header};
pub use crate::goblin::elf::reloc::{relsize, enc_reloc};
pub use crate::goblin::elf::reloc::Reloc as GReloc;
pub use crate::elf_object_spec::{elf_dom, elf_object};
// std's blanket Into from From
impl VInto<MachineTag> for Architecture {
    open spec fn vi_req(self) -> bool { elf_machine(self) is Some }
    open spec fn vi_ens(self, r: MachineTag) -> bool { r.0 == elf_machine(self)->Some_0 }
    fn v_into(self) -> (r: MachineTag) { MachineTag::from(self) }
}

// ---------------------------------------------------------------- what the builders make
pub open spec fn stb(s: Scope) -> int { match s { Scope::Local => 0, Scope::Global => 1, Scope::Weak => 2 } }
pub open spec fn stv(v: Visibility) -> int { match v { Visibility::Default => 0, Visibility::Hidden => 2, Visibility::Protected => 3 } }
pub open spec fn dvis(d: DefinedDecl) -> Visibility { match d { DefinedDecl::Function(f) => f.visibility, DefinedDecl::Data(f) => f.visibility, DefinedDecl::Section(_) => Visibility::Default } }
/// type and binding
pub open spec fn st_info(t: SymbolType) -> int {
    match t {
        SymbolType::Decl(DefinedDecl::Function(f)) => 2 + 16 * stb(f.scope),
        SymbolType::Decl(DefinedDecl::Data(f)) => 1 + 16 * stb(f.scope),
        SymbolType::Decl(DefinedDecl::Section(_)) | SymbolType::Section => 3,
        SymbolType::Import => 16,
        SymbolType::File => 4,
        SymbolType::None => 0,
    }
}
pub open spec fn st_other(t: SymbolType) -> int { match t { SymbolType::Decl(d) => stv(dvis(*d)), _ => 0 } }
pub open spec fn st_shndx(t: SymbolType, shndx: usize) -> usize { if t is File { 0xfff1 } else { shndx } }

pub open spec fn sb_align(b: SectionBuilder) -> u64 { match b.align { Some(a) => a, None => if b.exec_ { 16 } else if b.write { 8 } else { 1 } } }
pub open spec fn sb_flags(b: SectionBuilder) -> int { (if b.write { 1int } else { 0 }) + (if b.alloc { 2int } else { 0 }) + (if b.exec_ { 4int } else { 0 }) }
pub open spec fn sb_type(b: SectionBuilder) -> u32 {
    match b.typ { SectionType::NoBits => 8, SectionType::Bits | SectionType::Data | SectionType::String => 1, SectionType::StrTab => 3, SectionType::SymTab => 2, SectionType::Relocation => 4, SectionType::SymTabShndx => 18, SectionType::None => 0 }
}
pub open spec fn sb_hdr(b: SectionBuilder, c: Ctx) -> SectionHeader {
    SectionHeader {
        sh_name: b.name_offset, sh_type: sb_type(b), sh_addr: 0, sh_offset: 0, sh_size: b.size, sh_link: 0, sh_info: 0,
        sh_flags: match b.typ {
            SectionType::NoBits => 3 + (if b.exec_ { 4int } else { 0 }),
            SectionType::String => 0x30 + sb_flags(b),
            SectionType::Relocation => 0,
            _ => sb_flags(b),
        } as u64,
        sh_addralign: match b.typ { SectionType::NoBits | SectionType::Bits | SectionType::Data | SectionType::String => sb_align(b), SectionType::StrTab => 1, SectionType::SymTab | SectionType::Relocation => 8, SectionType::SymTabShndx => 4, SectionType::None => 0 },
        sh_entsize: match b.typ { SectionType::SymTab => symsize(c.container) as u64, SectionType::Relocation => relsize(true, c) as u64, SectionType::SymTabShndx => 4, _ => 0 },
    }
}


// ---------------------------------------------------------------- what a definition becomes
pub ghost struct XSym { pub name: Seq<char>, pub info: int, pub other: int, pub shndx: int, pub value: int, pub size: int }
pub open spec fn def_sym(d: DefV, sh: int) -> XSym { XSym { name: d.name, info: (if d.decl is Function { 2int } else { 1 }) + 16 * stb(dscope(d.decl)), other: stv(dvis(d.decl)), shndx: sh, value: 0, size: dmem(d.data) } }
pub open spec fn cus_sym(y: (Seq<char>, u64), sh: int) -> XSym { XSym { name: y.0, info: 0, other: 0, shndx: sh, value: y.1 as int, size: 0 } }
pub open spec fn imp_sym(name: Seq<char>) -> XSym { XSym { name, info: 16, other: 0, shndx: 0, value: 0, size: 0 } }
/// the symbols of a definition whose section has index sh
pub open spec fn dsyms(d: DefV, sh: int) -> Seq<XSym> { if d.decl is Section { Seq::new(d.syms.len(), |i: int| cus_sym(d.syms[i], sh)) } else { seq![def_sym(d, sh)] } }
pub open spec fn symfields(s: Sym, x: XSym) -> bool { s.st_info as int == x.info && s.st_other as int == x.other && s.st_shndx as int == x.shndx && s.st_value as int == x.value && s.st_size as int == x.size }
/// an entry says what it should, and its name is where it says
pub open spec fn symok(s: Seq<Seq<char>>, e: (usize, Sym), x: XSym) -> bool { e.0 as int == sfind(s, x.name) && named(s, x.name, e.1.st_name as int) && symfields(e.1, x) }
pub open spec fn syms_ok(s: Seq<Seq<char>>, y: Seq<(usize, Sym)>, x: Seq<XSym>) -> bool { y.len() == x.len() && forall|k: int| 0 <= k < y.len() ==> symok(s, #[trigger] y[k], x[k]) }

pub open spec fn secname(d: DefV) -> Seq<char> {
    match d.decl {
        DefinedDecl::Function(_) => cat2(".text."@, d.name),
        DefinedDecl::Data(f) => cat2(if d.data is Zero { ".bss."@ } else if f.writable { ".data."@ } else { ".rodata."@ }, d.name),
        DefinedDecl::Section(_) => d.name,
    }
}
pub open spec fn relname(n: Seq<char>) -> Seq<char> { cat2(".rela"@, n) }
pub open spec fn dtype(d: DefinedDecl) -> DataType { match d { DefinedDecl::Function(_) => DataType::Bytes, DefinedDecl::Data(f) => f.datatype, DefinedDecl::Section(f) => f.datatype } }
pub open spec fn mergeable(d: DefV) -> bool { d.data is Blob && (dtype(d.decl) == DataType::String || (d.decl is Section && (d.name == ".debug_str"@ || d.name == ".debug_line_str"@))) }
/// a definition's section header: everything but name and place
pub open spec fn sechdr(h: SectionHeader, d: DefV) -> bool {
    &&& h.sh_type == (if d.data is Zero { 8u32 } else { 1 }) //#C07,C22
    &&& h.sh_flags as int == (if mergeable(d) { 0x30int } else { 0 }) + (match d.decl { DefinedDecl::Function(_) => 6int, DefinedDecl::Data(f) => if f.writable || d.data is Zero { 3 } else { 2 }, DefinedDecl::Section(_) => 0 }) //#C07,C22
    &&& h.sh_size as int == dmem(d.data) //#C07,C22
    &&& h.sh_addralign == (match dalign(d.decl) { Some(a) => a, None => match d.decl { DefinedDecl::Function(_) => 16u64, DefinedDecl::Data(f) => if f.writable { 8 } else { 1 }, DefinedDecl::Section(_) => 1 } }) //#C07,C22
    &&& h.sh_addr == 0 && h.sh_link == 0 && h.sh_info == 0 && h.sh_entsize == 0 //#C13
}
pub open spec fn secsym(y: Sym, sh: int) -> bool { y.st_name == 0 && y.st_info == 3 && y.st_other == 0 && y.st_shndx as int == sh && y.st_value == 0 && y.st_size == 0 }
pub open spec fn secok(s: Seq<Seq<char>>, e: (usize, SectionInfo), d: DefV, i: int, off: int) -> bool {
    &&& e.0 as int == sfind(s, secname(d)) && named(s, secname(d), e.1.header.sh_name as int) && e.1.name == e.0 //#C10
    &&& sechdr(e.1.header, d) //#C07,C22
    &&& e.1.header.sh_offset as int == off //#C06
    &&& secsym(e.1.symbol, i + 3) //#C08
}
pub open spec fn fdata() -> spec_fn(DefV) -> Seq<u8> { |d: DefV| match d.data { DataV::Blob(b) => b, DataV::Zero(_) => Seq::empty() } }
pub open spec fn fcode<'a>() -> spec_fn((usize, &'a [u8])) -> Seq<u8> { |e: (usize, &'a [u8])| e.1@ }

// ---------------------------------------------------------------- the object under construction
/// what a definition adds to the string table, at most
pub open spec fn symcost(x: Seq<XSym>) -> int decreases x.len() { if x.len() == 0 { 0 } else { symcost(x.drop_last()) + utf8(x.last().name).len() + 1 } }
pub open spec fn defcost(d: DefV) -> int { utf8(secname(d)).len() + 1 + symcost(dsyms(d, 0)) }
pub open spec fn lim() -> int { 0x1_0000_0000 }
pub open spec fn rel_ok(s: Seq<Seq<char>>, se: Seq<(usize, SectionInfo)>, c: Ctx, key: usize, h: SectionHeader, n: int) -> bool {
    &&& 3 <= key < 3 + se.len()
    &&& named(s, relname(s[se[key - 3].0 as int]), h.sh_name as int) //#C10
    &&& h.sh_type == 4 && h.sh_flags == 0x40 && h.sh_addr == 0 && h.sh_offset == 0 && h.sh_addralign == 8 && h.sh_entsize as int == relsize(true, c) //#C11,C13
    &&& h.sh_size as int == relsize(true, c) * n //#C13
    &&& h.sh_link == 2 && h.sh_info == key //#C11
}
impl<'a> Elf<'a> {
    pub open spec fn ss(&self) -> Seq<Seq<char>> { self.strings@ }
    pub open spec fn wf(&self) -> bool {
        &&& str_wf(self.strings@, self.offsets@, self.sizeof_strtab as int) //#C10
        &&& self.strings@.len() >= 2 && self.strings@[0] == ".strtab"@ && self.strings@[1] == ".symtab"@ //#C10
        &&& self.special_symbols@.len() == 2
        &&& forall|k: int| 0 <= k < self.symbols@.len() ==> (#[trigger] self.symbols@[k]).0 < self.strings@.len()
        &&& forall|k: int| 0 <= k < self.sections@.len() ==> (#[trigger] self.sections@[k]).0 < self.strings@.len() && self.sections@[k].1.name == self.sections@[k].0
        &&& forall|k: int| 0 <= k < self.code@.len() ==> hask(self.sections@, (#[trigger] self.code@[k]).0)
        &&& self.nsections == 4 + self.sections@.len() + self.relocations@.len() //#C13,C14
        &&& forall|k: int| 0 <= k < self.relocations@.len() ==> rel_ok(self.strings@, self.sections@, self.ctx, (#[trigger] self.relocations@[k]).0, self.relocations@[k].1.0, self.relocations@[k].1.1@.len() as int)
        &&& self.nlocals <= self.symbols@.len()
    }
    /// only the strings differ
    pub open spec fn new_strings(&self, o: &Elf<'a>) -> bool { *self == (Elf { strings: self.strings, offsets: self.offsets, sizeof_strtab: self.sizeof_strtab, ..*o }) && o.strings@.is_prefix_of(self.strings@) }
    pub open spec fn sec_fresh(&self, name: Seq<char>) -> bool { forall|k: int| 0 <= k < self.sections@.len() ==> self.strings@[(#[trigger] self.sections@[k]).0 as int] != name }
    /// the name has a section or symbol
    pub open spec fn has(&self, name: Seq<char>, d: Decl) -> bool {
        let id = sfind(self.strings@, name);
        id < self.strings@.len() && (if is_sec(d) { hask(self.sections@, id as usize) } else { hask(self.symbols@, id as usize) })
    }
    /// the section a name is in
    pub open spec fn shof(&self, name: Seq<char>, d: Decl) -> int {
        let id = sfind(self.strings@, name) as usize;
        if is_sec(d) { find(self.sections@, id) + 3 } else { self.symbols@[find(self.symbols@, id)].1.st_shndx as int }
    }
    /// the symbol that stands for a name in relocations
    pub open spec fn symof(&self, name: Seq<char>, d: Decl) -> int {
        if d is Defined { self.shof(name, d) - 3 + 2 } else { find(self.symbols@, sfind(self.strings@, name) as usize) + 2 + self.sections@.len() }
    }
    pub open spec fn nrels(&self, key: usize) -> int { if hask(self.relocations@, key) { self.relocations@[find(self.relocations@, key)].1.1@.len() as int } else { 0 } }
    pub open spec fn sym_fresh(&self, name: Seq<char>) -> bool { forall|k: int| 0 <= k < self.symbols@.len() ==> self.strings@[(#[trigger] self.symbols@[k]).0 as int] != name }
    pub open spec fn added_section(&self, o: &Elf<'a>, name: Seq<char>, b: SectionBuilder, id: usize) -> bool {
        &&& *self =~= (Elf { strings: self.strings, offsets: self.offsets, sizeof_strtab: self.sizeof_strtab, sections: self.sections, nsections: self.nsections, code: self.code, sizeof_bits: self.sizeof_bits, ..*o })
        &&& o.strings@.is_prefix_of(self.strings@) && self.sizeof_strtab <= o.sizeof_strtab + utf8(name).len() + 1
        &&& id as int == sfind(self.strings@, name) && id < self.strings@.len()
        &&& self.sections@.len() == o.sections@.len() + 1 && self.sections@.drop_last() =~= o.sections@ && self.sections@.last().0 == id
        &&& !hask(o.sections@, id)
        &&& secsym(self.sections@.last().1.symbol, o.sections@.len() as int + 3) //#C08
        &&& self.sections@.last().1.header =~= (SectionHeader { sh_name: self.sections@.last().1.header.sh_name, sh_offset: o.sizeof_bits as u64, ..sb_hdr(b, o.ctx) }) //#C06,C07,C13,C22
        &&& named(self.strings@, name, self.sections@.last().1.header.sh_name as int) //#C10
    }
}
pub proof fn rel_grow<'a>(o: &Elf<'a>, n: &Elf<'a>)
    requires o.wf(), o.strings@.is_prefix_of(n.strings@), o.sections@.is_prefix_of(n.sections@), n.ctx == o.ctx, n.relocations@ == o.relocations@,
    ensures forall|k: int| 0 <= k < n.relocations@.len() ==> rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int),
{
    assert forall|k: int| 0 <= k < n.relocations@.len() implies rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int) by {
        let r = o.relocations@[k];
        assert(rel_ok(o.strings@, o.sections@, o.ctx, r.0, r.1.0, r.1.1@.len() as int));
        let e = o.sections@[r.0 - 3];
        assert(n.sections@[r.0 - 3] == e);
        assert(o.strings@[e.0 as int] == n.strings@[e.0 as int]);
        named_grow(o.strings@, n.strings@, relname(o.strings@[e.0 as int]), r.1.0.sh_name as int);
    }
}
pub proof fn code_keys<'a>(c: Seq<(usize, &'a [u8])>, o: Seq<(usize, SectionInfo)>, n: Seq<(usize, SectionInfo)>)
    requires forall|k: int| 0 <= k < c.len() ==> hask(o, (#[trigger] c[k]).0), o.is_prefix_of(n),
    ensures forall|k: int| 0 <= k < c.len() ==> hask(n, (#[trigger] c[k]).0),
{
    assert forall|k: int| 0 <= k < c.len() implies hask(n, (#[trigger] c[k]).0) by { find_lemma(o, c[k].0); find_lemma(n, c[k].0); assert(n[find(o, c[k].0)].0 == c[k].0); }
}
/// one more section
pub broadcast proof fn sec_step<'a>(o: &Elf<'a>, n: &Elf<'a>)
    requires o.wf(), o.strings@.is_prefix_of(n.strings@), n.ctx == o.ctx, n.relocations@ == o.relocations@,
    ensures #![trigger o.wf(), n.wf()]
        forall|id: usize, x: SectionInfo| #[trigger] put_kv(o.sections@, id, x) == n.sections@ && id < n.strings@.len() && o.sec_fresh(n.strings@[id as int]) ==>
            !hask(o.sections@, id) && n.sections@ == o.sections@.push((id, x)) && n.sections@.drop_last() == o.sections@
            && (forall|k: int| 0 <= k < n.relocations@.len() ==> rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int))
            && (forall|k: int| 0 <= k < o.code@.len() ==> hask(n.sections@, (#[trigger] o.code@[k]).0)),
{
    assert forall|id: usize, x: SectionInfo| #[trigger] put_kv(o.sections@, id, x) == n.sections@ && id < n.strings@.len() && o.sec_fresh(n.strings@[id as int]) implies
            !hask(o.sections@, id) && n.sections@ == o.sections@.push((id, x)) && n.sections@.drop_last() == o.sections@
            && (forall|k: int| 0 <= k < n.relocations@.len() ==> rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int))
            && (forall|k: int| 0 <= k < o.code@.len() ==> hask(n.sections@, (#[trigger] o.code@[k]).0)) by {
        assert forall|i: int| 0 <= i < o.sections@.len() implies o.sections@[i].0 != id by { if o.sections@[i].0 == id { assert(o.strings@[id as int] == n.strings@[id as int]); } }
        find_none(o.sections@, id);
        assert(n.sections@.drop_last() =~= o.sections@);
        rel_grow(o, n);
        code_keys(o.code@, o.sections@, n.sections@);
    }
}
/// one more piece of contents
pub broadcast proof fn code_step<'a>(o: &Elf<'a>, n: &Elf<'a>)
    requires o.wf(),
    ensures #![trigger o.wf(), n.wf()]
        forall|id: usize, x: &'a [u8]| #[trigger] put_kv(o.code@, id, x) == n.code@ && !hask(o.sections@, id) ==>
            n.code@ == o.code@.push((id, x)) && cat(n.code@, fcode()) == cat(o.code@, fcode()) + x@
            && (n.sections@.len() > 0 && n.sections@.drop_last() == o.sections@ && n.sections@.last().0 == id ==> forall|k: int| 0 <= k < n.code@.len() ==> hask(n.sections@, (#[trigger] n.code@[k]).0)),
{
    assert forall|id: usize, x: &'a [u8]| #[trigger] put_kv(o.code@, id, x) == n.code@ && !hask(o.sections@, id) implies
            n.code@ == o.code@.push((id, x)) && cat(n.code@, fcode()) == cat(o.code@, fcode()) + x@
            && (n.sections@.len() > 0 && n.sections@.drop_last() == o.sections@ && n.sections@.last().0 == id ==> forall|k: int| 0 <= k < n.code@.len() ==> hask(n.sections@, (#[trigger] n.code@[k]).0)) by {
        assert forall|i: int| 0 <= i < o.code@.len() implies o.code@[i].0 != id by { assert(hask(o.sections@, o.code@[i].0)); }
        find_none(o.code@, id);
        cat_push(o.code@, (id, x), fcode());
        if n.sections@.len() > 0 && n.sections@.drop_last() == o.sections@ && n.sections@.last().0 == id {
            assert(n.sections@ =~= o.sections@.push(n.sections@.last()));
            code_keys(o.code@, o.sections@, n.sections@);
            find_lemma(n.sections@, id);
            assert(n.sections@[n.sections@.len() - 1].0 == id);
        }
    }
}
pub broadcast proof fn sfind_in(s: Seq<Seq<char>>, x: Seq<char>)
    ensures #![trigger sfind(s, x)] 0 <= sfind(s, x) <= s.len(), sfind(s, x) < s.len() ==> s[sfind(s, x)] == x,
{
    sfind_lemma(s, x);
}
/// one more symbol
pub open spec fn added_sym<'a>(o: &Elf<'a>, n: &Elf<'a>, id: usize, y: Sym) -> bool {
    &&& !hask(o.symbols@, id) && n.symbols@ == o.symbols@.push((id, y))
    &&& forall|nm: Seq<char>| n.strings@[id as int] != nm && #[trigger] o.sym_fresh(nm) ==> n.sym_fresh(nm)
}
pub broadcast proof fn sym_step<'a>(o: &Elf<'a>, n: &Elf<'a>)
    requires o.wf(), o.strings@.is_prefix_of(n.strings@),
    ensures #![trigger o.wf(), n.wf()] forall|id: usize, y: Sym| #[trigger] put_kv(o.symbols@, id, y) == n.symbols@ && id < n.strings@.len() && o.sym_fresh(n.strings@[id as int]) ==> added_sym(o, n, id, y),
{
    assert forall|id: usize, y: Sym| #[trigger] put_kv(o.symbols@, id, y) == n.symbols@ && id < n.strings@.len() && o.sym_fresh(n.strings@[id as int]) implies added_sym(o, n, id, y) by {
        assert forall|i: int| 0 <= i < o.symbols@.len() implies o.symbols@[i].0 != id by { if o.symbols@[i].0 == id { assert(o.strings@[id as int] == n.strings@[id as int]); } }
        find_none(o.symbols@, id);
        assert forall|nm: Seq<char>| n.strings@[id as int] != nm && #[trigger] o.sym_fresh(nm) implies n.sym_fresh(nm) by {
            assert forall|k: int| 0 <= k < n.symbols@.len() implies n.strings@[(#[trigger] n.symbols@[k]).0 as int] != nm by { if k < o.symbols@.len() { assert(n.symbols@[k] == o.symbols@[k]); } }
        }
    }
}
/// nothing new in the symbol table
pub broadcast proof fn sym_same<'a>(o: &Elf<'a>, n: &Elf<'a>)
    requires o.wf(), o.strings@.is_prefix_of(n.strings@), n.symbols@ == o.symbols@,
    ensures #![trigger o.wf(), n.wf()] forall|nm: Seq<char>| #[trigger] o.sym_fresh(nm) ==> n.sym_fresh(nm),
{
    assert forall|nm: Seq<char>| #[trigger] o.sym_fresh(nm) implies n.sym_fresh(nm) by {
        assert forall|k: int| 0 <= k < n.symbols@.len() implies n.strings@[(#[trigger] n.symbols@[k]).0 as int] != nm by { assert(n.symbols@[k] == o.symbols@[k]); }
    }
}
pub proof fn symcost_take(x: Seq<XSym>, k: int)
    requires 0 <= k <= x.len(),
    ensures 0 <= symcost(x.take(k)) <= symcost(x), k < x.len() ==> symcost(x.take(k + 1)) == symcost(x.take(k)) + utf8(x[k].name).len() + 1 && symcost(x.take(k + 1)) <= symcost(x), x.take(0) == Seq::<XSym>::empty(),
    decreases x.len() - k,
{
    assert(x.take(0) =~= Seq::empty());
    if k < x.len() { symcost_take(x, k + 1); assert(x.take(k + 1).drop_last() =~= x.take(k)); symcost_pos(x.take(k)); } else { assert(x.take(k) =~= x); symcost_pos(x); }
}
pub proof fn symcost_pos(x: Seq<XSym>) ensures symcost(x) >= 0, decreases x.len(), { if x.len() > 0 { symcost_pos(x.drop_last()); } }
pub proof fn symcost_one(d: DefV)
    ensures !(d.decl is Section) ==> symcost(dsyms(d, 0)) == utf8(d.name).len() + 1,
{
    if !(d.decl is Section) { let x = dsyms(d, 0); assert(x.drop_last() =~= Seq::empty()); assert(symcost(x) == symcost(x.drop_last()) + utf8(x.last().name).len() + 1); assert(symcost(Seq::<XSym>::empty()) == 0); }
}
pub proof fn symcost_sh(d: DefV, a: int, b: int)
    ensures symcost(dsyms(d, a)) == symcost(dsyms(d, b)),
{
    symcost_names(dsyms(d, a), dsyms(d, b));
}
pub proof fn symcost_names(x: Seq<XSym>, y: Seq<XSym>)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).name == y[i].name,
    ensures symcost(x) == symcost(y),
    decreases x.len(),
{
    if x.len() > 0 { let a = x.drop_last(); let b = y.drop_last(); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).name == b[i].name by { assert(a[i] == x[i]); } symcost_names(a, b); assert(x[x.len() - 1].name == y[y.len() - 1].name); }
}
/// the section and symbols of one more definition
pub open spec fn added_def<'a>(o: &Elf<'a>, n: &Elf<'a>, d: DefV) -> bool {
    let sh = o.sections@.len() as int + 3;
    let y = dsyms(d, sh);
    &&& *n =~= (Elf { strings: n.strings, offsets: n.offsets, sizeof_strtab: n.sizeof_strtab, sections: n.sections, nsections: n.nsections, code: n.code, sizeof_bits: n.sizeof_bits, symbols: n.symbols, nlocals: n.nlocals, ..*o })
    &&& o.strings@.is_prefix_of(n.strings@) && n.sizeof_strtab <= o.sizeof_strtab + defcost(d)
    &&& n.sections@.len() == o.sections@.len() + 1 && n.sections@.drop_last() == o.sections@
    &&& secok(n.strings@, n.sections@.last(), d, o.sections@.len() as int, o.sizeof_bits as int) //#C06,C07,C08,C10,C22
    &&& cat(n.code@, fcode()) == cat(o.code@, fcode()) + fdata()(d) //#C06,C22
    &&& n.sizeof_bits == o.sizeof_bits + fdata()(d).len() //#C06,C22
    &&& n.symbols@.len() == o.symbols@.len() + y.len() && o.symbols@.is_prefix_of(n.symbols@) //#C08
    &&& forall|i: int| 0 <= i < y.len() ==> symok(n.strings@, n.symbols@[o.symbols@.len() + i], #[trigger] y[i]) //#C08,C10
    &&& n.nlocals == o.nlocals + (if dlocal(d.decl) { y.len() } else { 0 }) //#C09
}
pub open spec fn def_fresh<'a>(o: &Elf<'a>, d: DefV) -> bool {
    o.sec_fresh(secname(d)) && (forall|i: int| 0 <= i < d.syms.len() ==> o.sym_fresh((#[trigger] d.syms[i]).0)) && (!(d.decl is Section) ==> o.sym_fresh(d.name))
}
pub open spec fn is_sec(d: Decl) -> bool { d is Defined && d->Defined_0 is Section }
/// the links whose meaning is documented
pub open spec fn link_ok(l: LinkV) -> bool {
    match l.reloc {
        Reloc::Auto => l.from_decl is Defined && (l.from_decl->Defined_0 is Data || (l.from_decl->Defined_0 is Function && !is_sec(l.to_decl))),
        Reloc::Raw { reloc, addend } => true,
        Reloc::Debug { size, addend } => size == 4 || size == 8,
    }
}
pub open spec fn ltype(l: LinkV, big: bool) -> u32 {
    match l.reloc {
        Reloc::Auto =>
            if l.from_decl->Defined_0 is Data { if big { 1 } else { 10 } }
            else { match l.to_decl { Decl::Defined(d) => if d is Function { 4 } else { 2 }, Decl::Import(k) => if k == ImportKind::Function { 4 } else { 9 } } },
        Reloc::Raw { reloc, addend } => reloc,
        Reloc::Debug { size, addend } => if size == 4 { 10 } else { 1 },
    }
}
pub open spec fn laddend(l: LinkV) -> int { match l.reloc { Reloc::Auto => if l.from_decl->Defined_0 is Data { 0 } else { -4 }, Reloc::Raw { reloc, addend } => addend as int, Reloc::Debug { size, addend } => addend as int } }
pub open spec fn lrel(l: LinkV, big: bool, sym: int) -> GReloc { GReloc { r_offset: l.at, r_addend: Some(laddend(l) as i64), r_sym: sym as usize, r_type: ltype(l, big) } }
/// one more import
pub open spec fn added_import<'a>(o: &Elf<'a>, n: &Elf<'a>, name: Seq<char>) -> bool {
    &&& *n =~= (Elf { strings: n.strings, offsets: n.offsets, sizeof_strtab: n.sizeof_strtab, symbols: n.symbols, imports: n.imports, ..*o })
    &&& o.strings@.is_prefix_of(n.strings@) && n.sizeof_strtab <= o.sizeof_strtab + utf8(name).len() + 1
    &&& n.symbols@.len() == o.symbols@.len() + 1 && n.symbols@.drop_last() == o.symbols@
    &&& symok(n.strings@, n.symbols@.last(), imp_sym(name)) //#C08,C10
}
/// one more relocation for section key
pub open spec fn added_reloc<'a>(o: &Elf<'a>, n: &Elf<'a>, key: usize, r: GReloc) -> bool {
    let t = o.relocations@;
    let u = n.relocations@;
    let i = find(t, key);
    &&& *n =~= (Elf { strings: n.strings, offsets: n.offsets, sizeof_strtab: n.sizeof_strtab, relocations: n.relocations, nsections: n.nsections, ..*o })
    &&& o.strings@.is_prefix_of(n.strings@)
    &&& hask(t, key) ==> n.sizeof_strtab == o.sizeof_strtab && u.len() == t.len() && u[i].0 == key && u[i].1.1@ == t[i].1.1@.push(r) && forall|k: int| 0 <= k < t.len() && k != i ==> #[trigger] u[k] == t[k] //#C11
    &&& !hask(t, key) ==> n.sizeof_strtab <= o.sizeof_strtab + utf8(relname(o.strings@[o.sections@[key - 3].0 as int])).len() + 1
            && u.len() == t.len() + 1 && u.drop_last() == t && u.last().0 == key && u.last().1.1@ =~= seq![r] //#C11
}
/// all that matters about the relocations after one more
pub proof fn rel_step<'a>(o: &Elf<'a>, n: &Elf<'a>, key: usize)
    requires o.wf(), 3 <= key < 3 + o.sections@.len(), o.strings@.is_prefix_of(n.strings@), str_wf(n.strings@, n.offsets@, n.sizeof_strtab as int),
        *n =~= (Elf { strings: n.strings, offsets: n.offsets, sizeof_strtab: n.sizeof_strtab, relocations: n.relocations, nsections: n.nsections, ..*o }),
        exists|h: SectionHeader, v: Vec<GReloc>| n.relocations@ == #[trigger] put_kv(o.relocations@, key, (h, v)) && rel_ok(n.strings@, n.sections@, n.ctx, key, h, v@.len() as int),
        n.nsections == 4 + n.sections@.len() + n.relocations@.len(),
    ensures n.wf(),
        !hask(o.relocations@, key) ==> n.relocations@.len() == o.relocations@.len() + 1 && n.relocations@.drop_last() == o.relocations@,
{
    let (h, v) = choose|h: SectionHeader, v: Vec<GReloc>| n.relocations@ == #[trigger] put_kv(o.relocations@, key, (h, v)) && rel_ok(n.strings@, n.sections@, n.ctx, key, h, v@.len() as int);
    let m = Elf { strings: n.strings, offsets: n.offsets, sizeof_strtab: n.sizeof_strtab, ..*o };
    rel_grow(o, &m);
    find_lemma(o.relocations@, key);
    if !hask(o.relocations@, key) { assert(n.relocations@.drop_last() =~= o.relocations@); }
    assert forall|k: int| 0 <= k < n.relocations@.len() implies rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int) by {
        if k < o.relocations@.len() && k != find(o.relocations@, key) { assert(n.relocations@[k] == m.relocations@[k]); }
    }
}
/// the null entry and the file entry
pub open spec fn filesym(s: Seq<Seq<char>>, name: Seq<char>, y: Sym) -> bool { named(s, name, y.st_name as int) && y.st_info == 4 && y.st_other == 0 && y.st_shndx == 0xfff1 && y.st_value == 0 && y.st_size == 0 }
pub open spec fn specials(s: Seq<Seq<char>>, name: Seq<char>, y: Seq<Sym>) -> bool { y.len() == 2 && y[0] == sym0() && filesym(s, name, y[1]) }
pub open spec fn basecost(name: Seq<char>) -> int { 4int + utf8(".strtab"@).len() + utf8(".symtab"@).len() + utf8(name).len() }
pub proof fn lits()
    ensures ".strtab"@ != ".symtab"@, cat2(cat2("."@, "data"@), "."@) == ".data."@, cat2(cat2("."@, "rodata"@), "."@) == ".rodata."@,
{
    reveal_strlit(".strtab"); reveal_strlit(".symtab"); reveal_strlit("."); reveal_strlit("data"); reveal_strlit(".data."); reveal_strlit("rodata"); reveal_strlit(".rodata.");
    assert(".strtab"@[3] != ".symtab"@[3]);
    assert(cat2(cat2("."@, "data"@), "."@) =~= ".data."@);
    assert(cat2(cat2("."@, "rodata"@), "."@) =~= ".rodata."@);
}
pub broadcast group esteps { sec_step, code_step, sym_step, sym_same, named_grow, sfind_in, crate::indexmap::indexmap_wf, crate::string_interner::interner_wf }
}
