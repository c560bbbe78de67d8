@fn elf::MachineTag::from #C15
@requires
    elf_machine(architecture) is Some,
@ensures
    r.0 == elf_machine(architecture)->Some_0,
@end
@fn elf::SymbolBuilder::new #C08
@ensures
    r == (SymbolBuilder { name_offset: 0, size: 0, typ, shndx: 0, value: 0 }),
@end
@fn elf::SymbolBuilder::from_decl #C08
@ensures
    r == (SymbolBuilder { name_offset: 0, size: 0, typ: SymbolType::Decl(decl), shndx: 0, value: 0 }),
@end
@fn elf::SymbolBuilder::size #C08
@ensures
    r == (SymbolBuilder { size: size as u64, ..self }),
@end
@fn elf::SymbolBuilder::name_offset #C10
@ensures
    r == (SymbolBuilder { name_offset, ..self }),
@end
@fn elf::SymbolBuilder::section_index #C08
@requires
    shndx < 0xffff_ffff,
@ensures
    r == (SymbolBuilder { shndx, ..self }),
@end
@fn elf::SymbolBuilder::value #C08
@ensures
    r == (SymbolBuilder { value, ..self }),
@end
@fn elf::SymbolBuilder::create #C08
@ensures
    r.st_name == self.name_offset, //#C10
    r.st_info as int == st_info(self.typ), //#C08
    r.st_other as int == st_other(self.typ), //#C08
    r.st_shndx == st_shndx(self.typ, self.shndx), //#C08
    r.st_value == self.value, r.st_size == self.size, //#C08
@proof start
    broadcast use bits;
@end
@fn elf::SymbolBuilder::create::scope_stb_flags #C08
@ensures
    r as int == 16 * stb(s),
@proof start
    broadcast use bits;
@end
@fn elf::SymbolBuilder::create::vis_stother_flags #C08
@ensures
    r as int == stv(v),
@end
@fn elf::SectionBuilder::new #C07
@ensures
    r == (SectionBuilder { typ: SectionType::None, exec_: false, write: false, alloc: false, size, name_offset: 0, align: None }),
@end
@fn elf::SectionBuilder::exec_ #C07
@ensures
    r == (SectionBuilder { exec_: executable, ..self }),
@end
@fn elf::SectionBuilder::alloc #C07
@ensures
    r == (SectionBuilder { alloc: true, ..self }),
@end
@fn elf::SectionBuilder::writable #C07
@ensures
    r == (SectionBuilder { write: writable, ..self }),
@end
@fn elf::SectionBuilder::align #C07
@ensures
    r == (SectionBuilder { align, ..self }),
@end
@fn elf::SectionBuilder::name_offset #C10
@ensures
    r == (SectionBuilder { name_offset, ..self }),
@end
@fn elf::SectionBuilder::section_type #C07
@ensures
    r == (SectionBuilder { typ, ..self }),
@end
@fn elf::SectionBuilder::create #C07,C13
@ensures
    r.sh_name == self.name_offset, //#C10
    r.sh_type == sb_hdr(self, *ctx).sh_type, //#C07,C13,C22
    r.sh_flags == sb_hdr(self, *ctx).sh_flags, //#C07,C13,C22
    r.sh_size == self.size, //#C07,C13,C22
    r.sh_addralign == sb_hdr(self, *ctx).sh_addralign, //#C07,C13,C22
    r.sh_entsize == sb_hdr(self, *ctx).sh_entsize, //#C13
    r.sh_addr == 0 && r.sh_offset == 0 && r.sh_link == 0 && r.sh_info == 0, //#C13
@proof start
    broadcast use bits;
@end
@fn elf::RelocationBuilder::new #C11
@ensures
    r == (RelocationBuilder { addend: Some(0), sym_idx: 0, offset: 0, typ }),
@end
@fn elf::RelocationBuilder::rel
@ensures
    r == (RelocationBuilder { addend: None, ..self }),
@end
@fn elf::RelocationBuilder::addend #C11
@ensures
    r == (RelocationBuilder { addend: Some(addend), ..self }),
@end
@fn elf::RelocationBuilder::offset #C11
@ensures
    r == (RelocationBuilder { offset, ..self }),
@end
@fn elf::RelocationBuilder::sym #C11
@ensures
    r == (RelocationBuilder { sym_idx, ..self }),
@end
@fn elf::RelocationBuilder::create #C11
@ensures
    r == (crate::goblin::elf::reloc::Reloc { r_offset: self.offset, r_addend: self.addend, r_sym: self.sym_idx, r_type: self.typ }),
@end
@fn elf::Elf::section_type_for_data #C07,C22
@ensures
    r == (if is_zero_init { SectionType::NoBits } else if typ == DataType::String { SectionType::String } else { SectionType::Data }),
@end
@fn elf::Elf::align #C13
@requires
    sizeof_t > 0, *old(offset) + sizeof_t < 0x1_0000_0000_0000_0000,
@ensures
    *final(offset) as int == up(*old(offset) as int, sizeof_t as int),
@proof start
    proof { up_lemma(*offset as int, sizeof_t as int); up_div(*offset as int, sizeof_t as int); }
@end
@fn elf::Elf::new_string #C10
@requires
    old(self).wf() || str_wf(old(self).strings@, old(self).offsets@, old(self).sizeof_strtab as int), old(self).sizeof_strtab + utf8(name@).len() + 1 < lim(),
@ensures
    str_wf(final(self).strings@, final(self).offsets@, final(self).sizeof_strtab as int), //#C10
    old(self).wf() ==> final(self).wf(),
    final(self).new_strings(old(self)), final(self).strings@ == intern(old(self).strings@, name@),
    r.0 as int == sfind(final(self).strings@, name@), r.0 < final(self).strings@.len(), final(self).strings@[r.0 as int] == name@,
    named(final(self).strings@, name@, r.1 as int), //#C10
    final(self).sizeof_strtab <= old(self).sizeof_strtab + utf8(name@).len() + 1,
@proof start
    broadcast use crate::string_interner::interner_wf;
    let ghost o = *self;
    proof { str_intern(self.strings@, self.offsets@, self.sizeof_strtab as int, name@);
        assert forall|n: Elf<'a>| o.wf() && #[trigger] n.strings@ == intern(o.strings@, name@) && n.sections@ == o.sections@ && n.ctx == o.ctx && n.relocations@ == o.relocations@ implies
            (forall|k: int| 0 <= k < n.relocations@.len() ==> rel_ok(n.strings@, n.sections@, n.ctx, (#[trigger] n.relocations@[k]).0, n.relocations@[k].1.0, n.relocations@[k].1.1@.len() as int)) by { rel_grow(&o, &n); } }
@end
@fn elf::Elf::add_section #C06,C07,C08,C10,C22
@requires
    old(self).wf(), old(self).sizeof_strtab + utf8(name@).len() + 1 < lim(), old(self).sec_fresh(name@), old(self).sections@.len() + old(self).relocations@.len() < 0x7fff_0000,
@ensures
    final(self).wf(),
    final(self).added_section(old(self), name@, section, r.0), final(self).code@ == old(self).code@, final(self).sizeof_bits == old(self).sizeof_bits,
    r.1 == old(self).sections@.len() + 3, //#C08
@proof start
    broadcast use esteps;
@proof end
    assert(self.wf());
@end
@fn elf::Elf::add_progbits #C06
@requires
    old(self).wf(), old(self).sizeof_strtab + utf8(name@).len() + 1 < lim(), old(self).sec_fresh(name@), old(self).sections@.len() + old(self).relocations@.len() < 0x7fff_0000,
    old(self).sizeof_bits + data@.len() < mem(),
@ensures
    final(self).wf(),
    final(self).added_section(old(self), name@, section, sfind(final(self).strings@, name@) as usize),
    cat(final(self).code@, fcode()) == cat(old(self).code@, fcode()) + data@, final(self).sizeof_bits == old(self).sizeof_bits + data@.len(), //#C06
    r == old(self).sections@.len() + 3, //#C06
@proof start
    broadcast use esteps;
@proof end
    assert(self.wf());
@end
@fn elf::Elf::new #C08,C10,C13,C15
@requires
    basecost(artifact.name@) < lim(),
@ensures
    r.wf(), r.sizeof_strtab <= basecost(artifact.name@),
    r.ctx == ctx_of(&artifact.target), r.architecture == artifact.target.architecture, //#C15
    specials(r.strings@, artifact.name@, r.special_symbols@), //#C08,C10
    r.sections@.len() == 0, r.symbols@.len() == 0, r.relocations@.len() == 0, r.code@.len() == 0, r.nlocals == 0,
    r.sizeof_bits as int == ehsize(r.ctx), //#C06,C13
@proof start
    broadcast use {str_interned, named_grow, crate::string_interner::interner_wf};
    proof { str_new(); lits(); }
@end
@fn elf::Elf::add_definition #C06,C07,C08,C09,C10,C22
@attr #[verifier::spinoff_prover]
@requires
    old(self).wf(), data_legal(*def.decl, datav(*def.data), def.symbols@.len() as int), def_fresh(old(self), defn(def)),
    old(self).sizeof_strtab + defcost(defn(def)) < lim(), old(self).sections@.len() + old(self).relocations@.len() < 0x7fff_0000,
    old(self).sizeof_bits + dfile(datav(*def.data)) < mem(),
@ensures
    final(self).wf(),
    added_def(old(self), final(self), defn(def)), //#C06,C07,C08,C09,C10,C22
@proof start
    hide(Elf::wf);
    broadcast use {named_grow, crate::indexmap::indexmap_wf, crate::std_collections::btreemap_wf};
    let ghost d = defn(def);
    let ghost m0 = self.symbols@.len() as int;
    proof { lits(); symcost_sh(d, 0, self.sections@.len() + 3int); symcost_pos(dsyms(d, 0)); symcost_one(d); }
@proof after let section_name 0
    assert(section_name@ == secname(d));
@proof after let shndx 0
    let ghost m1 = *self;
    proof { sym_same(old(self), &m1); }
    assert(m1.nlocals <= m1.symbols@.len() && m1.sections@[m1.sections@.len() - 1].1.name == m1.sections@[m1.sections@.len() - 1].0) by { reveal(Elf::wf); }
    assert(secok(m1.strings@, m1.sections@.last(), d, m1.sections@.len() - 1, old(self).sizeof_bits as int));
@proof before loop 0
    let ghost m = *self;
    let ghost y = dsyms(d, m.sections@.len() + 2int);
    proof { symcost_take(y, 0); }
@loop 0
    invariant
        self.wf(), *self =~= (Elf { strings: self.strings, offsets: self.offsets, sizeof_strtab: self.sizeof_strtab, symbols: self.symbols, nlocals: self.nlocals, ..m }), m.strings@.is_prefix_of(self.strings@),
        d.decl is Section, d.syms == def.symbols@, distinct(d.syms), y == dsyms(d, m.sections@.len() + 2int), shndx == m.sections@.len() + 2, m.sections@.len() < 0x8fff_0000, m.symbols@.len() == m0, m.nlocals <= m.symbols@.len(),
        __it0.all().len() == d.syms.len(), forall|i: int| 0 <= i < d.syms.len() ==> (#[trigger] __it0.all()[i]).0@ == d.syms[i].0 && *__it0.all()[i].1 == d.syms[i].1, 0 <= __it0.pos() <= __it0.all().len(),
        self.symbols@.len() == m0 + __it0.pos(), m.symbols@.is_prefix_of(self.symbols@),
        forall|i: int| 0 <= i < __it0.pos() ==> symok(self.strings@, self.symbols@[m0 + i], #[trigger] y[i]), //#C08,C10
        forall|i: int| __it0.pos() <= i < d.syms.len() ==> self.sym_fresh((#[trigger] d.syms[i]).0),
        self.nlocals == m.nlocals + __it0.pos(), //#C09
        self.sizeof_strtab <= m.sizeof_strtab + symcost(y.take(__it0.pos())), m.sizeof_strtab + symcost(y) < lim(),
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost k = __it0.pos() - 1;
    let ghost o = *self;
    proof { symcost_take(y, k); reveal(distinct); assert(y[k] == cus_sym(d.syms[k], m.sections@.len() + 2int)); }
@proof loop 0 end
    proof { sym_step(&o, &*self); }
    assert(added_sym(&o, &*self, sfind(self.strings@, d.syms[k].0) as usize, self.symbols@.last().1));
    assert(self.wf()) by { reveal(Elf::wf); }
@proof after loop 0
    proof { symcost_take(y, y.len() as int); }
@proof end
    proof { if !(d.decl is Section) { sym_step(&m1, &*self); } }
    assert(self.wf()) by { reveal(Elf::wf); }
    assert(secok(self.strings@, self.sections@.last(), d, self.sections@.len() - 1, old(self).sizeof_bits as int));
@end
@fn elf::Elf::import #C08,C10
@requires
    old(self).wf(), old(self).sizeof_strtab + utf8(import@).len() + 1 < lim(), old(self).sym_fresh(import@),
@ensures
    final(self).wf(),
    added_import(old(self), final(self), import@), //#C08,C10
@proof start
    hide(Elf::wf);
    let ghost o = *self;
@proof end
    proof { sym_step(&o, &*self); }
    assert(added_sym(&o, &*self, sfind(self.strings@, import@) as usize, self.symbols@.last().1));
    assert(self.wf()) by { reveal(Elf::wf); }
    assert(self.symbols@.drop_last() =~= o.symbols@);
@end
@fn elf::Elf::add_reloc #C11,C13
@requires
    old(self).wf(), 3 <= shndx < 3 + old(self).sections@.len(), reloc.r_addend is Some,
    old(self).sizeof_strtab + utf8(relname(old(self).strings@[old(self).sections@[shndx - 3].0 as int])).len() + 1 < lim(),
    old(self).sections@.len() + old(self).relocations@.len() < 0x7fff_0000, old(self).nrels(shndx) < 0x4000_0000,
@ensures
    final(self).wf(), added_reloc(old(self), final(self), shndx, reloc), //#C11,C13
@proof start
    hide(Elf::wf);
    broadcast use bits;
    let ghost o = *self;
    proof { find_lemma(o.relocations@, shndx); }
    assert(str_wf(o.strings@, o.offsets@, o.sizeof_strtab as int) && o.nsections == 4 + o.sections@.len() + o.relocations@.len() && o.sections@[shndx - 3].0 < o.strings@.len() && o.sections@[shndx - 3].1.name == o.sections@[shndx - 3].0) by { reveal(Elf::wf); }
    assert(hask(o.relocations@, shndx) ==> rel_ok(o.strings@, o.sections@, o.ctx, shndx, o.relocations@[find(o.relocations@, shndx)].1.0, o.relocations@[find(o.relocations@, shndx)].1.1@.len() as int)) by { reveal(Elf::wf); }
@proof end
    assert(hask(o.relocations@, shndx) ==> self.strings@ == o.strings@);
    proof { rel_step(&o, &*self, shndx); }
@end
@fn elf::Elf::link #C11,C12
@attr #[verifier::spinoff_prover]
@requires
    old(self).wf(), link_ok(linkv(*l)), old(self).has(l.from.name@, *l.from.decl), old(self).has(l.to.name@, *l.to.decl),
    3 <= old(self).shof(l.from.name@, *l.from.decl) < 3 + old(self).sections@.len(), l.to.decl is Defined ==> 3 <= old(self).shof(l.to.name@, *l.to.decl) < 3 + old(self).sections@.len(),
    old(self).sizeof_strtab + utf8(relname(old(self).strings@[old(self).sections@[old(self).shof(l.from.name@, *l.from.decl) - 3].0 as int])).len() + 1 < lim(),
    old(self).sections@.len() + old(self).relocations@.len() < 0x7fff_0000, old(self).nrels(old(self).shof(l.from.name@, *l.from.decl) as usize) < 0x4000_0000,
    old(self).sections@.len() + old(self).symbols@.len() < mem(),
@ensures
    final(self).wf(),
    added_reloc(old(self), final(self), old(self).shof(l.from.name@, *l.from.decl) as usize, lrel(linkv(*l), old(self).ctx.big(), old(self).symof(l.to.name@, *l.to.decl))), //#C11,C12
@proof start
    hide(Elf::wf);
    proof { sfind_lemma(self.strings@, l.from.name@); sfind_lemma(self.strings@, l.to.name@); find_lemma(self.sections@, sfind(self.strings@, l.to.name@) as usize); find_lemma(self.symbols@, sfind(self.strings@, l.to.name@) as usize); }
    assert(self.special_symbols@.len() == 2) by { reveal(Elf::wf); }
@proof before call add_reloc 0
    assert(self.wf()) by { reveal(Elf::wf); }
@end
@fn elf::Elf::write #C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C22
@attr #[verifier::spinoff_prover]
@requires
    writable(&self), old(file).data().len() == 0, old(file).pos() == 0,
@ensures
    r is Ok, //#C05
    final(file).data() == image(&self), //#C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C22
@proof head
    hide(Elf::wf); hide(put); hide(app); hide(cat); hide(catoff); hide(gpos); hide(up);
@proof start
    broadcast use {crate::string_interner::interner_wf, crate::indexmap::indexmap_wf, crate::goblin::elf::header::enc_header_len};
    let ghost e = self;
    let ghost c = self.ctx;
    let ghost d0 = file.data();
    proof { wf_str(&e); places(&e); sizes(&e); reveal(cap); code_first(&e, d0); }
@loop 0
    invariant
        e.wf(), c == e.ctx, allrels(&e).len() < cap(c),
        __it0.all().len() == e.relocations@.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < e.relocations@.len() ==> *(#[trigger] __it0.all()[i]).1 == e.relocations@[i].1,
        relsize(true, c) * __acc0 == catoff(e.relocations@, frels(c), __it0.pos()), __acc0 <= catoff(e.relocations@, frels(c), __it0.pos()),
    decreases __it0.all().len() - __it0.pos(),
@proof before loop 0
    proof { begin_app(Seq::empty(), 0, e.relocations@, frels(c)); }
@proof loop 0 start
    let ghost a0 = __acc0 as int;
    proof { rel_sizes(&e, __it0.pos()); reveal(cap); }
@proof loop 0 end
    proof { mul_plus(relsize(true, c), a0, rels@.len() as int, __acc0 as int); }
@proof after loop 0
    proof { assert(relsize(true, c) * __acc0 == allrels(&e).len()) by { reveal(allrels); } mul_swap(relsize(true, c), __acc0 as int, allrels(&e).len() as int); }
@proof after let sizeof_relocs 0
    assert(sizeof_relocs == allrels(&e).len());
@proof after let nonexec_stack_note_name_offset 0
    assert(self_.strings@ == strs1(&e)) by { reveal(strs1); }
    proof { extra_names(&e, symtab_shndx_name_offset, nonexec_stack_note_name_offset); table_names(&e, self_.strings@, self_.offsets@, self_.sizeof_strtab as int); }
@proof after let symtab_align 0
    assert(strtab_offset == o_str(&e)) by { reveal(o_str); } //#C06
@proof after call align 0
    assert(symtab_offset == o_sym(&e)) by { reveal(o_sym); } //#C06,C13
@proof before let reloc_offset 0
    assert(symtab_shndx_offset == o_shx(&e)) by { reveal(o_shx); } //#C14
@proof after call align 2
    assert(reloc_offset == o_rel(&e)) by { reveal(o_rel); } //#C11
@proof after call align 3
    assert(sh_offset == o_sh(&e)) by { reveal(o_sh); } //#C13
@proof before loop 1
    assert(header == mhdr(&e)) by { reveal(mhdr); } //#C13,C15
@loop 1
    invariant
        c == e.ctx,
        __it1.all().len() == e.code@.len(), 0 <= __it1.pos() <= __it1.all().len(), forall|i: int| 0 <= i < e.code@.len() ==> (#[trigger] __it1.all()[i]).1 == e.code@[i].1,
        code_at(&e, __it1.pos(), file.data(), file.pos()), //#C06
    decreases __it1.all().len() - __it1.pos(),
@proof loop 1 start
    proof { code_next(&e, __it1.pos() - 1, file.data(), file.pos()); }
@proof after loop 1
    proof { code_last(&e, file.data(), file.pos()); }
@proof before loop 2
    proof { str_first(&e, im1(&e), o_str(&e)); }
@loop 2
    invariant
        __it2.all().len() == strs1(&e).len(), 0 <= __it2.pos() <= __it2.all().len(), forall|i: int| 0 <= i < strs1(&e).len() ==> (#[trigger] __it2.all()[i]).1@ == strs1(&e)[i],
        str_at(&e, __it2.pos(), file.data(), file.pos()), //#C10
    decreases __it2.all().len() - __it2.pos(),
@proof loop 2 start
    proof { str_step(&e, __it2.pos() - 1, file.data(), file.pos()); }
@proof after loop 2
    proof { str_last(&e, file.data(), file.pos()); }
@proof before let symtab_shndx_data 0
    assert(section_headers@[0] == nullhdr(&e)) by { reveal(nullhdr); } //#C13,C14
    assert(section_headers@[1] == strhdr(&e)) by { reveal(strhdr); } //#C10,C13
    assert(section_headers@[2] == symhdr(&e)) by { reveal(symhdr); } //#C08,C09,C13
    proof { heads_first(&e, section_headers@); }
@proof before loop 3
    proof { sym_first(&e, symtab_shndx_data@); }
@loop 3
    invariant
        c == e.ctx, self_.ctx == c, writable(&e), need_symtab_shndx == needx(&e), o_sym(&e) >= im2(&e).len(), e.special_symbols@.len() == 2,
        __it3.all() == e.special_symbols@, 0 <= __it3.pos() <= __it3.all().len(),
        sym_at(&e, __it3.pos(), file.data(), file.pos(), symtab_shndx_data@, offset as int), //#C08,C14
    decreases __it3.all().len() - __it3.pos(),
@proof loop 3 start
    broadcast use {crate::goblin::elf::sym::enc_sym_len, crate::scroll::enc_u32_len};
    proof { sym_next(&e, __it3.pos() - 1, file.data(), file.pos(), symtab_shndx_data@, offset as int); assert(allsyms(&e)[__it3.pos() - 1] == (symbol, false)) by { reveal(allsyms); } reveal(fits_all); }
@loop 4
    invariant
        c == e.ctx, self_.ctx == c, writable(&e), need_symtab_shndx == needx(&e), o_sym(&e) >= im2(&e).len(), e.special_symbols@.len() == 2,
        __it4.all().len() == e.sections@.len(), 0 <= __it4.pos() <= __it4.all().len(), forall|i: int| 0 <= i < e.sections@.len() ==> (#[trigger] __it4.all()[i]).1 == e.sections@[i].1,
        sym_at(&e, 2 + __it4.pos(), file.data(), file.pos(), symtab_shndx_data@, offset as int), //#C08,C14
        heads4(&e, __it4.pos(), section_headers@), //#C07,C13
    decreases __it4.all().len() - __it4.pos(),
@proof loop 4 start
    broadcast use {crate::goblin::elf::sym::enc_sym_len, crate::scroll::enc_u32_len};
    proof { sym_next(&e, 1 + __it4.pos(), file.data(), file.pos(), symtab_shndx_data@, offset as int); assert(allsyms(&e)[1 + __it4.pos()] == (section.symbol, true)) by { reveal(allsyms); } reveal(fits_all); heads_sec(&e, __it4.pos() - 1, section_headers@); }
@loop 5
    invariant
        c == e.ctx, self_.ctx == c, writable(&e), need_symtab_shndx == needx(&e), o_sym(&e) >= im2(&e).len(), e.special_symbols@.len() == 2,
        __it5.all().len() == e.symbols@.len(), 0 <= __it5.pos() <= __it5.all().len(), forall|i: int| 0 <= i < e.symbols@.len() ==> (#[trigger] __it5.all()[i]).1 == e.symbols@[i].1,
        sym_at(&e, 2 + e.sections@.len() + __it5.pos(), file.data(), file.pos(), symtab_shndx_data@, offset as int), //#C08,C14
    decreases __it5.all().len() - __it5.pos(),
@proof loop 5 start
    broadcast use {crate::goblin::elf::sym::enc_sym_len, crate::scroll::enc_u32_len};
    proof { sym_next(&e, 1 + e.sections@.len() + __it5.pos(), file.data(), file.pos(), symtab_shndx_data@, offset as int); assert(allsyms(&e)[1 + e.sections@.len() + __it5.pos()] == (symbol, true)) by { reveal(allsyms); } reveal(fits_all); }
@proof after loop 5
    proof { sym_last(&e, file.data(), file.pos(), symtab_shndx_data@, offset as int); heads_mid(&e, section_headers@); }
@proof before let section 0
    assert(put(im3(&e), o_shx(&e), symtab_shndx_data@) == im4(&e)) by { reveal(im4); put_app(im3(&e), o_shx(&e), symtab_shndx_data@); }
@proof before let roffset 0
    assert(file.data() == im4(&e)) by { reveal(im4); }
    assert(heads6(&e, 0, section_headers@)) by { if needx(&e) { reveal(shxhdr); assert(section_headers@.last() == shxhdr(&e)); } } //#C07,C13,C14
    proof { grp_first(&e, file.data()); }
@loop 6
    invariant
        c == e.ctx, self_.ctx == c, writable(&e),
        __it6.all().len() == e.relocations@.len(), 0 <= __it6.pos() <= __it6.all().len(), forall|i: int| 0 <= i < e.relocations@.len() ==> (#[trigger] __it6.all()[i]).1 == e.relocations@[i].1,
        grp_at(&e, __it6.pos(), file.data(), file.pos()), roffset == gpos(&e, __it6.pos()), //#C11
        heads6(&e, __it6.pos(), section_headers@), //#C11,C13
    decreases __it6.all().len() - __it6.pos(),
@proof loop 6 start
    let ghost k6 = __it6.pos() - 1;
    let ghost rs = relocations@;
    proof { grp_open(&e, k6, file.data(), file.pos()); heads_rel(&e, k6, section_headers@); }
    assert(SectionHeader { sh_offset: roffset, ..section } == relhdr(&e, k6)) by { reveal(relhdr); } //#C11
@loop 7
    invariant
        c == e.ctx, self_.ctx == c, writable(&e), 0 <= k6 < e.relocations@.len(), rs == e.relocations@[k6].1.1@,
        __it7.all() == rs, 0 <= __it7.pos() <= __it7.all().len(),
        rel_at(&e, k6, __it7.pos(), file.data(), file.pos()), //#C11
    decreases __it7.all().len() - __it7.pos(),
@proof loop 7 start
    proof { rel_step7(&e, k6, __it7.pos() - 1, file.data(), file.pos()); }
@proof loop 6 end
    proof { grp_close(&e, k6, file.data(), file.pos()); }
@proof after loop 6
    proof { grp_last(&e, file.data(), file.pos()); heads_last(&e, section_headers@); }
@proof before let sizeof_shdr 0
    assert(section_headers@.last() == notehdr(&e)) by { reveal(notehdr); } //#C13
    assert(section_headers@ == shdrs(&e)); //#C07,C11,C13
@proof before loop 8
    proof { shd_first(&e, file.data()); }
@loop 8
    invariant
        c == e.ctx, self_.ctx == c, writable(&e),
        z_str(&e) < lim(), nodup(strs1(&e)), __it8.all() == shdrs(&e), 0 <= __it8.pos() <= __it8.all().len(),
        shd_at(&e, __it8.pos(), file.data(), file.pos()), //#C07,C13
    decreases __it8.all().len() - __it8.pos(),
@proof loop 8 start
    proof { shd_next(&e, __it8.pos() - 1, file.data(), file.pos()); }
@proof after loop 8
    proof { shd_last(&e, file.data(), file.pos()); }
@end
@fn elf::to_bytes #C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C22
@attr #[verifier::spinoff_prover]
@requires
    ready(artifact),
@ensures
    r is Ok && elf_object(artifact, r->Ok_0@),
@proof head
    hide(Elf::wf); hide(ready); hide(writable); hide(image); hide(elf_object); hide(data_legal); hide(added_def); hide(added_import); hide(added_reloc); hide(link_ok); hide(strtotal); hide(full); hide(xall); hide(def_fresh); hide(lsym); hide(lkey); hide(Elf::shof); hide(Elf::symof); hide(Elf::has);
@proof start
    let ghost a = artifact;
    assert(a.wf() && elf_machine(a.target.architecture) is Some) by { reveal(ready); reveal(elf_dom); }
    assert(basecost(a.name@) < lim()) by { reveal(ready); reveal(elf_dom); reveal(strtotal); budgets(a, 0, 0, 0); }
@proof before loop 0
    proof { rep_new(&elf, a); }
@loop 0
    invariant
        ready(a), a == artifact, a.wf(), elf.wf(), __it0.all().len() == a.defs().len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < a.defs().len() ==> defn(#[trigger] __it0.all()[i]) == a.defs()[i],
        rep_defs(&elf, a, __it0.pos(), 0, 0), rep_rels(&elf, a, 0),
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost o = elf;
    let ghost i0 = __it0.pos() - 1;
    proof { def_ready(&elf, a, i0); }
@proof loop 0 end
    proof { def_step(&o, &elf, a, i0); }
@loop 1
    invariant
        ready(a), a == artifact, a.wf(), elf.wf(), __it1.all().len() == a.imps().len(), 0 <= __it1.pos() <= __it1.all().len(), forall|i: int| 0 <= i < a.imps().len() ==> (#[trigger] __it1.all()[i]).0@ == a.imps()[i].0,
        rep_defs(&elf, a, a.defs().len() as int, __it1.pos(), 0), rep_rels(&elf, a, 0),
    decreases __it1.all().len() - __it1.pos(),
@proof loop 1 start
    let ghost o = elf;
    let ghost i1 = __it1.pos() - 1;
    proof { imp_ready(&elf, a, i1); }
@proof loop 1 end
    proof { imp_step(&o, &elf, a, i1); }
@proof before loop 2
    assert(full(&elf, a, 0)) by { reveal(full); }
@loop 2
    invariant
        ready(a), a == artifact, a.wf(), elf.wf(), __it2.all().len() == a.flinks().len(), 0 <= __it2.pos() <= __it2.all().len(), forall|i: int| 0 <= i < a.flinks().len() ==> linkv(#[trigger] __it2.all()[i]) == a.flinks()[i],
        full(&elf, a, __it2.pos()),
    decreases __it2.all().len() - __it2.pos(),
@proof loop 2 start
    let ghost o = elf;
    let ghost i2 = __it2.pos() - 1;
    proof { link_ready(&elf, a, i2); }
@proof loop 2 end
    proof { link_step(&o, &elf, a, i2); }
@proof before let buffer 0
    proof { full_writable(&elf, a); conclude(&elf, a); }
@end
