@fn mach::CpuType::from #C15
@requires
    mach_cpu(architecture) is Some,
@ensures
    r.0 == mach_cpu(architecture)->Some_0,
@end
@fn mach::align_up #C17
@requires
    align_exp < 64, offset + pow2(align_exp as nat) < 0x1_0000_0000_0000_0000,
@ensures
    r as int == up(offset as int, pow2(align_exp as nat)),
@proof start
    broadcast use shl1;
    proof { pow2_pos(align_exp as nat); up_lemma(offset as int, pow2(align_exp as nat)); up_div(offset as int, pow2(align_exp as nat)); mask_up(offset, align_exp); }
@end
@fn mach::align_to_align_exp #C17
@requires
    is_pow2(align as int),
@ensures
    r < 64, pow2(r as nat) == align,
@proof start
    broadcast use shl1;
    let ghost n: nat = choose|n: nat| n < 64 && align == #[trigger] pow2(n);
    proof { pow2_pos(n); }
@loop 0
    invariant
        align_exp <= n, n < 64, align == pow2(n),
    decreases n - align_exp,
@end
@fn mach::SymbolBuilder::new #C18
@ensures
    r == (SymbolBuilder { name, section: None, global: false, weak: false, import: false, offset: 0, segment_relative_offset: 0 }),
@end
@fn mach::SymbolBuilder::section #C18
@ensures
    r == (SymbolBuilder { section: Some(section_index), ..self }),
@end
@fn mach::SymbolBuilder::global #C18
@ensures
    r == (SymbolBuilder { global, ..self }),
@end
@fn mach::SymbolBuilder::weak #C18
@ensures
    r == (SymbolBuilder { weak, ..self }),
@end
@fn mach::SymbolBuilder::offset #C18
@ensures
    r == (SymbolBuilder { offset, ..self }),
@end
@fn mach::SymbolBuilder::relative_offset #C20
@ensures
    r == (SymbolBuilder { segment_relative_offset: relative_offset, ..self }),
@end
@fn mach::SymbolBuilder::get_segment_relative_offset #C20
@ensures
    r == self.segment_relative_offset,
@end
@fn mach::SymbolBuilder::import #C18
@ensures
    r == (SymbolBuilder { import: true, ..self }),
@end
@fn mach::SymbolBuilder::create #C18,C19
@requires
    self.import == (self.section is None), self.section matches Some(s) ==> s < 0xffff_ffff,
@ensures
    r.n_strx == self.name, //#C19
    r.n_sect as int == symv(Seq::empty(), self).sect, //#C18
    r.n_type == nlist(symv(Seq::empty(), self), 0).n_type, //#C18
    r.n_desc == nlist(symv(Seq::empty(), self), 0).n_desc, //#C18
    r.n_value == if self.import { 0 } else { self.offset }, //#C18
@proof start
    broadcast use bits;
@end
@fn mach::RelocationBuilder::new #C20
@ensures
    r == (RelocationBuilder { symbol, relocation_offset, absolute: false, size: 0, r_type }),
@end
@fn mach::RelocationBuilder::absolute #C20
@ensures
    r == (RelocationBuilder { absolute: true, ..self }),
@end
@fn mach::RelocationBuilder::size #C20
@ensures
    r == (RelocationBuilder { size, ..self }),
@end
@fn mach::RelocationBuilder::create #C20,C12
@requires
    self.size == 0 || self.size == 4 || self.size == 8, self.symbol < 0x100_0000, self.r_type < 16, self.relocation_offset < 0x8000_0000,
@ensures
    r.r_address == self.relocation_offset, //#C20
    r.r_info as int == rinfo(self.symbol as int, !self.absolute, rlen(self), self.r_type as int), //#C20,C12
@proof start
    broadcast use bits;
@proof end
    proof { rel_bits(self.symbol as u32, if self.absolute { 0 } else { 1 }, rlen(self) as u32, self.r_type as u32); }
@end
@fn mach::SectionBuilder::new #C16
@ensures
    r == (SectionBuilder { addr: 0, align: 4, offset: 0, size, flags: 0, sectname, segname, relocations: r.relocations }), r.relocations@ == Seq::<RelocationInfo>::empty(),
@end
@fn mach::SectionBuilder::addr #C17
@ensures
    r == (SectionBuilder { addr, ..self }),
@end
@fn mach::SectionBuilder::offset
@ensures
    r == (SectionBuilder { offset, ..self }),
@end
@fn mach::SectionBuilder::align #C17
@ensures
    r == (SectionBuilder { align, ..self }),
@end
@fn mach::SectionBuilder::flags #C16
@ensures
    r == (SectionBuilder { flags, ..self }),
@end
@fn mach::SectionBuilder::create #C16,C17,C20,C21,C22
@requires
    utf8(self.sectname@).len() <= 16, utf8(self.segname@).len() <= 16, *old(section_offset) + (if self.flags == 1 { 0 } else { self.size as int }) < lim(), *old(relocation_offset) + 8 * self.relocations@.len() < lim(), self.align < 64,
@ensures
    r.sectname@ == name16(self.sectname@), r.segname@ == name16(self.segname@), r.flags == self.flags, //#C16
    r.addr == self.addr, r.align == self.align, //#C17
    r.size == self.size, r.offset == *old(section_offset), //#C16,C21,C22
    *final(section_offset) == *old(section_offset) + (if self.flags == 1 { 0 } else { self.size as int }), //#C16,C21,C22
    r.nreloc == self.relocations@.len(), r.reloff == (if self.relocations@.len() == 0 { 0 } else { *old(relocation_offset) as int }), //#C20,C21
    *final(relocation_offset) == *old(relocation_offset) + 8 * self.relocations@.len(), //#C20,C21
@end
@fn mach::SymbolTable::new #C18,C19
@ensures
    r.wf(), r.syms() == Seq::<MSym>::empty(),
@proof start
    broadcast use crate::string_interner::interner_wf;
@proof end
    proof { reveal(SymbolTable::syms); reveal(SymbolTable::wf); cat_all(Seq::<Seq<char>>::empty(), fmstr()); }
    assert(__ret.syms() =~= Seq::<MSym>::empty());
    assert(mnames(Seq::<MSym>::empty()) =~= Seq::empty());
    proof { reveal_strlit(""); }
    assert(""@ =~= Seq::<char>::empty());
    assert(__ret.strtable@ =~= tnames(Seq::<MSym>::empty()));
@end

@fn mach::SymbolTable::default #C18,C19
@ensures
    r.symbols@.len() == 0, r.strtable_size == 0,
@end
@fn mach::SymbolTable::len #C18
@requires
    self.wf(),
@ensures
    r == self.syms().len(),
@proof start
    proof { reveal(SymbolTable::wf); }
@end
@fn mach::SymbolTable::sizeof_strtable #C19
@ensures
    r == self.strtable_size, self.wf() ==> r == mstrtab(self.syms()).len(),
@proof start
    proof { reveal(SymbolTable::wf); }
@end
@fn mach::SymbolTable::offset #C20
@requires
    self.wf(),
@ensures
    r is Some == self.has(symbol_name@), r is Some ==> r->Some_0 == self.syms()[self.ix(symbol_name@)].rel,
@proof start
    proof { tab_lookup(self, symbol_name@); }
@end
@fn mach::SymbolTable::section #C20
@requires
    self.wf(),
@ensures
    r is Some == (self.has(symbol_name@) && self.syms()[self.ix(symbol_name@)].sect > 0), r is Some ==> r->Some_0 + 1 == self.syms()[self.ix(symbol_name@)].sect,
@proof start
    proof { tab_lookup(self, symbol_name@); }
@end
@fn mach::SymbolTable::index #C20
@requires
    self.wf(),
@ensures
    r is Some == self.has(symbol_name@), r is Some ==> r->Some_0 == self.ix(symbol_name@),
@proof start
    proof { tab_lookup(self, symbol_name@); }
@end
@fn mach::SymbolTable::insert #C18,C19
@requires
    old(self).wf(), mstrtab(old(self).syms()).len() + utf8(symbol_name@).len() + 2 < lim(), old(self).syms().len() < lim(), kind matches SymbolType::Defined { section, .. } ==> section < 0xffff_ffff,
@ensures
    final(self).wf(),
    sfind(tnames(old(self).syms()), symbol_name@) <= old(self).syms().len() ==> final(self).syms() == old(self).syms(),
    sfind(tnames(old(self).syms()), symbol_name@) > old(self).syms().len() ==> final(self).syms() == old(self).syms().push(typev(symbol_name@, kind)), //#C18,C19
@proof start
    let ghost o = *self;
    proof { tab_open(self, symbol_name@); }
@proof end
    proof { if sfind(tnames(o.syms()), symbol_name@) > o.syms().len() { tab_close(&o, &*self, typev(symbol_name@, kind)); } else { tab_same(&o, &*self); } }
@end
@fn mach::SegmentBuilder::size
@ensures
    r == self.size,
@end
@fn mach::SegmentBuilder::load_command_size #C21
@requires
    self.sections@.len() < 0x100_0000,
@ensures
    r == crate::goblin::mach::segment::msegsize(ctx.container) + crate::goblin::mach::segment::msectsize(ctx.container) * self.sections@.len(), //#C21
@proof start
    proof { sect_sizes(ctx.container, self.sections@.len() as int); }
@end
@fn mach::SegmentBuilder::_section_data_file_offset
@requires
    self.sections@.len() < 0x100_0000,
@proof start
    proof { sect_sizes(ctx.container, self.sections@.len() as int); }
@end
@fn mach::SegmentBuilder::build_section #C16,C17,C18,C22
@attr #[verifier::spinoff_prover]
@requires
    min_alignment_exponent < 64, stdgrp(dviews(definitions@)), section < 0xffff_fff0,
    !hask(old(sections)@, sectname@), old(symtab).wf(),
    grp_room(dviews(definitions@), pow2(min_alignment_exponent as nat), *old(addr) as int, *old(offset) as int),
    syms_room(old(symtab).syms(), gsyms(dviews(definitions@), pow2(min_alignment_exponent as nat), section + 1, up(*old(addr) as int, galign(dviews(definitions@), pow2(min_alignment_exponent as nat))))),
@ensures
    final(symtab).wf(),
    final(symtab).syms() == old(symtab).syms() + gsyms(dviews(definitions@), pow2(min_alignment_exponent as nat), section + 1, up(*old(addr) as int, galign(dviews(definitions@), pow2(min_alignment_exponent as nat)))), //#C16,C17,C18,C22
    final(align_pad_map)@ == ins(old(align_pad_map)@, padlist(dviews(definitions@), pow2(min_alignment_exponent as nat))), //#C16,C17
    final(sections)@ == old(sections)@.push(final(sections)@.last()), final(sections)@.len() == old(sections)@.len() + 1,
    secis(final(sections)@.last(), MSec { key: sectname@, name: sectname@, seg: segname@, align: galign(dviews(definitions@), pow2(min_alignment_exponent as nat)), size: gsize(dviews(definitions@), pow2(min_alignment_exponent as nat)), flags: match flags { Some(f) => f, None => 0 } }, up(*old(addr) as int, galign(dviews(definitions@), pow2(min_alignment_exponent as nat)))), //#C16,C17,C22
    final(sections)@.last().1.relocations@.len() == 0,
    *final(addr) == up(*old(addr) as int, galign(dviews(definitions@), pow2(min_alignment_exponent as nat))) + gsize(dviews(definitions@), pow2(min_alignment_exponent as nat)), //#C17,C22
    *final(offset) == *old(offset) + (if flags == Some(1u32) { 0 } else { gsize(dviews(definitions@), pow2(min_alignment_exponent as nat)) }), //#C21,C22
@proof start
    broadcast use shl1;
    broadcast use pow2_ge;
    broadcast use pow2_le;
    let ghost a0 = *addr as int;
    let ghost f0 = *offset as int;
    let ghost g = dviews(definitions@);
    let ghost m = pow2(min_alignment_exponent as nat);
    let ghost base = up(*addr as int, galign(g, m));
    let ghost y = gsyms(g, m, section + 1, base);
    let ghost s0 = symtab.syms();
    let ghost p0 = align_pad_map@;
    proof { pow2_pos(min_alignment_exponent as nat); grp_start(g, m); assert(y.take(0) =~= Seq::empty()); assert(s0 + y.take(0) =~= s0); assert(padlist(g, m).take(0) =~= Seq::empty()); }
@loop 0
    invariant
        g == dviews(definitions@), __it0.all() == refs(definitions@), 0 <= __it0.pos() <= __it0.all().len(), stdgrp(g),
        alignment_exponent < 64, pow2(alignment_exponent as nat) == galign(g.take(__it0.pos()), m), m == pow2(min_alignment_exponent as nat), alignment_exponent >= min_alignment_exponent,
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost k = __it0.pos() - 1;
    let ghost e0 = alignment_exponent;
    proof { galign_step(g, m, k); assert(defn(*def) == g[k]); }
@proof loop 0 end
    proof { galign_max(g, m, k, e0 as nat, alignment_exponent as nat); }
@proof after loop 0
    assert(g.take(g.len() as int) =~= g);
    proof { grp_fits(g, m, *addr as int); pow2_bound(alignment_exponent as nat); }
@loop 1
    invariant
        g == dviews(definitions@), m == pow2(min_alignment_exponent as nat), y == gsyms(g, m, section + 1, base), stdgrp(g), min_alignment_exponent < 64, section < 0xffff_fff0,
        grp_room(g, m, a0, f0), base == up(a0, galign(g, m)), syms_room(s0, y), m > 0,
        def_iter.all() == refs(definitions@), 0 <= def_iter.pos() <= def_iter.all().len(),
        section_relative_offset == roff(g, m, def_iter.pos()), local_size == section_relative_offset, *symbol_offset == base + section_relative_offset, //#C16,C17
        symtab.wf(), symtab.syms() == s0 + y.take(def_iter.pos()), //#C18
        align_pad_map@ == ins(p0, padlist(g, m).take(def_iter.pos())), //#C16
    decreases def_iter.all().len() - def_iter.pos(),
@proof loop 1 start
    let ghost i = def_iter.pos() - 1;
    proof { assert(defn(*def) == g[i]); grp_step(g, m, i, a0); sym_step_m(s0, y, i); if i + 1 < g.len() { assert(defn(definitions@[i + 1]) == g[i + 1]); } }
@proof loop 1 end
    proof { pad_step(p0, g, m, i); }
@proof after loop 1
    assert(padlist(g, m).take(g.len() as int) =~= padlist(g, m));
    assert(y.take(g.len() as int) =~= y);
@end
@fn mach::SegmentBuilder::build_custom_section #C16,C17,C18
@requires
    mkind(defn(*def)) == 4, is_pow2(dal(defn(*def))), section_idx < 0xffff_fff0, !hask(old(sections)@, def.name@), old(symtab).wf(), *old(addr) < mlim(), *old(offset) < 2 * mlim(),
    up(*old(addr) as int, dal(defn(*def))) + dfile(defn(*def).data) < mlim(), forall|i: int| 0 <= i < def.symbols@.len() ==> (#[trigger] def.symbols@[i]).1 < mlim(),
    syms_room(old(symtab).syms(), csyms(defn(*def), section_idx + 1, up(*old(addr) as int, dal(defn(*def))))),
@ensures
    final(symtab).wf(),
    final(symtab).syms() == old(symtab).syms() + csyms(defn(*def), section_idx + 1, up(*old(addr) as int, dal(defn(*def)))), //#C17,C18
    final(sections)@ == old(sections)@.push(final(sections)@.last()), final(sections)@.len() == old(sections)@.len() + 1,
    secis(final(sections)@.last(), cussec(defn(*def)), up(*old(addr) as int, dal(defn(*def)))), //#C16,C17
    final(sections)@.last().1.relocations@.len() == 0,
    *final(addr) == up(*old(addr) as int, dal(defn(*def))) + dfile(defn(*def).data), //#C17
    *final(offset) == *old(offset) + dfile(defn(*def).data), //#C21
@proof start
    broadcast use or_zero;
    let ghost d = defn(*def);
    let ghost base = up(*addr as int, dal(d));
    let ghost y = csyms(d, section_idx + 1, base);
    let ghost s0 = symtab.syms();
    proof {
        let n = choose|n: nat| n < 64 && dal(d) == #[trigger] pow2(n); pow2_bound(n); up_lemma(*addr as int, dal(d));
        if ".debug"@.is_prefix_of(d.name) { debug_prefix(d.name); }
        reveal_strlit(".debug");
        assert(y.take(0) =~= Seq::empty()); assert(s0 + y.take(0) =~= s0);
        assert forall|e: nat| e < 64 && #[trigger] pow2(e) == dal(d) implies e == n by { pow2_inj(e, n); }
    }
@loop 0
    invariant
        d == defn(*def), y == csyms(d, section_idx + 1, base), syms_room(s0, y), section_idx < 0xffff_fff0, *symbol_offset == base, 0 <= base < mlim(), forall|i: int| 0 <= i < d.syms.len() ==> (#[trigger] d.syms[i]).1 < mlim(),
        __it0.all().len() == d.syms.len(), forall|i: int| 0 <= i < d.syms.len() ==> (#[trigger] __it0.all()[i]).0@ == d.syms[i].0 && *__it0.all()[i].1 == d.syms[i].1, 0 <= __it0.pos() <= __it0.all().len(),
        symtab.wf(), symtab.syms() == s0 + y.take(__it0.pos()), //#C18
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost k = __it0.pos() - 1;
    proof { sym_step_m(s0, y, k); }
@proof after loop 0
    assert(y.take(y.len() as int) =~= y);
@end
@fn mach::SegmentBuilder::new #C16,C17,C18,C21,C22
@requires
    old(symtab).wf(), old(symtab).syms().len() == 0, artifact.wf(),
    seg_room(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)], artifact.imps()),
@ensures
    final(symtab).wf(),
    final(symtab).syms() == allms(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)], artifact.imps()), //#C16,C17,C18
    built(r.sections@, msecs(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)]), 4 + custom_sections@.len() as int), //#C16,C17,C22
    r.align_pad_map@ == padst(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)], 4), //#C16,C17
    r.size == mend(msecs(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)]), 4 + custom_sections@.len() as int), //#C21,C22
    r.offset == crate::goblin::mach::header::mhsize(ctx.container) + mfoff(msecs(seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)]), 4 + custom_sections@.len() as int), //#C21,C22
@proof head
    hide(msecs); hide(stdsyms); hide(cusyms); hide(mend); hide(mfoff); hide(maddr); hide(gsyms); hide(csyms); hide(galign); hide(roff); hide(mstrtab); hide(secis);
@proof start
    let ghost g = seq![dviews(code@), dviews(blob_data@), dviews(cstrings@), dviews(zeroed_data@), dviews(custom_sections@)];
    let ghost im = artifact.imps();
    let ghost s = msecs(g);
    let ghost h = crate::goblin::mach::header::mhsize(ctx.container);
    proof { pow2_64(); code_flags(); stage(g, im, 0, h); stage(g, im, 1, h); stage(g, im, 2, h); stage(g, im, 3, h); istage(g, im); stage0(g); assert(symtab.syms() =~= stdsyms(g, 0)); }
@proof before call build_section 0
    proof { built_new(sections@, s); key_fresh(sections@, s, 0); }
    let ghost e0 = sections@;
@proof before call build_section 1
    proof { built_step(e0, sections@, s, 0); key_fresh(sections@, s, 1); }
    let ghost e1 = sections@;
@proof before call build_section 2
    proof { built_step(e1, sections@, s, 1); key_fresh(sections@, s, 2); }
    let ghost e2 = sections@;
@proof before call build_section 3
    proof { built_step(e2, sections@, s, 2); key_fresh(sections@, s, 3); }
    let ghost e3 = sections@;
@proof before loop 0
    proof { built_step(e3, sections@, s, 3); }
@loop 0
    invariant
        seg_room(g, im), s == msecs(g), g[4] == dviews(custom_sections@), 0 <= h < 64, __it0.all().len() == custom_sections@.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < __it0.all().len() ==> #[trigger] __it0.all()[i] == (i as usize, &custom_sections@[i]),
        symtab.wf(), symtab.syms() == cusyms(g, __it0.pos()), //#C18
        built(sections@, s, 4 + __it0.pos()), //#C16,C17
        size == mend(s, 4 + __it0.pos()), offset == h + mfoff(s, 4 + __it0.pos()), //#C21
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost i = __it0.pos() - 1;
    let ghost e = sections@;
    proof { cstage(g, im, i, h); key_fresh(sections@, s, 4 + i); assert(defn(*def) == g[4][i]); assert forall|j: int| 0 <= j < def.symbols@.len() implies (#[trigger] def.symbols@[j]).1 < mlim() by { assert(g[4][i].syms[j].1 < mlim()); } }
@proof loop 0 end
    proof { built_step(e, sections@, s, 4 + i); }
@loop 1
    invariant
        seg_room(g, im), im == artifact.imps(), __it1.all().len() == im.len(), 0 <= __it1.pos() <= __it1.all().len(), forall|i: int| 0 <= i < im.len() ==> (#[trigger] __it1.all()[i]).0@ == im[i].0,
        symtab.wf(), symtab.syms() == cusyms(g, g[4].len() as int) + isyms(im).take(__it1.pos()), //#C18
    decreases __it1.all().len() - __it1.pos(),
@proof loop 1 start
    proof { istage(g, im); sym_step_m(cusyms(g, g[4].len() as int), isyms(im), __it1.pos() - 1); }
@end
@fn mach::build_relocations #C20,C12
@requires
    artifact.wf(), symtab.wf(), links_ready(symtab.syms(), msecs(groups(artifact.defs())), artifact.flinks()),
    built(old(segment).sections@, msecs(groups(artifact.defs())), msecs(groups(artifact.defs())).len() as int),
@ensures
    linked(final(segment).sections@, msecs(groups(artifact.defs())), symtab.syms(), artifact.flinks(), artifact.flinks().len() as int), //#C20,C12
    final(segment).offset == old(segment).offset, final(segment).size == old(segment).size, final(segment).align_pad_map == old(segment).align_pad_map,
@proof head
    hide(msecs); hide(secis);
@proof start
    let ghost s = msecs(groups(artifact.defs()));
    let ghost x = symtab.syms();
    let ghost q = artifact.flinks();
    let ghost s0 = *segment;
    proof { linked_new(segment.sections@, s, x, q); }
@loop 0
    invariant
        s == msecs(groups(artifact.defs())), x == symtab.syms(), q == artifact.flinks(), symtab.wf(), links_ready(x, s, q),
        __it0.all().len() == q.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < q.len() ==> linkv(#[trigger] __it0.all()[i]) == q[i],
        linked(segment.sections@, s, x, q, __it0.pos()), //#C20,C12
        segment.offset == s0.offset, segment.size == s0.size, segment.align_pad_map == s0.align_pad_map,
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost k = __it0.pos() - 1;
    proof { link_all(segment.sections@, s, x, q, k); tab_lookup(symtab, q[k].from); tab_lookup(symtab, q[k].to); assert(linkv(link) == q[k]); }
@end
@fn mach::Mach::new #C15,C16,C17,C18,C20,C21,C22
@requires
    mready(artifact),
@ensures
    mbuilt(&r, artifact),
@proof head
    hide(msecs); hide(data_legal); hide(mend); hide(mfoff); hide(mstrtab); hide(allms); hide(part);
@proof start
    broadcast use dviews_push;
    let ghost d = artifact.defs();
    proof { part_all(d); ready_links(artifact); reveal(mach_dom); secs_are(groups(d), artifact.imps()); }
@proof before loop 0
    proof { dviews_new(code@); dviews_new(data@); dviews_new(bss@); dviews_new(cstrings@); dviews_new(sections@); }
@loop 0
    invariant
        artifact.wf(), d == artifact.defs(), __it0.all().len() == d.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < d.len() ==> defn(#[trigger] __it0.all()[i]) == d[i],
        parted(code@, data@, cstrings@, bss@, sections@, d.take(__it0.pos())), //#C16
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    proof { let i = __it0.pos() - 1; part_step(d, i); def_decl(artifact, i); assert(defn(def) == d[i]); }
@proof after loop 0
    assert(seq![dviews(code@), dviews(data@), dviews(cstrings@), dviews(bss@), dviews(sections@)] =~= groups(d));
@proof end
    proof { reveal(mbuilt); }
@end
@fn mach::Mach::header #C15,C21
@requires
    mach_cpu(self.architecture) is Some, sizeofcmds < lim(),
@ensures
    r == mheader(self.ctx, self.architecture, sizeofcmds as int),
@end
@fn mach::to_bytes #C05,C12,C15,C16,C17,C18,C19,C20,C21,C22
@requires
    mready(artifact),
@ensures
    r is Ok && mach_object(artifact, r->Ok_0@),
@proof head
    hide(mbuilt); hide(mwritable); hide(mready); hide(mimage); hide(mach_object); hide(mach_dom);
@proof before call write 0
    proof { done_write(&mach, artifact); mach_conclude(&mach, artifact); }
@end
@fn mach::Mach::write #C15,C16,C17,C18,C19,C20,C21,C22
@requires
    mwritable(&self), old(file).data().len() == 0, old(file).pos() == 0,
@ensures
    r is Ok, //#C05
    final(file).data() == mimage(&self), //#C15,C16,C17,C18,C19,C20,C21,C22
@proof head
    hide(mstrtab); hide(cat); hide(sum); hide(nlist); hide(put); hide(cmdsize); hide(m_sym); hide(m_str); hide(m_rel); hide(m_cont); hide(m_end); hide(msecv_at); hide(name16); hide(msecvs); hide(mnames); hide(tnames); hide(nls); hide(dviews); hide(wdefs); hide(padk); hide(fsz); hide(fnr);
@proof start
    broadcast use {put_there, crate::goblin::mach::segment::enc_msect_len, crate::goblin::mach::segment::enc_mseg_len, crate::goblin::mach::header::enc_mh_len, crate::goblin::mach::load_command::enc_symtab_len, crate::goblin::mach::symbols::enc_nlist_len, crate::goblin::mach::relocation::enc_rinfo_len};
    let ghost m = self;
    let ghost c = self.ctx;
    let ghost pm = self.segment.align_pad_map@;
    let ghost e = self.segment.sections@;
    let ghost x = self.symtab.syms();
    proof { moffs(&m); wlens(&m); sum_room(e, 0); }
    assert(wdefs(pm, dviews(m.code@), true) && wdefs(pm, dviews(m.data@), false) && wdefs(pm, dviews(m.cstrings@), true) && wdefs(pm, dviews(m.sections@), true)) by { reveal(mwritable); }
@proof after let strtable_offset 0
    assert(strtable_offset == m_str(&m)); //#C19,C21
@proof after let first_section_offset 0
    assert(first_section_offset == m_cont(&m)) by { reveal(m_cont); } //#C21
    assert(relocation_offset_start == m_rel(&m)) by { reveal(m_rel); } //#C21
    assert(symtable_offset == m_sym(&m)); //#C21
@proof before loop 0
    proof { out_new(Seq::empty(), msecvs(&m), fmsect(c), raw_sections.data(), raw_sections.pos()); }
@loop 0
    invariant
        mwritable(&m), e == m.segment.sections@, c == m.ctx, c == self.ctx,
        __it0.all().len() == e.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < e.len() ==> *(#[trigger] __it0.all()[i]) == e[i].1,
        section_offset == m_cont(&m) + sum(e.take(__it0.pos()), fsz()), relocation_offset == m_rel(&m) + sum(e.take(__it0.pos()), fnr()), //#C16,C20,C21
        outk(Seq::empty(), msecvs(&m), fmsect(c), __it0.pos(), raw_sections.data(), raw_sections.pos()), //#C16,C17
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    let ghost k = __it0.pos() - 1;
    proof { moffs(&m); wsec_at(&m, k); out_step(Seq::empty(), msecvs(&m), fmsect(c), k, raw_sections.data(), raw_sections.pos()); reveal(fsz); reveal(fnr); reveal(msecv_at); }
@proof after loop 0
    proof { raw_done(&m, raw_sections.data(), raw_sections.pos()); }
@proof before loop 1
    assert(header == mheader(c, m.architecture, cmdsize(&m) + 24)); //#C15,C21
    assert(segment_load_command.sv() == segv(&m)); //#C21,C22
    assert(symtab_load_command == symcmd(&m)); //#C19,C21
    proof { w4_is(&m, file.data()); out_new(w4(&m), dviews(m.code@), fpad(pm, 0xcc), file.data(), file.pos()); dview_len(m.code@); }
@loop 1
    invariant
        mwritable(&m), pm == m.segment.align_pad_map@, pm == self.segment.align_pad_map@, wdefs(pm, dviews(m.code@), true), dviews(m.code@).len() == m.code@.len(),
        __it1.all() == m.code@, 0 <= __it1.pos() <= __it1.all().len(),
        outk(w4(&m), dviews(m.code@), fpad(pm, 0xcc), __it1.pos(), file.data(), file.pos()), //#C16
    decreases __it1.all().len() - __it1.pos(),
@proof loop 1 start
    broadcast use put_there;
    let ghost i1 = __it1.pos() - 1;
    let ghost b1 = file.data();
    let ghost v1 = dviews(m.code@)[i1];
    proof { dview_at(m.code@, i1); out_step(w4(&m), dviews(m.code@), fpad(pm, 0xcc), i1, file.data(), file.pos()); wdef_at(&m, dviews(m.code@), true, i1); pad_first(b1 + blob(v1.data), 0xcc); pad_whole(b1, pm, 0xcc, v1); }
    assert(b1 + Seq::<u8>::empty() =~= b1);
@loop 2
    invariant
        __it2.all().len() == align_pad, 0 <= __it2.pos() <= __it2.all().len(),
        file.data() == padk(b1 + blob(v1.data), 0xcc, __it2.pos()), file.pos() == file.data().len(), //#C16,C17
    decreases __it2.all().len() - __it2.pos(),
@proof loop 2 start
    broadcast use put_there;
    proof { pad_next(b1 + blob(v1.data), 0xcc, __it2.pos() - 1, [0xccu8]@); }
@proof after loop 1
    proof { out_done(w4(&m), dviews(m.code@), fpad(pm, 0xcc), file.data(), file.pos()); }
    assert(file.data() == w5(&m)) by { reveal(w5); } //#C16
@proof before loop 3
    proof { out_new(w5(&m), dviews(m.data@), fpad(pm, 0xaa), file.data(), file.pos()); dview_len(m.data@); }
@loop 3
    invariant
        mwritable(&m), pm == m.segment.align_pad_map@, pm == self.segment.align_pad_map@, wdefs(pm, dviews(m.data@), false), dviews(m.data@).len() == m.data@.len(),
        __it3.all() == m.data@, 0 <= __it3.pos() <= __it3.all().len(),
        outk(w5(&m), dviews(m.data@), fpad(pm, 0xaa), __it3.pos(), file.data(), file.pos()), //#C16
    decreases __it3.all().len() - __it3.pos(),
@proof loop 3 start
    broadcast use put_there;
    let ghost i3 = __it3.pos() - 1;
    let ghost b3 = file.data();
    let ghost v3 = dviews(m.data@)[i3];
    proof { dview_at(m.data@, i3); out_step(w5(&m), dviews(m.data@), fpad(pm, 0xaa), i3, file.data(), file.pos()); wdef_at(&m, dviews(m.data@), false, i3); pad_first(b3 + blob(v3.data), 0xaa); pad_whole(b3, pm, 0xaa, v3); }
    assert(b3 + Seq::<u8>::empty() =~= b3);
@loop 4
    invariant
        __it4.all().len() == align_pad, 0 <= __it4.pos() <= __it4.all().len(),
        file.data() == padk(b3 + blob(v3.data), 0xaa, __it4.pos()), file.pos() == file.data().len(), //#C16,C17
    decreases __it4.all().len() - __it4.pos(),
@proof loop 4 start
    broadcast use put_there;
    proof { pad_next(b3 + blob(v3.data), 0xaa, __it4.pos() - 1, [0xaau8]@); }
@proof after loop 3
    proof { out_done(w5(&m), dviews(m.data@), fpad(pm, 0xaa), file.data(), file.pos()); }
    assert(file.data() == w6(&m)) by { reveal(w6); } //#C16
@proof before loop 5
    proof { out_new(w6(&m), dviews(m.cstrings@), fpad(pm, 0xaa), file.data(), file.pos()); dview_len(m.cstrings@); }
@loop 5
    invariant
        mwritable(&m), pm == m.segment.align_pad_map@, pm == self.segment.align_pad_map@, wdefs(pm, dviews(m.cstrings@), true), dviews(m.cstrings@).len() == m.cstrings@.len(),
        __it5.all() == m.cstrings@, 0 <= __it5.pos() <= __it5.all().len(),
        outk(w6(&m), dviews(m.cstrings@), fpad(pm, 0xaa), __it5.pos(), file.data(), file.pos()), //#C16
    decreases __it5.all().len() - __it5.pos(),
@proof loop 5 start
    broadcast use put_there;
    let ghost i5 = __it5.pos() - 1;
    let ghost b5 = file.data();
    let ghost v5 = dviews(m.cstrings@)[i5];
    proof { dview_at(m.cstrings@, i5); out_step(w6(&m), dviews(m.cstrings@), fpad(pm, 0xaa), i5, file.data(), file.pos()); wdef_at(&m, dviews(m.cstrings@), true, i5); pad_first(b5 + blob(v5.data), 0xaa); pad_whole(b5, pm, 0xaa, v5); }
    assert(b5 + Seq::<u8>::empty() =~= b5);
@loop 6
    invariant
        __it6.all().len() == align_pad, 0 <= __it6.pos() <= __it6.all().len(),
        file.data() == padk(b5 + blob(v5.data), 0xaa, __it6.pos()), file.pos() == file.data().len(), //#C16,C17
    decreases __it6.all().len() - __it6.pos(),
@proof loop 6 start
    broadcast use put_there;
    proof { pad_next(b5 + blob(v5.data), 0xaa, __it6.pos() - 1, [0xaau8]@); }
@proof after loop 5
    proof { out_done(w6(&m), dviews(m.cstrings@), fpad(pm, 0xaa), file.data(), file.pos()); }
    assert(file.data() == w7(&m)) by { reveal(w7); } //#C16
@proof before loop 7
    proof { out_new(w7(&m), dviews(m.sections@), fpad(pm, 0xaa), file.data(), file.pos()); dview_len(m.sections@); }
@loop 7
    invariant
        mwritable(&m), pm == m.segment.align_pad_map@, pm == self.segment.align_pad_map@, wdefs(pm, dviews(m.sections@), true), dviews(m.sections@).len() == m.sections@.len(),
        __it7.all() == m.sections@, 0 <= __it7.pos() <= __it7.all().len(),
        outk(w7(&m), dviews(m.sections@), fpad(pm, 0xaa), __it7.pos(), file.data(), file.pos()), //#C16
    decreases __it7.all().len() - __it7.pos(),
@proof loop 7 start
    broadcast use put_there;
    let ghost i7 = __it7.pos() - 1;
    let ghost b7 = file.data();
    let ghost v7 = dviews(m.sections@)[i7];
    proof { dview_at(m.sections@, i7); out_step(w7(&m), dviews(m.sections@), fpad(pm, 0xaa), i7, file.data(), file.pos()); wdef_at(&m, dviews(m.sections@), true, i7); pad_first(b7 + blob(v7.data), 0xaa); pad_whole(b7, pm, 0xaa, v7); }
    assert(b7 + Seq::<u8>::empty() =~= b7);
@loop 8
    invariant
        __it8.all().len() == align_pad, 0 <= __it8.pos() <= __it8.all().len(),
        file.data() == padk(b7 + blob(v7.data), 0xaa, __it8.pos()), file.pos() == file.data().len(), //#C16,C17
    decreases __it8.all().len() - __it8.pos(),
@proof loop 8 start
    broadcast use put_there;
    proof { pad_next(b7 + blob(v7.data), 0xaa, __it8.pos() - 1, [0xaau8]@); }
@proof after loop 7
    proof { out_done(w7(&m), dviews(m.sections@), fpad(pm, 0xaa), file.data(), file.pos()); }
    assert(file.data() == w8(&m)) by { reveal(w8); } //#C16
@proof before loop 9
    proof { out_new(w8(&m), nls(x), fnl(c), file.data(), file.pos()); }
@loop 9
    invariant
        mwritable(&m), x == m.symtab.syms(), c == m.ctx, c == self.ctx, x.len() == m.symtab.symbols@.len(), nls(x).len() == x.len(),
        __it9.all().len() == m.symtab.symbols@.len(), 0 <= __it9.pos() <= __it9.all().len(), forall|i: int| 0 <= i < m.symtab.symbols@.len() ==> (#[trigger] __it9.all()[i]).1 == m.symtab.symbols@[i].1,
        outk(w8(&m), nls(x), fnl(c), __it9.pos(), file.data(), file.pos()), //#C18,C19
    decreases __it9.all().len() - __it9.pos(),
@proof loop 9 start
    broadcast use put_there;
    let ghost i9 = __it9.pos() - 1;
    proof { moffs(&m); wsym_at(&m, i9); out_step(w8(&m), nls(x), fnl(c), i9, file.data(), file.pos()); reveal(nlist); }
@proof after loop 9
    proof { out_done(w8(&m), nls(x), fnl(c), file.data(), file.pos()); }
    assert(file.data() == w9(&m)) by { reveal(w9); } //#C18,C19
@proof before loop 10
    proof { out_new(w9(&m) + seq![0u8], mnames(x), fmstr(), file.data(), file.pos()); }
@loop 10
    invariant
        x == m.symtab.syms(), __it10.all().len() == mnames(x).len(), 0 <= __it10.pos() <= __it10.all().len(), forall|i: int| 0 <= i < mnames(x).len() ==> (#[trigger] __it10.all()[i]).1@ == mnames(x)[i],
        outk(w9(&m) + seq![0u8], mnames(x), fmstr(), __it10.pos(), file.data(), file.pos()), //#C19
    decreases __it10.all().len() - __it10.pos(),
@proof loop 10 start
    broadcast use put_there;
    let ghost b10 = file.data();
    let ghost n10 = mnames(x)[__it10.pos() - 1];
    proof { out_step(w9(&m) + seq![0u8], mnames(x), fmstr(), __it10.pos() - 1, file.data(), file.pos()); str_whole(b10, n10); }
@proof after loop 10
    proof { out_done(w9(&m) + seq![0u8], mnames(x), fmstr(), file.data(), file.pos()); }
    assert(file.data() == w10(&m)) by { reveal(w10); } //#C19
@proof before loop 11
    proof { out_new(w10(&m), e, fsecrel(c.le), file.data(), file.pos()); }
@loop 11
    invariant
        mwritable(&m), e == m.segment.sections@, c == m.ctx, c == self.ctx,
        __it11.all().len() == e.len(), 0 <= __it11.pos() <= __it11.all().len(), forall|i: int| 0 <= i < e.len() ==> *(#[trigger] __it11.all()[i]) == e[i].1,
        outk(w10(&m), e, fsecrel(c.le), __it11.pos(), file.data(), file.pos()), //#C20
    decreases __it11.all().len() - __it11.pos(),
@proof loop 11 start
    broadcast use put_there;
    let ghost i11 = __it11.pos() - 1;
    let ghost b11 = file.data();
    let ghost rs = e[i11].1.relocations@;
    proof { out_step(w10(&m), e, fsecrel(c.le), i11, file.data(), file.pos()); out_new(b11, rs, frinfo(c.le), file.data(), file.pos()); }
@loop 12
    invariant
        c == self.ctx, __it12.all() == rs, 0 <= __it12.pos() <= __it12.all().len(),
        outk(b11, rs, frinfo(c.le), __it12.pos(), file.data(), file.pos()), //#C20
    decreases __it12.all().len() - __it12.pos(),
@proof loop 12 start
    broadcast use put_there;
    proof { out_step(b11, rs, frinfo(c.le), __it12.pos() - 1, file.data(), file.pos()); }
@proof loop 11 end
    proof { out_done(b11, rs, frinfo(c.le), file.data(), file.pos()); }
@proof after loop 11
    proof { out_done(w10(&m), e, fsecrel(c.le), file.data(), file.pos()); }
    assert(file.data() == w11(&m)) by { reveal(w11); } //#C20
@proof end
    assert(file.data() == mimage(&m)) by { reveal(mimage); }
@end
