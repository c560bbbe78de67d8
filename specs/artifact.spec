@fn artifact::Vec::vec_into #C02
@ensures
    r == Data::Blob(self_),
@end
@fn artifact::Data::file_size #C22,C16
@ensures
    r as int == dfile(datav(*self)),
    r < mem(),
@end
@fn artifact::Data::mem_size #C06,C08,C16,C22
@ensures
    r as int == dmem(datav(*self)),
@end
@fn artifact::Data::is_empty
@ensures
    r == (dmem(datav(*self)) == 0),
@end
@fn artifact::Data::is_zero_init #C07,C22
@ensures
    r == (*self is ZeroInit),
@end
@fn artifact::InternalDecl::new #C01
@ensures
    r == (InternalDecl { decl, defined: false }),
@end
@fn artifact::InternalDecl::define #C02
@ensures
    *final(self) == (InternalDecl { decl: old(self).decl, defined: true }),
@end
@fn artifact::Definition::from #C02,C05
@requires
    __p0.0.name < __p0.1@.len(),
@ensures
    defn(r) == idefv(__p0.1@, *__p0.0),
    *r.data == __p0.0.data,
@end
@fn artifact::ArtifactBuilder::new #C23
@ensures
    r == (ArtifactBuilder { target, name: None, library: false }),
@end
@fn artifact::ArtifactBuilder::name #C23
@ensures
    r == (ArtifactBuilder { name: Some(name), ..self }),
@end
@fn artifact::ArtifactBuilder::library #C23
@ensures
    r == (ArtifactBuilder { library: is_library, ..self }),
@end
@fn artifact::ArtifactBuilder::finish #C23
@ensures
    r.target == self.target, r.is_library == self.library,
    self.name matches Some(n) ==> r.name == n,
    self.name is None ==> r.name@ == "faerie.o"@,
    r.wf(),
    r.decls().len() == 0, r.imps().len() == 0, r.lnks().len() == 0, r.defs().len() == 0,
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::new #C23,C04
@ensures
    r.target == target, r.name == name, !r.is_library,
    r.wf(),
    r.decls().len() == 0, r.imps().len() == 0, r.lnks().len() == 0, r.defs().len() == 0,
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::imports #C04
@type __out0 Vec<(&'a str, &'a ImportKind)>
@requires
    self.wf(),
@ensures
    r.pos() == 0, r.wf(), r.all().len() == self.imps().len(),
    forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0@ == self.imps()[i].0 && *r.all()[i].1 == self.imps()[i].1,
@loop 0
    invariant
        self.wf(),
        __it0.all() == refs(self.imports@), 0 <= __it0.pos() <= __it0.all().len(),
        __out0@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __out0@.len() ==> (#[trigger] __out0@[i]).0@ == self.imps()[i].0 && *__out0@[i].1 == self.imps()[i].1,
    decreases __it0.all().len() - __it0.pos(),
@proof start
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
    proof { self.ids(); }
@proof loop 0 start
    proof { assert(hask(self.declarations@, self.imports@[__it0.pos() - 1].0)); find_lemma(self.declarations@, self.imports@[__it0.pos() - 1].0); }
@end
@fn artifact::Artifact::definitions #C02,C05
@type __out0 Vec<Definition<'a>>
@requires
    self.wf(),
@ensures
    r.pos() == 0, r.wf(), r.all().len() == self.defs().len(),
    forall|i: int| 0 <= i < r.all().len() ==> defn(#[trigger] r.all()[i]) == self.defs()[i],
@loop 0
    invariant
        self.wf(),
        __it0.all() == refs(self.local_definitions@) + refs(self.nonlocal_definitions@), 0 <= __it0.pos() <= __it0.all().len(),
        __out0@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __out0@.len() ==> defn(#[trigger] __out0@[i]) == self.defs()[i],
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    proof { let p = __it0.pos() - 1; let n = self.local_definitions@.len(); self.ids();
        if p < n { find_lemma(self.declarations@, self.local_definitions@[p].name); assert(self.defs()[p] == self.ldefs()[p]); } else { find_lemma(self.declarations@, self.nonlocal_definitions@[p - n].name); assert(self.defs()[p] == self.gdefs()[p - n]); } }
@proof start
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
@end
@fn artifact::Artifact::links #C03,C05
@type __out0 Vec<LinkAndDecl<'a>>
@requires
    self.wf(),
@ensures
    r.pos() == 0, r.wf(), r.all().len() == self.flinks().len(),
    forall|i: int| 0 <= i < r.all().len() ==> linkv(#[trigger] r.all()[i]) == self.flinks()[i],
@loop 0
    invariant
        self.wf(),
        __it0.all() == refs(self.links@), 0 <= __it0.pos() <= __it0.all().len(),
        __out0@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __out0@.len() ==> linkv(#[trigger] __out0@[i]) == self.flinks()[i],
    decreases __it0.all().len() - __it0.pos(),
@proof loop 0 start
    proof { let p = __it0.pos() - 1; let l = self.links@[p]; self.ids(); find_lemma(self.declarations@, l.0); find_lemma(self.declarations@, l.1);
        self.by_id(l.0); self.by_id(l.1);
        assert(l.0 < self.strings@.len() && l.1 < self.strings@.len()); }
@proof start
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
@end
@fn artifact::Artifact::declare_with #C01,C02
@requires
    old(self).wf(),
@ensures
    final(self).wf(), final(self).lnks() == old(self).lnks(),
    r is Ok ==> final(self).declared(name@) && final(self).entry_of(name@).defined,
    r is Ok ==> exists|m: Artifact| #[trigger] m.wf() && declare_post(old(self), &m, name@, decl, Ok(())) && def_done(&m, final(self), name@, DataV::Blob(definition@), Seq::empty()),
    r matches Err(e) ==> (declare_post(old(self), final(self), name@, decl, Err(e)) || exists|m: Artifact| #[trigger] m.wf() && declare_post(old(self), &m, name@, decl, Ok(())) && final(self).same(&m) && def_error(&m, name@, DataV::Blob(definition@), Seq::empty(), e)),
@proof start
    broadcast use {steps, redeclared, done_defined};
@end
@fn artifact::Artifact::declare #C01,C04
@type index Option<usize>
@requires
    old(self).wf(),
@ensures
    final(self).wf(), //#C01,C04
    declare_post(old(self), final(self), name@, decl, r), //#C01
@loop 0
    invariant
        __it0.all() == refs(self.imports@), 0 <= __it0.pos() <= __it0.all().len(),
        present == (exists|i: int| 0 <= i < __it0.pos() && (#[trigger] self.imports@[i]).0 == decl_name),
    decreases __it0.all().len() - __it0.pos(),
@loop 1
    invariant
        __it1.all().len() == self.imports@.len(), forall|i: int| 0 <= i < __it1.all().len() ==> #[trigger] __it1.all()[i] == (i as usize, &self.imports@[i]), 0 <= __it1.pos() <= __it1.all().len(),
        index matches Some(k) ==> k < __it1.pos() && self.imports@[k as int].0 == decl_name,
        index is None ==> forall|i: int| 0 <= i < __it1.pos() ==> (#[trigger] self.imports@[i]).0 != decl_name,
    decreases __it1.all().len() - __it1.pos(),
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::declarations #C01
@requires
    old(self).wf(), declarations.pos() == 0, declarations.wf(),
@ensures
    final(self).wf(),
    declared_all(old(self), final(self), declarations.all(), r),
@loop 0
    invariant
        self.wf(),
        __it0.all() == declarations.all(), 0 <= __it0.pos() <= __it0.all().len(),
        declared_seq(hist, old(self), self, declarations.all(), __it0.pos()),
    decreases __it0.all().len() - __it0.pos(),
@proof before loop 0
    let ghost mut hist = seq![*self];
@proof loop 0 start
    let ghost was = *self;
@proof loop 0 end
    proof {
        let h = hist.push(*self); let k = __it0.pos();
        assert forall|i: int| 0 <= i < k implies (#[trigger] h[i]).wf() && declare_post(&h[i], &h[i + 1], declarations.all()[i].0@, declarations.all()[i].1, Ok(())) by { if i < k - 1 { assert(h[i] == hist[i] && h[i + 1] == hist[i + 1]); } }
        hist = h;
    }
@end
@fn artifact::Artifact::undefined_symbols #C05
@type __out0 Vec<(&usize, &InternalDecl)>
@requires
    self.wf(),
@ensures
    views(r@) == undef(self.decls()),
@loop 0
    invariant
        self.wf(),
        __it0.all().len() == self.declarations@.len(), forall|i: int| 0 <= i < __it0.all().len() ==> *(#[trigger] __it0.all()[i]).0 == self.declarations@[i].0 && *__it0.all()[i].1 == self.declarations@[i].1, 0 <= __it0.pos() <= __it0.all().len(),
        forall|i: int| 0 <= i < __out0@.len() ==> *(#[trigger] __out0@[i]).0 < self.strings@.len(),
        idviews(self.strings@, __out0@) =~= undef(self.decls().take(__it0.pos())),
    decreases __it0.all().len() - __it0.pos(),
@loop 1
    invariant
        self.wf(),
        forall|i: int| 0 <= i < __it1.all().len() ==> *(#[trigger] __it1.all()[i]).0 < self.strings@.len(), 0 <= __it1.pos() <= __it1.all().len(),
        idviews(self.strings@, __it1.all()) =~= undef(self.decls()),
        views(syms@) =~= idviews(self.strings@, __it1.all()).take(__it1.pos()),
    decreases __it1.all().len() - __it1.pos(),
@proof loop 0 end
    proof { let p = __it0.pos() - 1; assert(self.decls().take(p + 1).drop_last() =~= self.decls().take(p)); assert(self.decls().take(p + 1).last() == self.decls()[p]); assert(self.declarations@[p].0 < self.strings@.len()); }
@proof before loop 1
    proof { assert(self.decls().take(self.decls().len() as int) =~= self.decls()); }
@proof start
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps); reveal(Artifact::ldefs); reveal(Artifact::gdefs); reveal(Artifact::lnks);
@end

@fn artifact::Artifact::define_with_symbols #C02
@requires
    old(self).wf(),
@ensures
    (r is Ok) == def_legal(old(self), name@, datav(data), symbols@.len() as int),
    r is Ok ==> def_done(old(self), final(self), name@, datav(data), symbols@),
    r matches Err(e) ==> final(self).same(old(self)) && final(self).wf() && def_error(old(self), name@, datav(data), symbols@, e),
    final(self).wf(),
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::define #C02
@requires
    old(self).wf(),
@ensures
    (r is Ok) == def_legal(old(self), name@, DataV::Blob(data@), 0),
    r is Ok ==> def_done(old(self), final(self), name@, DataV::Blob(data@), Seq::empty()),
    r matches Err(e) ==> final(self).same(old(self)) && final(self).wf() && def_error(old(self), name@, DataV::Blob(data@), Seq::empty(), e),
    final(self).wf(),
@end
@fn artifact::Artifact::define_zero_init #C02,C22
@requires
    old(self).wf(),
@ensures
    (r is Ok) == def_legal(old(self), name@, DataV::Zero(size), 0),
    r is Ok ==> def_done(old(self), final(self), name@, DataV::Zero(size), Seq::empty()),
    r matches Err(e) ==> final(self).same(old(self)) && final(self).wf() && def_error(old(self), name@, DataV::Zero(size), Seq::empty(), e),
    final(self).wf(),
@end
@fn artifact::Artifact::import #C01,C04
@requires
    old(self).wf(),
@ensures
    final(self).wf(), //#C01,C04
    declare_post(old(self), final(self), import@, Decl::Import(kind), r), //#C01
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::link #C03
@requires
    old(self).wf(),
@ensures
    (r is Ok) == link_legal(old(self), link),
    r is Ok ==> link_done(old(self), final(self), link, Reloc::Auto),
    r matches Err(e) ==> final(self).same(old(self)) && final(self).wf() && link_error(old(self), link, e),
@end
@fn artifact::Artifact::link_with #C03
@requires
    old(self).wf(),
@ensures
    (r is Ok) == link_legal(old(self), link),
    r is Ok ==> link_done(old(self), final(self), link, reloc),
    r matches Err(e) ==> final(self).same(old(self)) && final(self).wf() && link_error(old(self), link, e),
@proof start
    broadcast use steps;
@end
@fn artifact::Artifact::emit_as #C05
@requires
    self.wf(), undef(self.decls()).len() == 0 ==> emit_dom(self, format),
@ensures
    emit_post(self, format, r),
@end
@fn artifact::Artifact::emit #C05
@requires
    self.wf(), undef(self.decls()).len() == 0 ==> emit_dom(self, self.target.binary_format),
@ensures
    emit_post(self, self.target.binary_format, r),
@end
@fn artifact::Artifact::write_as #C05
@requires
    self.wf(), undef(self.decls()).len() == 0 ==> emit_dom(self, format),
@ensures
    exists|e: Result<Vec<u8>, ArtifactError>| #[trigger] emit_post(self, format, e) && write_post(e, old(sink).written(), final(sink).written(), r),
@end
@fn artifact::Artifact::write #C05
@requires
    self.wf(), undef(self.decls()).len() == 0 ==> emit_dom(self, self.target.binary_format),
@ensures
    exists|e: Result<Vec<u8>, ArtifactError>| #[trigger] emit_post(self, self.target.binary_format, e) && write_post(e, old(sink).written(), final(sink).written(), r),
@end
