@fn artifact::decl::ImportKind::from_decl #C04,C01
@ensures
    r == (match *decl { Decl::Import(k) => Some(k), _ => None::<ImportKind> }),
@end
@fn artifact::decl::DefinedDecl::is_function #C23
@ensures
    r == (*self is Function),
@end
@fn artifact::decl::DefinedDecl::is_data #C23
@ensures
    r == (*self is Data),
@end
@fn artifact::decl::DefinedDecl::is_section #C23
@ensures
    r == (*self is Section),
@end
@fn artifact::decl::DefinedDecl::is_global #C23
@ensures
    r == (dscope(*self) == Scope::Global),
@end
@fn artifact::decl::DefinedDecl::is_local #C23,C02,C08,C09,C18
@ensures
    r == (dscope(*self) == Scope::Local),
@end
@fn artifact::decl::DefinedDecl::is_weak #C23,C18
@ensures
    r == (dscope(*self) == Scope::Weak),
@end
@fn artifact::decl::DefinedDecl::is_writable #C23,C07
@ensures
    r == dwritable(*self),
@end
@fn artifact::decl::DefinedDecl::get_align #C23,C17
@ensures
    r == dalign(*self),
@end
@fn artifact::decl::Decl::function_import #C23
@ensures
    r == (FunctionImportDecl {}),
@end
@fn artifact::decl::Decl::data_import #C23
@ensures
    r == (DataImportDecl {}),
@end
@fn artifact::decl::{Decl::function,FunctionDecl::default} #C23
@ensures
    r == fdecl0(),
@end
@fn artifact::decl::{Decl::data,DataDecl::default} #C23
@ensures
    r == ddecl0(),
@end
@fn artifact::decl::Decl::cstring #C23
@ensures
    r == (DataDecl { datatype: DataType::String, ..ddecl0() }),
@end
@fn artifact::decl::{Decl::section,SectionDecl::new} #C23
@ensures
    r == sdecl0(kind),
@end
@fn artifact::decl::Decl::absorb #C01
@ensures
    merge(*old(self), other) matches Some(m) ==> r is Ok && *final(self) == m,
    merge(*old(self), other) is None ==> *final(self) == *old(self) && r == Err::<(), ArtifactError>(ArtifactError::IncompatibleDeclaration { old: *old(self), new: other }),
@end
@fn artifact::decl::Decl::is_import #C01,C03,C05
@ensures
    r == (*self is Import),
@end
@fn artifact::decl::Decl::is_section #C23,C11,C20
@ensures
    r == (*self matches Decl::Defined(DefinedDecl::Section(_))),
@end
@fn artifact::decl::FunctionImportDecl::default #C23
@ensures
    r == (FunctionImportDecl {}),
@end
@fn artifact::decl::DataImportDecl::default #C23
@ensures
    r == (DataImportDecl {}),
@end
@fn artifact::decl::FunctionImportDecl::into #C23
@ensures
    r == Decl::Import(ImportKind::Function),
@end
@fn artifact::decl::DataImportDecl::into #C23
@ensures
    r == Decl::Import(ImportKind::Data),
@end
@fn artifact::decl::FunctionDecl::into #C23
@ensures
    r == Decl::Defined(DefinedDecl::Function(self)),
@end
@fn artifact::decl::DataDecl::into #C23
@ensures
    r == Decl::Defined(DefinedDecl::Data(self)),
@end
@fn artifact::decl::SectionDecl::into #C23
@ensures
    r == Decl::Defined(DefinedDecl::Section(self)),
@end
@fn artifact::decl::FunctionDecl::global #C23
@ensures
    r == (FunctionDecl { scope: Scope::Global, ..self }),
@end
@fn artifact::decl::FunctionDecl::local #C23
@ensures
    r == (FunctionDecl { scope: Scope::Local, ..self }),
@end
@fn artifact::decl::FunctionDecl::weak #C23
@ensures
    r == (FunctionDecl { scope: Scope::Weak, ..self }),
@end
@fn artifact::decl::FunctionDecl::with_scope #C23
@ensures
    r == (FunctionDecl { scope: scope, ..self }),
@end
@fn artifact::decl::FunctionDecl::set_scope #C23
@ensures
    *final(self) == (FunctionDecl { scope: scope, ..*old(self) }),
@end
@fn artifact::decl::FunctionDecl::get_scope #C23,C08
@ensures
    r == self.scope,
@end
@fn artifact::decl::FunctionDecl::is_global #C23
@ensures
    r == (self.scope == Scope::Global),
@end
@fn artifact::decl::FunctionDecl::default_visibility #C23
@ensures
    r == (FunctionDecl { visibility: Visibility::Default, ..self }),
@end
@fn artifact::decl::FunctionDecl::protected #C23
@ensures
    r == (FunctionDecl { visibility: Visibility::Protected, ..self }),
@end
@fn artifact::decl::FunctionDecl::hidden #C23
@ensures
    r == (FunctionDecl { visibility: Visibility::Hidden, ..self }),
@end
@fn artifact::decl::FunctionDecl::with_visibility #C23
@ensures
    r == (FunctionDecl { visibility: visibility, ..self }),
@end
@fn artifact::decl::FunctionDecl::set_visibility #C23
@ensures
    *final(self) == (FunctionDecl { visibility: visibility, ..*old(self) }),
@end
@fn artifact::decl::FunctionDecl::get_visibility #C23,C08
@ensures
    r == self.visibility,
@end
@fn artifact::decl::DataDecl::global #C23
@ensures
    r == (DataDecl { scope: Scope::Global, ..self }),
@end
@fn artifact::decl::DataDecl::local #C23
@ensures
    r == (DataDecl { scope: Scope::Local, ..self }),
@end
@fn artifact::decl::DataDecl::weak #C23
@ensures
    r == (DataDecl { scope: Scope::Weak, ..self }),
@end
@fn artifact::decl::DataDecl::with_scope #C23
@ensures
    r == (DataDecl { scope: scope, ..self }),
@end
@fn artifact::decl::DataDecl::set_scope #C23
@ensures
    *final(self) == (DataDecl { scope: scope, ..*old(self) }),
@end
@fn artifact::decl::DataDecl::get_scope #C23,C08
@ensures
    r == self.scope,
@end
@fn artifact::decl::DataDecl::is_global #C23
@ensures
    r == (self.scope == Scope::Global),
@end
@fn artifact::decl::DataDecl::default_visibility #C23
@ensures
    r == (DataDecl { visibility: Visibility::Default, ..self }),
@end
@fn artifact::decl::DataDecl::protected #C23
@ensures
    r == (DataDecl { visibility: Visibility::Protected, ..self }),
@end
@fn artifact::decl::DataDecl::hidden #C23
@ensures
    r == (DataDecl { visibility: Visibility::Hidden, ..self }),
@end
@fn artifact::decl::DataDecl::with_visibility #C23
@ensures
    r == (DataDecl { visibility: visibility, ..self }),
@end
@fn artifact::decl::DataDecl::set_visibility #C23
@ensures
    *final(self) == (DataDecl { visibility: visibility, ..*old(self) }),
@end
@fn artifact::decl::DataDecl::get_visibility #C23,C08
@ensures
    r == self.visibility,
@end
@fn artifact::decl::DataDecl::with_datatype #C23
@ensures
    r == (DataDecl { datatype: datatype, ..self }),
@end
@fn artifact::decl::DataDecl::set_datatype #C23
@ensures
    *final(self) == (DataDecl { datatype: datatype, ..*old(self) }),
@end
@fn artifact::decl::DataDecl::get_datatype #C23,C07,C16
@ensures
    r == self.datatype,
@end
@fn artifact::decl::SectionDecl::with_datatype #C23
@ensures
    r == (SectionDecl { datatype: datatype, ..self }),
@end
@fn artifact::decl::SectionDecl::set_datatype #C23
@ensures
    *final(self) == (SectionDecl { datatype: datatype, ..*old(self) }),
@end
@fn artifact::decl::SectionDecl::get_datatype #C23,C07,C16
@ensures
    r == self.datatype,
@end
@fn artifact::decl::FunctionDecl::with_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    r == (FunctionDecl { align: align, ..self }),
@end
@fn artifact::decl::FunctionDecl::set_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    *final(self) == (FunctionDecl { align: align, ..*old(self) }),
@end
@fn artifact::decl::FunctionDecl::get_align #C23,C07,C17
@ensures
    r == self.align,
@end
@fn artifact::decl::DataDecl::with_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    r == (DataDecl { align: align, ..self }),
@end
@fn artifact::decl::DataDecl::set_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    *final(self) == (DataDecl { align: align, ..*old(self) }),
@end
@fn artifact::decl::DataDecl::get_align #C23,C07,C17
@ensures
    r == self.align,
@end
@fn artifact::decl::SectionDecl::with_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    r == (SectionDecl { align: align, ..self }),
@end
@fn artifact::decl::SectionDecl::set_align #C23
@requires
    align matches Some(a) ==> is_pow2(a as int),
@ensures
    *final(self) == (SectionDecl { align: align, ..*old(self) }),
@end
@fn artifact::decl::SectionDecl::get_align #C23,C07,C17
@ensures
    r == self.align,
@end
@fn artifact::decl::DataDecl::with_writable #C23
@ensures
    r == (DataDecl { writable: writable, ..self }),
@end
@fn artifact::decl::DataDecl::writable #C23
@ensures
    r == (DataDecl { writable: true, ..self }),
@end
@fn artifact::decl::DataDecl::read_only #C23
@ensures
    r == (DataDecl { writable: false, ..self }),
@end
@fn artifact::decl::DataDecl::set_writable #C23
@ensures
    *final(self) == (DataDecl { writable: writable, ..*old(self) }),
@end
@fn artifact::decl::DataDecl::is_writable #C23,C07
@ensures
    r == self.writable,
@end
@fn artifact::decl::SectionDecl::is_global #C23
@ensures
    !r,
@end
@fn artifact::decl::SectionDecl::is_writable #C23
@ensures
    r == (self.kind == SectionKind::Data),
@end
@fn artifact::decl::SectionDecl::kind #C23,C16
@ensures
    r == self.kind,
@end
