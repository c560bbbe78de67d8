// Must be REJECTED on every run: if the assumed axioms were contradictory, Verus would accept it.
pub mod vacuity_spec {
use vstd::prelude::*;
use crate::prelude::*;
pub proof fn vacuity_probe(a: &crate::artifact::Artifact) ensures false, // VACUITY
{
    broadcast use {crate::scroll::enc_u32_len, crate::indexmap::indexmap_wf, crate::std_collections::btreemap_wf, crate::string_interner::interner_wf,
        crate::artifact_spec::ord_same_def,
        crate::goblin::elf::header::enc_header_len, crate::goblin::elf::sym::enc_sym_len, crate::goblin::elf::section_header::enc_shdr_len, crate::goblin::elf::reloc::enc_reloc_len,
        crate::goblin::mach::header::enc_mh_len, crate::goblin::mach::load_command::enc_symtab_len, crate::goblin::mach::segment::enc_msect_len, crate::goblin::mach::segment::enc_mseg_len, crate::goblin::mach::symbols::enc_nlist_len, crate::goblin::mach::relocation::enc_rinfo_len};
}
}
