// generated by tools/conform.py from specs/prelude.rs
use crate::b::*;
use goblin::container::{Container, Ctx, Endian};
use scroll::{IOwrite, Pwrite};

const _: () = assert!(::goblin::elf::header::EM_NONE as u64 == 0);
const _: () = assert!(::goblin::elf::header::EM_SPARC as u64 == 2);
const _: () = assert!(::goblin::elf::header::EM_386 as u64 == 3);
const _: () = assert!(::goblin::elf::header::EM_MIPS as u64 == 8);
const _: () = assert!(::goblin::elf::header::EM_PPC as u64 == 20);
const _: () = assert!(::goblin::elf::header::EM_PPC64 as u64 == 21);
const _: () = assert!(::goblin::elf::header::EM_S390 as u64 == 22);
const _: () = assert!(::goblin::elf::header::EM_ARM as u64 == 40);
const _: () = assert!(::goblin::elf::header::EM_SPARCV9 as u64 == 43);
const _: () = assert!(::goblin::elf::header::EM_X86_64 as u64 == 62);
const _: () = assert!(::goblin::elf::header::EM_MSP430 as u64 == 105);
const _: () = assert!(::goblin::elf::header::EM_AARCH64 as u64 == 183);
const _: () = assert!(::goblin::elf::header::EM_RISCV as u64 == 243);
const _: () = assert!(::goblin::elf::header::ET_NONE as u64 == 0);
const _: () = assert!(::goblin::elf::header::ET_REL as u64 == 1);
const _: () = assert!(::goblin::elf::header::ET_EXEC as u64 == 2);
const _: () = assert!(::goblin::elf::header::ET_DYN as u64 == 3);
const _: () = assert!(::goblin::elf::sym::STB_LOCAL as u64 == 0);
const _: () = assert!(::goblin::elf::sym::STB_GLOBAL as u64 == 1);
const _: () = assert!(::goblin::elf::sym::STB_WEAK as u64 == 2);
const _: () = assert!(::goblin::elf::sym::STT_NOTYPE as u64 == 0);
const _: () = assert!(::goblin::elf::sym::STT_OBJECT as u64 == 1);
const _: () = assert!(::goblin::elf::sym::STT_FUNC as u64 == 2);
const _: () = assert!(::goblin::elf::sym::STT_SECTION as u64 == 3);
const _: () = assert!(::goblin::elf::sym::STT_FILE as u64 == 4);
const _: () = assert!(::goblin::elf::sym::STT_COMMON as u64 == 5);
const _: () = assert!(::goblin::elf::sym::STT_TLS as u64 == 6);
const _: () = assert!(::goblin::elf::sym::STV_DEFAULT as u64 == 0);
const _: () = assert!(::goblin::elf::sym::STV_INTERNAL as u64 == 1);
const _: () = assert!(::goblin::elf::sym::STV_HIDDEN as u64 == 2);
const _: () = assert!(::goblin::elf::sym::STV_PROTECTED as u64 == 3);
const _: () = assert!(::goblin::elf::section_header::SHN_UNDEF as u64 == 0);
const _: () = assert!(::goblin::elf::section_header::SHN_LORESERVE as u64 == 0xff00);
const _: () = assert!(::goblin::elf::section_header::SHN_ABS as u64 == 0xfff1);
const _: () = assert!(::goblin::elf::section_header::SHN_COMMON as u64 == 0xfff2);
const _: () = assert!(::goblin::elf::section_header::SHN_XINDEX as u64 == 0xffff);
const _: () = assert!(::goblin::elf::section_header::SHT_NULL as u64 == 0);
const _: () = assert!(::goblin::elf::section_header::SHT_PROGBITS as u64 == 1);
const _: () = assert!(::goblin::elf::section_header::SHT_SYMTAB as u64 == 2);
const _: () = assert!(::goblin::elf::section_header::SHT_STRTAB as u64 == 3);
const _: () = assert!(::goblin::elf::section_header::SHT_RELA as u64 == 4);
const _: () = assert!(::goblin::elf::section_header::SHT_NOTE as u64 == 7);
const _: () = assert!(::goblin::elf::section_header::SHT_NOBITS as u64 == 8);
const _: () = assert!(::goblin::elf::section_header::SHT_REL as u64 == 9);
const _: () = assert!(::goblin::elf::section_header::SHT_SYMTAB_SHNDX as u64 == 18);
const _: () = assert!(::goblin::elf::section_header::SHF_WRITE as u64 == 1);
const _: () = assert!(::goblin::elf::section_header::SHF_ALLOC as u64 == 2);
const _: () = assert!(::goblin::elf::section_header::SHF_EXECINSTR as u64 == 4);
const _: () = assert!(::goblin::elf::section_header::SHF_MERGE as u64 == 0x10);
const _: () = assert!(::goblin::elf::section_header::SHF_STRINGS as u64 == 0x20);
const _: () = assert!(::goblin::elf::section_header::SHF_INFO_LINK as u64 == 0x40);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_NONE as u64 == 0);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_64 as u64 == 1);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_PC32 as u64 == 2);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_GOT32 as u64 == 3);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_PLT32 as u64 == 4);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_GOTPCREL as u64 == 9);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_32 as u64 == 10);
const _: () = assert!(::goblin::elf::reloc::R_X86_64_32S as u64 == 11);
const _: () = assert!(::goblin::mach::constants::S_REGULAR as u64 == 0);
const _: () = assert!(::goblin::mach::constants::S_ZEROFILL as u64 == 1);
const _: () = assert!(::goblin::mach::constants::S_CSTRING_LITERALS as u64 == 2);
const _: () = assert!(::goblin::mach::constants::S_ATTR_PURE_INSTRUCTIONS as u64 == 0x8000_0000);
const _: () = assert!(::goblin::mach::constants::S_ATTR_DEBUG as u64 == 0x0200_0000);
const _: () = assert!(::goblin::mach::constants::S_ATTR_SOME_INSTRUCTIONS as u64 == 0x400);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_X86 as u64 == 7);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_X86_64 as u64 == 0x0100_0007);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_ARM as u64 == 12);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_ARM64 as u64 == 0x0100_000c);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_SPARC as u64 == 14);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_POWERPC as u64 == 18);
const _: () = assert!(::goblin::mach::cputype::CPU_TYPE_POWERPC64 as u64 == 0x0100_0012);
const _: () = assert!(::goblin::mach::header::MH_OBJECT as u64 == 1);
const _: () = assert!(::goblin::mach::header::MH_SUBSECTIONS_VIA_SYMBOLS as u64 == 0x2000);
const _: () = assert!(::goblin::mach::load_command::LC_SYMTAB as u64 == 2);
const _: () = assert!(::goblin::mach::load_command::LC_SEGMENT as u64 == 1);
const _: () = assert!(::goblin::mach::load_command::LC_SEGMENT_64 as u64 == 0x19);
const _: () = assert!(::goblin::mach::symbols::NO_SECT as u64 == 0);
const _: () = assert!(::goblin::mach::symbols::N_UNDF as u64 == 0);
const _: () = assert!(::goblin::mach::symbols::N_EXT as u64 == 1);
const _: () = assert!(::goblin::mach::symbols::N_SECT as u64 == 0xe);
const _: () = assert!(::goblin::mach::symbols::N_WEAK_DEF as u64 == 0x80);
const _: () = assert!(::goblin::mach::symbols::N_PEXT as u64 == 0x10);
const _: () = assert!(::goblin::mach::symbols::N_WEAK_REF as u64 == 0x40);
const _: () = assert!(::goblin::mach::relocation::R_ABS as u64 == 0);
const _: () = assert!(::goblin::mach::relocation::X86_64_RELOC_UNSIGNED as u64 == 0);
const _: () = assert!(::goblin::mach::relocation::X86_64_RELOC_SIGNED as u64 == 1);
const _: () = assert!(::goblin::mach::relocation::X86_64_RELOC_BRANCH as u64 == 2);
const _: () = assert!(::goblin::mach::relocation::X86_64_RELOC_GOT_LOAD as u64 == 3);
const _: () = assert!(::goblin::mach::relocation::X86_64_RELOC_GOT as u64 == 4);
const _: () = assert!(::goblin::mach::relocation::SIZEOF_RELOCATION_INFO as u64 == 8);
pub fn enc_header(h: &::goblin::elf::header::Header, c: Ctx) -> B {  B::of(&h.e_ident) + fld(h.e_type as i128, 2, c.le) + fld(h.e_machine as i128, 2, c.le) + fld(h.e_version as i128, 4, c.le) + wrd(h.e_entry as i128, c) + wrd(h.e_phoff as i128, c) + wrd(h.e_shoff as i128, c) + fld(h.e_flags as i128, 4, c.le) + fld(h.e_ehsize as i128, 2, c.le) + fld(h.e_phentsize as i128, 2, c.le) + fld(h.e_phnum as i128, 2, c.le) + fld(h.e_shentsize as i128, 2, c.le) + fld(h.e_shnum as i128, 2, c.le) + fld(h.e_shstrndx as i128, 2, c.le)  }
pub fn enc_header_fits(h: &::goblin::elf::header::Header, c: Ctx) -> bool {  h.e_ident == ident(c) && (c.is_big() || (h.e_entry < 0x1_0000_0000 && h.e_phoff < 0x1_0000_0000 && h.e_shoff < 0x1_0000_0000))  }
pub fn enc_header_any() -> ::goblin::elf::header::Header { ::goblin::elf::header::Header { e_ident: crate::any(), e_type: crate::any(), e_machine: crate::any(), e_version: crate::any(), e_entry: crate::any(), e_phoff: crate::any(), e_shoff: crate::any(), e_flags: crate::any(), e_ehsize: crate::any(), e_phentsize: crate::any(), e_phnum: crate::any(), e_shentsize: crate::any(), e_shnum: crate::any(), e_shstrndx: crate::any() } }
pub fn enc_sym(h: &::goblin::elf::sym::Sym, c: Ctx) -> B {  if c.is_big() { fld(h.st_name as i128, 4, c.le) + B::of(&[h.st_info]) + B::of(&[h.st_other]) + fld(h.st_shndx as i128, 2, c.le) + fld(h.st_value as i128, 8, c.le) + fld(h.st_size as i128, 8, c.le) }
        else { fld(h.st_name as i128, 4, c.le) + fld(h.st_value as i128, 4, c.le) + fld(h.st_size as i128, 4, c.le) + B::of(&[h.st_info]) + B::of(&[h.st_other]) + fld(h.st_shndx as i128, 2, c.le) }  }
pub fn enc_sym_fits(h: &::goblin::elf::sym::Sym, c: Ctx) -> bool {  h.st_name < 0x1_0000_0000 && h.st_shndx < 0x1_0000 && (c.is_big() || (h.st_value < 0x1_0000_0000 && h.st_size < 0x1_0000_0000))  }
pub fn enc_sym_any() -> ::goblin::elf::sym::Sym { ::goblin::elf::sym::Sym { st_name: crate::any(), st_info: crate::any(), st_other: crate::any(), st_shndx: crate::any(), st_value: crate::any(), st_size: crate::any() } }
pub fn enc_shdr(h: &::goblin::elf::section_header::SectionHeader, c: Ctx) -> B {  fld(h.sh_name as i128, 4, c.le) + fld(h.sh_type as i128, 4, c.le) + wrd(h.sh_flags as i128, c) + wrd(h.sh_addr as i128, c) + wrd(h.sh_offset as i128, c) + wrd(h.sh_size as i128, c) + fld(h.sh_link as i128, 4, c.le) + fld(h.sh_info as i128, 4, c.le) + wrd(h.sh_addralign as i128, c) + wrd(h.sh_entsize as i128, c)  }
pub fn enc_shdr_fits(h: &::goblin::elf::section_header::SectionHeader, c: Ctx) -> bool {  h.sh_name < 0x1_0000_0000 && (c.is_big() || (h.sh_flags < 0x1_0000_0000 && h.sh_addr < 0x1_0000_0000 && h.sh_offset < 0x1_0000_0000 && h.sh_size < 0x1_0000_0000 && h.sh_addralign < 0x1_0000_0000 && h.sh_entsize < 0x1_0000_0000))  }
pub fn enc_shdr_any() -> ::goblin::elf::section_header::SectionHeader { ::goblin::elf::section_header::SectionHeader { sh_name: crate::any(), sh_type: crate::any(), sh_flags: crate::any(), sh_addr: crate::any(), sh_offset: crate::any(), sh_size: crate::any(), sh_link: crate::any(), sh_info: crate::any(), sh_addralign: crate::any(), sh_entsize: crate::any() } }
pub fn enc_reloc(h: &::goblin::elf::reloc::Reloc, c: (bool, Ctx)) -> B {  wrd(h.r_offset as i128, c.1) + wrd(if c.1.is_big() { h.r_sym as i128 * 0x1_0000_0000 + h.r_type as i128 } else { h.r_sym as i128 * 0x100 + h.r_type as i128 }, c.1) + (if c.0 { wrd(if h.r_addend.is_some() { h.r_addend.unwrap() as i128 } else { 0 }, c.1) } else { B::of(&[]) })  }
pub fn enc_reloc_fits(h: &::goblin::elf::reloc::Reloc, c: (bool, Ctx)) -> bool { 
            c.0 == (h.r_addend.is_some())
            && (if c.1.is_big() { h.r_sym < 0x1_0000_0000 } else { h.r_offset < 0x1_0000_0000 && h.r_sym < 0x100_0000 && h.r_type < 0x100 && (!(h.r_addend.is_some()) || (-0x8000_0000 <= h.r_addend.unwrap() && h.r_addend.unwrap() < 0x8000_0000)) })
         }
pub fn enc_reloc_any() -> ::goblin::elf::reloc::Reloc { ::goblin::elf::reloc::Reloc { r_offset: crate::any(), r_addend: crate::any(), r_sym: crate::any(), r_type: crate::any() } }
pub fn enc_mh(h: &::goblin::mach::header::Header, c: Ctx) -> B {  fld(h.magic as i128, 4, c.le) + fld(h.cputype as i128, 4, c.le) + fld(h.cpusubtype as i128, 4, c.le) + fld(h.filetype as i128, 4, c.le) + fld(h.ncmds as i128, 4, c.le) + fld(h.sizeofcmds as i128, 4, c.le) + fld(h.flags as i128, 4, c.le) + (if c.is_big() { fld(h.reserved as i128, 4, c.le) } else { B::of(&[]) })  }
pub fn enc_mh_fits(h: &::goblin::mach::header::Header, c: Ctx) -> bool {  h.ncmds < 0x1_0000_0000  }
pub fn enc_mh_any() -> ::goblin::mach::header::Header { ::goblin::mach::header::Header { magic: crate::any(), cputype: crate::any(), cpusubtype: crate::any(), filetype: crate::any(), ncmds: crate::any(), sizeofcmds: crate::any(), flags: crate::any(), reserved: crate::any() } }
pub fn enc_symtab(h: &::goblin::mach::load_command::SymtabCommand, c: Endian) -> B {  fld(h.cmd as i128, 4, c) + fld(h.cmdsize as i128, 4, c) + fld(h.symoff as i128, 4, c) + fld(h.nsyms as i128, 4, c) + fld(h.stroff as i128, 4, c) + fld(h.strsize as i128, 4, c)  }
pub fn enc_symtab_fits(h: &::goblin::mach::load_command::SymtabCommand, c: Endian) -> bool {  true  }
pub fn enc_symtab_any() -> ::goblin::mach::load_command::SymtabCommand { ::goblin::mach::load_command::SymtabCommand { cmd: crate::any(), cmdsize: crate::any(), symoff: crate::any(), nsyms: crate::any(), stroff: crate::any(), strsize: crate::any() } }
pub fn enc_msect(h: &::goblin::mach::segment::Section, c: Ctx) -> B {  raw16(h.sectname) + raw16(h.segname) + wrd(h.addr as i128, c) + wrd(h.size as i128, c) + fld(h.offset as i128, 4, c.le) + fld(h.align as i128, 4, c.le) + fld(h.reloff as i128, 4, c.le) + fld(h.nreloc as i128, 4, c.le) + fld(h.flags as i128, 4, c.le) + zeros(if c.is_big() { 12 } else { 8 })  }
pub fn enc_msect_fits(h: &::goblin::mach::segment::Section, c: Ctx) -> bool {  c.is_big() || (h.addr < 0x1_0000_0000 && h.size < 0x1_0000_0000)  }
pub fn enc_msect_any() -> ::goblin::mach::segment::Section { ::goblin::mach::segment::Section { sectname: crate::any(), segname: crate::any(), addr: crate::any(), size: crate::any(), offset: crate::any(), align: crate::any(), reloff: crate::any(), nreloc: crate::any(), flags: crate::any() } }
pub fn enc_mseg(h: &::goblin::mach::segment::Segment<'static>, c: Ctx) -> B {  fld(h.cmd as i128, 4, c.le) + fld(h.cmdsize as i128, 4, c.le) + raw16(h.segname) + wrd(h.vmaddr as i128, c) + wrd(h.vmsize as i128, c) + wrd(h.fileoff as i128, c) + wrd(h.filesize as i128, c) + fld(h.maxprot as i128, 4, c.le) + fld(h.initprot as i128, 4, c.le) + fld(h.nsects as i128, 4, c.le) + fld(h.flags as i128, 4, c.le)  }
pub fn enc_mseg_fits(h: &::goblin::mach::segment::Segment<'static>, c: Ctx) -> bool {  c.is_big() || (h.vmaddr < 0x1_0000_0000 && h.vmsize < 0x1_0000_0000 && h.fileoff < 0x1_0000_0000 && h.filesize < 0x1_0000_0000)  }
pub fn enc_mseg_any() -> ::goblin::mach::segment::Segment<'static> { let mut s = ::goblin::mach::segment::Segment::new(Ctx { container: if crate::any::<u8>() % 2 == 0 { Container::Big } else { Container::Little }, le: Endian::Little }, &[]); s.cmd = crate::any(); s.cmdsize = crate::any(); s.segname = crate::any(); s.vmaddr = crate::any(); s.vmsize = crate::any(); s.fileoff = crate::any(); s.filesize = crate::any(); s.maxprot = crate::any(); s.initprot = crate::any(); s.nsects = crate::any(); s.flags = crate::any(); s }
pub fn enc_nlist(h: &::goblin::mach::symbols::Nlist, c: Ctx) -> B {  fld(h.n_strx as i128, 4, c.le) + B::of(&[h.n_type]) + B::of(&[h.n_sect as u8]) + fld(h.n_desc as i128, 2, c.le) + wrd(h.n_value as i128, c)  }
pub fn enc_nlist_fits(h: &::goblin::mach::symbols::Nlist, c: Ctx) -> bool {  h.n_strx < 0x1_0000_0000 && h.n_sect < 0x100 && (c.is_big() || h.n_value < 0x1_0000_0000)  }
pub fn enc_nlist_any() -> ::goblin::mach::symbols::Nlist { ::goblin::mach::symbols::Nlist { n_strx: crate::any(), n_type: crate::any(), n_sect: crate::any(), n_desc: crate::any(), n_value: crate::any() } }
pub fn enc_rinfo(h: &::goblin::mach::relocation::RelocationInfo, c: Endian) -> B {  fld(h.r_address as i128, 4, c) + fld(h.r_info as i128, 4, c)  }
pub fn enc_rinfo_fits(h: &::goblin::mach::relocation::RelocationInfo, c: Endian) -> bool {  true  }
pub fn enc_rinfo_any() -> ::goblin::mach::relocation::RelocationInfo { ::goblin::mach::relocation::RelocationInfo { r_address: crate::any(), r_info: crate::any() } }
pub fn ident(c: Ctx) -> [u8; 16] { [127u8, 69, 76, 70, if c.is_big() { 2u8 } else { 1 }, if c.le == Endian::Little { 1u8 } else { 2 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0] }
pub fn ehsize(c: Ctx) -> i128 {  if c.is_big() { 64 } else { 52 }  }
pub fn symsize(c: Container) -> i128 {  if c == Container::Big { 24 } else { 16 }  }
pub fn shdrsize(c: Ctx) -> i128 {  if c.is_big() { 64 } else { 40 }  }
pub fn relsize(rela: bool, c: Ctx) -> i128 {  if c.is_big() { if rela { 24 } else { 16 } } else { if rela { 12 } else { 8 } }  }
pub fn mhsize(c: Container) -> i128 {  if c == Container::Big { 32 } else { 28 }  }
pub fn msectsize(c: Container) -> i128 {  if c == Container::Big { 80 } else { 68 }  }
pub fn msegsize(c: Container) -> i128 {  if c == Container::Big { 72 } else { 56 }  }
pub fn nlsize(c: Container) -> i128 {  if c == Container::Big { 16 } else { 12 }  }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_header_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let mut h = enc_header_any(); h.e_ident = ident(c); if !enc_header_fits(&h, c) { return } let e = enc_header(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_header_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let mut h = enc_header_any(); h.e_ident = ident(c); if !enc_header_fits(&h, c) { return } let e = enc_header(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_header_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let mut h = enc_header_any(); h.e_ident = ident(c); if !enc_header_fits(&h, c) { return } let e = enc_header(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_header_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let mut h = enc_header_any(); h.e_ident = ident(c); if !enc_header_fits(&h, c) { return } let e = enc_header(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_sym_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_sym_any(); if !enc_sym_fits(&h, c) { return } let e = enc_sym(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_sym_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_sym_any(); if !enc_sym_fits(&h, c) { return } let e = enc_sym(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_sym_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_sym_any(); if !enc_sym_fits(&h, c) { return } let e = enc_sym(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_sym_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_sym_any(); if !enc_sym_fits(&h, c) { return } let e = enc_sym(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_shdr_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_shdr_any(); if !enc_shdr_fits(&h, c) { return } let e = enc_shdr(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_shdr_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_shdr_any(); if !enc_shdr_fits(&h, c) { return } let e = enc_shdr(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_shdr_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_shdr_any(); if !enc_shdr_fits(&h, c) { return } let e = enc_shdr(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_shdr_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_shdr_any(); if !enc_shdr_fits(&h, c) { return } let e = enc_shdr(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_64_le_rela() { let c: (bool, Ctx) = (true, Ctx { container: Container::Big, le: Endian::Little }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_64_le_rel() { let c: (bool, Ctx) = (false, Ctx { container: Container::Big, le: Endian::Little }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_64_be_rela() { let c: (bool, Ctx) = (true, Ctx { container: Container::Big, le: Endian::Big }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_64_be_rel() { let c: (bool, Ctx) = (false, Ctx { container: Container::Big, le: Endian::Big }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_32_le_rela() { let c: (bool, Ctx) = (true, Ctx { container: Container::Little, le: Endian::Little }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_32_le_rel() { let c: (bool, Ctx) = (false, Ctx { container: Container::Little, le: Endian::Little }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_32_be_rela() { let c: (bool, Ctx) = (true, Ctx { container: Container::Little, le: Endian::Big }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_reloc_32_be_rel() { let c: (bool, Ctx) = (false, Ctx { container: Container::Little, le: Endian::Big }); let h = enc_reloc_any(); if !enc_reloc_fits(&h, c) { return } let e = enc_reloc(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mh_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_mh_any(); if !enc_mh_fits(&h, c) { return } let e = enc_mh(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mh_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_mh_any(); if !enc_mh_fits(&h, c) { return } let e = enc_mh(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mh_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_mh_any(); if !enc_mh_fits(&h, c) { return } let e = enc_mh(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mh_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_mh_any(); if !enc_mh_fits(&h, c) { return } let e = enc_mh(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_symtab_64_le() { let c: Endian = Endian::Little; let h = enc_symtab_any(); if !enc_symtab_fits(&h, c) { return } let e = enc_symtab(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_symtab_64_be() { let c: Endian = Endian::Big; let h = enc_symtab_any(); if !enc_symtab_fits(&h, c) { return } let e = enc_symtab(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_msect_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_msect_any(); if !enc_msect_fits(&h, c) { return } let e = enc_msect(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_msect_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_msect_any(); if !enc_msect_fits(&h, c) { return } let e = enc_msect(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_msect_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_msect_any(); if !enc_msect_fits(&h, c) { return } let e = enc_msect(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_msect_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_msect_any(); if !enc_msect_fits(&h, c) { return } let e = enc_msect(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mseg_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_mseg_any(); if !enc_mseg_fits(&h, c) { return } let e = enc_mseg(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mseg_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_mseg_any(); if !enc_mseg_fits(&h, c) { return } let e = enc_mseg(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mseg_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_mseg_any(); if !enc_mseg_fits(&h, c) { return } let e = enc_mseg(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_mseg_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_mseg_any(); if !enc_mseg_fits(&h, c) { return } let e = enc_mseg(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_nlist_64_le() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Little }; let h = enc_nlist_any(); if !enc_nlist_fits(&h, c) { return } let e = enc_nlist(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_nlist_64_be() { let c: Ctx = Ctx { container: Container::Big, le: Endian::Big }; let h = enc_nlist_any(); if !enc_nlist_fits(&h, c) { return } let e = enc_nlist(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_nlist_32_le() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Little }; let h = enc_nlist_any(); if !enc_nlist_fits(&h, c) { return } let e = enc_nlist(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_nlist_32_be() { let c: Ctx = Ctx { container: Container::Little, le: Endian::Big }; let h = enc_nlist_any(); if !enc_nlist_fits(&h, c) { return } let e = enc_nlist(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_rinfo_64_le() { let c: Endian = Endian::Little; let h = enc_rinfo_any(); if !enc_rinfo_fits(&h, c) { return } let e = enc_rinfo(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]
pub fn h_enc_rinfo_64_be() { let c: Endian = Endian::Big; let h = enc_rinfo_any(); if !enc_rinfo_fits(&h, c) { return } let e = enc_rinfo(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }
pub const HARNESSES: &[(&str, fn())] = &[("h_enc_header_64_le", h_enc_header_64_le), ("h_enc_header_64_be", h_enc_header_64_be), ("h_enc_header_32_le", h_enc_header_32_le), ("h_enc_header_32_be", h_enc_header_32_be), ("h_enc_sym_64_le", h_enc_sym_64_le), ("h_enc_sym_64_be", h_enc_sym_64_be), ("h_enc_sym_32_le", h_enc_sym_32_le), ("h_enc_sym_32_be", h_enc_sym_32_be), ("h_enc_shdr_64_le", h_enc_shdr_64_le), ("h_enc_shdr_64_be", h_enc_shdr_64_be), ("h_enc_shdr_32_le", h_enc_shdr_32_le), ("h_enc_shdr_32_be", h_enc_shdr_32_be), ("h_enc_reloc_64_le_rela", h_enc_reloc_64_le_rela), ("h_enc_reloc_64_le_rel", h_enc_reloc_64_le_rel), ("h_enc_reloc_64_be_rela", h_enc_reloc_64_be_rela), ("h_enc_reloc_64_be_rel", h_enc_reloc_64_be_rel), ("h_enc_reloc_32_le_rela", h_enc_reloc_32_le_rela), ("h_enc_reloc_32_le_rel", h_enc_reloc_32_le_rel), ("h_enc_reloc_32_be_rela", h_enc_reloc_32_be_rela), ("h_enc_reloc_32_be_rel", h_enc_reloc_32_be_rel), ("h_enc_mh_64_le", h_enc_mh_64_le), ("h_enc_mh_64_be", h_enc_mh_64_be), ("h_enc_mh_32_le", h_enc_mh_32_le), ("h_enc_mh_32_be", h_enc_mh_32_be), ("h_enc_symtab_64_le", h_enc_symtab_64_le), ("h_enc_symtab_64_be", h_enc_symtab_64_be), ("h_enc_msect_64_le", h_enc_msect_64_le), ("h_enc_msect_64_be", h_enc_msect_64_be), ("h_enc_msect_32_le", h_enc_msect_32_le), ("h_enc_msect_32_be", h_enc_msect_32_be), ("h_enc_mseg_64_le", h_enc_mseg_64_le), ("h_enc_mseg_64_be", h_enc_mseg_64_be), ("h_enc_mseg_32_le", h_enc_mseg_32_le), ("h_enc_mseg_32_be", h_enc_mseg_32_be), ("h_enc_nlist_64_le", h_enc_nlist_64_le), ("h_enc_nlist_64_be", h_enc_nlist_64_be), ("h_enc_nlist_32_le", h_enc_nlist_32_le), ("h_enc_nlist_32_be", h_enc_nlist_32_be), ("h_enc_rinfo_64_le", h_enc_rinfo_64_le), ("h_enc_rinfo_64_be", h_enc_rinfo_64_be)];
pub const CONSTANTS: usize = 91;
