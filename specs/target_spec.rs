pub mod target_spec {
use vstd::prelude::*;
use crate::goblin::container::*;
use crate::target_lexicon::*;
/// word size and byte order: the target's, or the host's defaults when it lacks either
pub open spec fn ctx_of(t: &Triple) -> Ctx {
    if t.width() == Ok::<PointerWidth, ()>(PointerWidth::U16) || t.width() is Err || t.endian() is Err { Ctx { container: Container::Big, le: Endian::Little } }
    else {
        Ctx {
            container: if t.width()->Ok_0 == PointerWidth::U32 { Container::Little } else { Container::Big },
            le: if t.endian()->Ok_0 == Endianness::Little { Endian::Little } else { Endian::Big },
        }
    }
}
/// the ELF machine code of an architecture
pub open spec fn elf_machine(a: Architecture) -> Option<int> {
    match a {
        Architecture::Unknown => Some(0),
        Architecture::Sparc => Some(2),
        Architecture::X86_32(_) => Some(3),
        Architecture::Mips32(_) | Architecture::Mips64(_) => Some(8),
        Architecture::Powerpc => Some(20),
        Architecture::Powerpc64 | Architecture::Powerpc64le => Some(21),
        Architecture::S390x => Some(22),
        Architecture::Arm(_) => Some(40),
        Architecture::Sparc64 | Architecture::Sparcv9 => Some(43),
        Architecture::X86_64 => Some(62),
        Architecture::Msp430 => Some(105),
        Architecture::Aarch64(_) => Some(183),
        Architecture::Riscv32(_) | Architecture::Riscv64(_) => Some(243),
        _ => None,
    }
}
/// the Mach-O CPU type of an architecture
pub open spec fn mach_cpu(a: Architecture) -> Option<int> {
    match a {
        Architecture::Unknown => Some(0),
        Architecture::X86_32(_) => Some(7),
        Architecture::Arm(_) => Some(12),
        Architecture::Sparc => Some(14),
        Architecture::Powerpc => Some(18),
        Architecture::X86_64 => Some(0x0100_0007),
        Architecture::Aarch64(_) => Some(0x0100_000c),
        Architecture::Powerpc64 | Architecture::Powerpc64le => Some(0x0100_0012),
        _ => None,
    }
}
}
