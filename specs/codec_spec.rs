// What a reader recovers from the encoded bytes: every encoding is one-to-one on the values it can hold,
// so "the bytes at this offset are enc(h)" says that a reader of the format reads exactly h there.
pub mod codec_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::scroll::Enc;
use crate::goblin::container::{Ctx, Container, Endian};
use crate::goblin::elf::header::{Header as EHeader, enc_header};
use crate::goblin::elf::sym::{Sym, enc_sym};
use crate::goblin::elf::section_header::{SectionHeader, enc_shdr};
use crate::goblin::elf::reloc::{Reloc, enc_reloc};
use crate::goblin::mach::header::{Header as MHeader, enc_mh};
use crate::goblin::mach::load_command::{SymtabCommand, enc_symtab};
use crate::goblin::mach::segment::{MSectV, SegV, Section, enc_msect, enc_mseg};
use crate::goblin::mach::symbols::{Nlist, enc_nlist};
use crate::goblin::mach::relocation::{RelocationInfo, enc_rinfo};

/// the values an n-byte field holds without loss, read as unsigned
pub open spec fn codec_fitsu(x: int, n: nat) -> bool { 0 <= x < (if n == 2 { 0x1_0000 } else if n == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000int }) }
/// ... read as two's complement
pub open spec fn codec_fitss(x: int, n: nat) -> bool { (if n == 4 { -0x8000_0000 <= x < 0x8000_0000 } else { -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000int }) }

proof fn codec_bytes(x: int, y: int, n: nat, e: Endian)
    requires fld(x, n, e) == fld(y, n, e), n <= 8,
    ensures forall|i: int| 0 <= i < n ==> byte_of(x, i) == byte_of(y, i),
{
    assert forall|i: int| 0 <= i < n implies byte_of(x, i) == byte_of(y, i) by {
        let k = if e == Endian::Little { i } else { n - 1 - i };
        assert(fld(x, n, e)[k] == byte_of(x, i));
        assert(fld(y, n, e)[k] == byte_of(y, i));
    }
}
/// one byte off the bottom: x / 256^i is its byte i plus 256 times x / 256^(i+1)
proof fn codec_step(x: int, i: int)
    requires 0 <= i < 7,
    ensures x / pow256(i) == byte_of(x, i) + 0x100 * (x / pow256(i + 1)),
{
    let d = pow256(i);
    let q = x / d; let r = x % d; let q2 = q / 0x100; let r2 = q % 0x100;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, 0x100);
    assert(d * 0x100 == pow256(i + 1));
    assert(x == d * (0x100 * q2 + r2) + r);
    assert(d * (0x100 * q2 + r2) == (d * 0x100) * q2 + d * r2) by (nonlinear_arith);
    assert(0 <= d * r2 <= d * 0xff) by (nonlinear_arith) requires 0 <= r2 <= 0xff, d > 0;
    assert(0 <= r < d);
    assert(x == q2 * (d * 0x100) + (d * r2 + r)) by (nonlinear_arith) requires x == (d * 0x100) * q2 + d * r2 + r;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d * 0x100, q2, d * r2 + r);
}
/// the bytes that a field holds, as a number
spec fn codec_num(x: int, n: nat) -> int {
    byte_of(x, 0) + byte_of(x, 1) * 0x100 + (if n == 2 { 0 } else { byte_of(x, 2) * 0x1_0000 + byte_of(x, 3) * 0x100_0000
        + (if n == 4 { 0int } else { byte_of(x, 4) * 0x1_0000_0000 + byte_of(x, 5) * 0x100_0000_0000 + byte_of(x, 6) * 0x1_0000_0000_0000 + byte_of(x, 7) * 0x100_0000_0000_0000 }) })
}
/// x is what its field holds, plus a multiple of the field's range
proof fn codec_sum(x: int, n: nat) -> (t: int)
    requires n == 2 || n == 4 || n == 8,
    ensures x == codec_num(x, n) + t * (if n == 2 { 0x1_0000 } else if n == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000int }),
{
    hide(byte_of);
    codec_step(x, 0); codec_step(x, 1); codec_step(x, 2); codec_step(x, 3); codec_step(x, 4); codec_step(x, 5); codec_step(x, 6);
    assert(x / 1 == x);
    assert(x / pow256(7) == byte_of(x, 7) + 0x100 * ((x / pow256(7)) / 0x100)) by { reveal(byte_of); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x / pow256(7), 0x100); }
    if n == 2 { x / pow256(2) } else if n == 4 { x / pow256(4) } else { (x / pow256(7)) / 0x100 }
}
/// a field determines the value in it
pub proof fn codec_fld(x: int, y: int, n: nat, e: Endian)
    requires n == 2 || n == 4 || n == 8, fld(x, n, e) == fld(y, n, e),
        (codec_fitsu(x, n) && codec_fitsu(y, n)) || (n != 2 && codec_fitss(x, n) && codec_fitss(y, n)),
    ensures x == y,
{
    hide(byte_of);
    codec_bytes(x, y, n, e);
    assert(codec_num(x, n) == codec_num(y, n)) by {
        assert(byte_of(x, 0) == byte_of(y, 0)); assert(byte_of(x, 1) == byte_of(y, 1));
        if n > 2 { assert(byte_of(x, 2) == byte_of(y, 2)); assert(byte_of(x, 3) == byte_of(y, 3)); }
        if n > 4 { assert(byte_of(x, 4) == byte_of(y, 4)); assert(byte_of(x, 5) == byte_of(y, 5)); assert(byte_of(x, 6) == byte_of(y, 6)); assert(byte_of(x, 7) == byte_of(y, 7)); }
    }
    let t = codec_sum(x, n); let u = codec_sum(y, n);
}
proof fn codec_split(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires a + b == c + d, b.len() == d.len(),
    ensures a == c, b == d,
{
    assert((a + b).len() == (c + d).len());
    assert(a =~= (a + b).take(a.len() as int)); assert(c =~= (c + d).take(a.len() as int));
    assert(b =~= (a + b).skip(a.len() as int)); assert(d =~= (c + d).skip(a.len() as int));
}
/// the last field of the two encodings agrees, and so does what is before it
proof fn codec_last(p: Seq<u8>, x: int, q: Seq<u8>, y: int, n: nat, e: Endian)
    requires p + fld(x, n, e) == q + fld(y, n, e), n == 2 || n == 4 || n == 8,
        (codec_fitsu(x, n) && codec_fitsu(y, n)) || (n != 2 && codec_fitss(x, n) && codec_fitss(y, n)),
    ensures p == q, x == y,
{
    codec_split(p, fld(x, n, e), q, fld(y, n, e));
    codec_fld(x, y, n, e);
}
proof fn codec_first(x: int, y: int, n: nat, e: Endian)
    requires fld(x, n, e) == fld(y, n, e), n == 2 || n == 4 || n == 8, codec_fitsu(x, n), codec_fitsu(y, n),
    ensures x == y,
{ codec_fld(x, y, n, e); }
pub proof fn codec_header(a: EHeader, b: EHeader, c: Ctx)
    requires enc_header(a, c) == enc_header(b, c), a.fits(c), b.fits(c),
    ensures a == b,
{
    reveal(enc_header);
    let p1 = a.e_ident@; let q1 = b.e_ident@;
    let p2 = p1 + fld(a.e_type as int, 2, c.le); let q2 = q1 + fld(b.e_type as int, 2, c.le);
    let p3 = p2 + fld(a.e_machine as int, 2, c.le); let q3 = q2 + fld(b.e_machine as int, 2, c.le);
    let p4 = p3 + fld(a.e_version as int, 4, c.le); let q4 = q3 + fld(b.e_version as int, 4, c.le);
    let p5 = p4 + wrd(a.e_entry as int, c); let q5 = q4 + wrd(b.e_entry as int, c);
    let p6 = p5 + wrd(a.e_phoff as int, c); let q6 = q5 + wrd(b.e_phoff as int, c);
    let p7 = p6 + wrd(a.e_shoff as int, c); let q7 = q6 + wrd(b.e_shoff as int, c);
    let p8 = p7 + fld(a.e_flags as int, 4, c.le); let q8 = q7 + fld(b.e_flags as int, 4, c.le);
    let p9 = p8 + fld(a.e_ehsize as int, 2, c.le); let q9 = q8 + fld(b.e_ehsize as int, 2, c.le);
    let p10 = p9 + fld(a.e_phentsize as int, 2, c.le); let q10 = q9 + fld(b.e_phentsize as int, 2, c.le);
    let p11 = p10 + fld(a.e_phnum as int, 2, c.le); let q11 = q10 + fld(b.e_phnum as int, 2, c.le);
    let p12 = p11 + fld(a.e_shentsize as int, 2, c.le); let q12 = q11 + fld(b.e_shentsize as int, 2, c.le);
    let p13 = p12 + fld(a.e_shnum as int, 2, c.le); let q13 = q12 + fld(b.e_shnum as int, 2, c.le);
    let p14 = p13 + fld(a.e_shstrndx as int, 2, c.le); let q14 = q13 + fld(b.e_shstrndx as int, 2, c.le);
    assert(enc_header(a, c) == p14); assert(enc_header(b, c) == q14);
    codec_last(p13, a.e_shstrndx as int, q13, b.e_shstrndx as int, 2, c.le);
    codec_last(p12, a.e_shnum as int, q12, b.e_shnum as int, 2, c.le);
    codec_last(p11, a.e_shentsize as int, q11, b.e_shentsize as int, 2, c.le);
    codec_last(p10, a.e_phnum as int, q10, b.e_phnum as int, 2, c.le);
    codec_last(p9, a.e_phentsize as int, q9, b.e_phentsize as int, 2, c.le);
    codec_last(p8, a.e_ehsize as int, q8, b.e_ehsize as int, 2, c.le);
    codec_last(p7, a.e_flags as int, q7, b.e_flags as int, 4, c.le);
    codec_last(p6, a.e_shoff as int, q6, b.e_shoff as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p5, a.e_phoff as int, q5, b.e_phoff as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p4, a.e_entry as int, q4, b.e_entry as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p3, a.e_version as int, q3, b.e_version as int, 4, c.le);
    codec_last(p2, a.e_machine as int, q2, b.e_machine as int, 2, c.le);
    codec_last(p1, a.e_type as int, q1, b.e_type as int, 2, c.le);
}
pub proof fn codec_sym(a: Sym, b: Sym, c: Ctx)
    requires enc_sym(a, c) == enc_sym(b, c), a.fits(c), b.fits(c),
    ensures a == b,
{
    reveal(enc_sym);
    if c.big() {
        let p1 = fld(a.st_name as int, 4, c.le); let q1 = fld(b.st_name as int, 4, c.le);
        let p2 = p1 + seq![a.st_info]; let q2 = q1 + seq![b.st_info];
        let p3 = p2 + seq![a.st_other]; let q3 = q2 + seq![b.st_other];
        let p4 = p3 + fld(a.st_shndx as int, 2, c.le); let q4 = q3 + fld(b.st_shndx as int, 2, c.le);
        let p5 = p4 + fld(a.st_value as int, 8, c.le); let q5 = q4 + fld(b.st_value as int, 8, c.le);
        let p6 = p5 + fld(a.st_size as int, 8, c.le); let q6 = q5 + fld(b.st_size as int, 8, c.le);
        assert(enc_sym(a, c) == p6); assert(enc_sym(b, c) == q6);
        codec_last(p5, a.st_size as int, q5, b.st_size as int, 8, c.le);
        codec_last(p4, a.st_value as int, q4, b.st_value as int, 8, c.le);
        codec_last(p3, a.st_shndx as int, q3, b.st_shndx as int, 2, c.le);
        codec_split(p2, seq![a.st_other], q2, seq![b.st_other]);
        assert(seq![a.st_other][0] == seq![b.st_other][0]);
        codec_split(p1, seq![a.st_info], q1, seq![b.st_info]);
        assert(seq![a.st_info][0] == seq![b.st_info][0]);
        codec_fld(a.st_name as int, b.st_name as int, 4, c.le);
    } else {
        let p1 = fld(a.st_name as int, 4, c.le); let q1 = fld(b.st_name as int, 4, c.le);
        let p2 = p1 + fld(a.st_value as int, 4, c.le); let q2 = q1 + fld(b.st_value as int, 4, c.le);
        let p3 = p2 + fld(a.st_size as int, 4, c.le); let q3 = q2 + fld(b.st_size as int, 4, c.le);
        let p4 = p3 + seq![a.st_info]; let q4 = q3 + seq![b.st_info];
        let p5 = p4 + seq![a.st_other]; let q5 = q4 + seq![b.st_other];
        let p6 = p5 + fld(a.st_shndx as int, 2, c.le); let q6 = q5 + fld(b.st_shndx as int, 2, c.le);
        assert(enc_sym(a, c) == p6); assert(enc_sym(b, c) == q6);
        codec_last(p5, a.st_shndx as int, q5, b.st_shndx as int, 2, c.le);
        codec_split(p4, seq![a.st_other], q4, seq![b.st_other]);
        assert(seq![a.st_other][0] == seq![b.st_other][0]);
        codec_split(p3, seq![a.st_info], q3, seq![b.st_info]);
        assert(seq![a.st_info][0] == seq![b.st_info][0]);
        codec_last(p2, a.st_size as int, q2, b.st_size as int, 4, c.le);
        codec_last(p1, a.st_value as int, q1, b.st_value as int, 4, c.le);
        codec_fld(a.st_name as int, b.st_name as int, 4, c.le);
    }
}
pub proof fn codec_shdr(a: SectionHeader, b: SectionHeader, c: Ctx)
    requires enc_shdr(a, c) == enc_shdr(b, c), a.fits(c), b.fits(c),
    ensures a == b,
{
    reveal(enc_shdr);
    let p1 = fld(a.sh_name as int, 4, c.le); let q1 = fld(b.sh_name as int, 4, c.le);
    let p2 = p1 + fld(a.sh_type as int, 4, c.le); let q2 = q1 + fld(b.sh_type as int, 4, c.le);
    let p3 = p2 + wrd(a.sh_flags as int, c); let q3 = q2 + wrd(b.sh_flags as int, c);
    let p4 = p3 + wrd(a.sh_addr as int, c); let q4 = q3 + wrd(b.sh_addr as int, c);
    let p5 = p4 + wrd(a.sh_offset as int, c); let q5 = q4 + wrd(b.sh_offset as int, c);
    let p6 = p5 + wrd(a.sh_size as int, c); let q6 = q5 + wrd(b.sh_size as int, c);
    let p7 = p6 + fld(a.sh_link as int, 4, c.le); let q7 = q6 + fld(b.sh_link as int, 4, c.le);
    let p8 = p7 + fld(a.sh_info as int, 4, c.le); let q8 = q7 + fld(b.sh_info as int, 4, c.le);
    let p9 = p8 + wrd(a.sh_addralign as int, c); let q9 = q8 + wrd(b.sh_addralign as int, c);
    let p10 = p9 + wrd(a.sh_entsize as int, c); let q10 = q9 + wrd(b.sh_entsize as int, c);
    assert(enc_shdr(a, c) == p10); assert(enc_shdr(b, c) == q10);
    codec_last(p9, a.sh_entsize as int, q9, b.sh_entsize as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p8, a.sh_addralign as int, q8, b.sh_addralign as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p7, a.sh_info as int, q7, b.sh_info as int, 4, c.le);
    codec_last(p6, a.sh_link as int, q6, b.sh_link as int, 4, c.le);
    codec_last(p5, a.sh_size as int, q5, b.sh_size as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p4, a.sh_offset as int, q4, b.sh_offset as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p3, a.sh_addr as int, q3, b.sh_addr as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p2, a.sh_flags as int, q2, b.sh_flags as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p1, a.sh_type as int, q1, b.sh_type as int, 4, c.le);
    codec_fld(a.sh_name as int, b.sh_name as int, 4, c.le);
}
pub proof fn codec_mh(a: MHeader, b: MHeader, c: Ctx)
    requires enc_mh(a, c) == enc_mh(b, c), a.fits(c), b.fits(c), c.big(),
    ensures a == b,
{
    reveal(enc_mh);
    if c.big() {
        let p1 = fld(a.magic as int, 4, c.le); let q1 = fld(b.magic as int, 4, c.le);
        let p2 = p1 + fld(a.cputype as int, 4, c.le); let q2 = q1 + fld(b.cputype as int, 4, c.le);
        let p3 = p2 + fld(a.cpusubtype as int, 4, c.le); let q3 = q2 + fld(b.cpusubtype as int, 4, c.le);
        let p4 = p3 + fld(a.filetype as int, 4, c.le); let q4 = q3 + fld(b.filetype as int, 4, c.le);
        let p5 = p4 + fld(a.ncmds as int, 4, c.le); let q5 = q4 + fld(b.ncmds as int, 4, c.le);
        let p6 = p5 + fld(a.sizeofcmds as int, 4, c.le); let q6 = q5 + fld(b.sizeofcmds as int, 4, c.le);
        let p7 = p6 + fld(a.flags as int, 4, c.le); let q7 = q6 + fld(b.flags as int, 4, c.le);
        let p8 = p7 + fld(a.reserved as int, 4, c.le); let q8 = q7 + fld(b.reserved as int, 4, c.le);
        assert(enc_mh(a, c) == p8); assert(enc_mh(b, c) == q8);
        codec_last(p7, a.reserved as int, q7, b.reserved as int, 4, c.le);
        codec_last(p6, a.flags as int, q6, b.flags as int, 4, c.le);
        codec_last(p5, a.sizeofcmds as int, q5, b.sizeofcmds as int, 4, c.le);
        codec_last(p4, a.ncmds as int, q4, b.ncmds as int, 4, c.le);
        codec_last(p3, a.filetype as int, q3, b.filetype as int, 4, c.le);
        codec_last(p2, a.cpusubtype as int, q2, b.cpusubtype as int, 4, c.le);
        codec_last(p1, a.cputype as int, q1, b.cputype as int, 4, c.le);
        codec_fld(a.magic as int, b.magic as int, 4, c.le);
    }
}
pub proof fn codec_symtab(a: SymtabCommand, b: SymtabCommand, c: Endian)
    requires enc_symtab(a, c) == enc_symtab(b, c), 
    ensures a == b,
{
    reveal(enc_symtab);
    let p1 = fld(a.cmd as int, 4, c); let q1 = fld(b.cmd as int, 4, c);
    let p2 = p1 + fld(a.cmdsize as int, 4, c); let q2 = q1 + fld(b.cmdsize as int, 4, c);
    let p3 = p2 + fld(a.symoff as int, 4, c); let q3 = q2 + fld(b.symoff as int, 4, c);
    let p4 = p3 + fld(a.nsyms as int, 4, c); let q4 = q3 + fld(b.nsyms as int, 4, c);
    let p5 = p4 + fld(a.stroff as int, 4, c); let q5 = q4 + fld(b.stroff as int, 4, c);
    let p6 = p5 + fld(a.strsize as int, 4, c); let q6 = q5 + fld(b.strsize as int, 4, c);
    assert(enc_symtab(a, c) == p6); assert(enc_symtab(b, c) == q6);
    codec_last(p5, a.strsize as int, q5, b.strsize as int, 4, c);
    codec_last(p4, a.stroff as int, q4, b.stroff as int, 4, c);
    codec_last(p3, a.nsyms as int, q3, b.nsyms as int, 4, c);
    codec_last(p2, a.symoff as int, q2, b.symoff as int, 4, c);
    codec_last(p1, a.cmdsize as int, q1, b.cmdsize as int, 4, c);
    codec_fld(a.cmd as int, b.cmd as int, 4, c);
}
pub proof fn codec_msect(a: MSectV, b: MSectV, c: Ctx)
    requires enc_msect(a, c) == enc_msect(b, c), (c.big() || (a.addr < 0x1_0000_0000 && a.size < 0x1_0000_0000 && b.addr < 0x1_0000_0000 && b.size < 0x1_0000_0000)), a.sectname.len() == 16, b.sectname.len() == 16, a.segname.len() == 16, b.segname.len() == 16,
    ensures a == b,
{
    reveal(enc_msect);
    let p1 = raw16(a.sectname); let q1 = raw16(b.sectname);
    let p2 = p1 + raw16(a.segname); let q2 = q1 + raw16(b.segname);
    let p3 = p2 + wrd(a.addr as int, c); let q3 = q2 + wrd(b.addr as int, c);
    let p4 = p3 + wrd(a.size as int, c); let q4 = q3 + wrd(b.size as int, c);
    let p5 = p4 + fld(a.offset as int, 4, c.le); let q5 = q4 + fld(b.offset as int, 4, c.le);
    let p6 = p5 + fld(a.align as int, 4, c.le); let q6 = q5 + fld(b.align as int, 4, c.le);
    let p7 = p6 + fld(a.reloff as int, 4, c.le); let q7 = q6 + fld(b.reloff as int, 4, c.le);
    let p8 = p7 + fld(a.nreloc as int, 4, c.le); let q8 = q7 + fld(b.nreloc as int, 4, c.le);
    let p9 = p8 + fld(a.flags as int, 4, c.le); let q9 = q8 + fld(b.flags as int, 4, c.le);
    let p10 = p9 + zeros(if c.big() { 12 } else { 8 }); let q10 = q9 + zeros(if c.big() { 12 } else { 8 });
    assert(enc_msect(a, c) == p10); assert(enc_msect(b, c) == q10);
    codec_split(p9, zeros(if c.big() { 12 } else { 8 }), q9, zeros(if c.big() { 12 } else { 8 }));
    codec_last(p8, a.flags as int, q8, b.flags as int, 4, c.le);
    codec_last(p7, a.nreloc as int, q7, b.nreloc as int, 4, c.le);
    codec_last(p6, a.reloff as int, q6, b.reloff as int, 4, c.le);
    codec_last(p5, a.align as int, q5, b.align as int, 4, c.le);
    codec_last(p4, a.offset as int, q4, b.offset as int, 4, c.le);
    codec_last(p3, a.size as int, q3, b.size as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p2, a.addr as int, q2, b.addr as int, if c.big() { 8 } else { 4 }, c.le);
    codec_split(p1, raw16(a.segname), q1, raw16(b.segname));
    assert(a.segname =~= raw16(a.segname)); assert(b.segname =~= raw16(b.segname));
    assert(a.sectname =~= raw16(a.sectname)); assert(b.sectname =~= raw16(b.sectname));
}
pub proof fn codec_mseg(a: SegV, b: SegV, c: Ctx)
    requires enc_mseg(a, c) == enc_mseg(b, c), (c.big() || (a.vmaddr < 0x1_0000_0000 && a.vmsize < 0x1_0000_0000 && a.fileoff < 0x1_0000_0000 && a.filesize < 0x1_0000_0000 && b.vmaddr < 0x1_0000_0000 && b.vmsize < 0x1_0000_0000 && b.fileoff < 0x1_0000_0000 && b.filesize < 0x1_0000_0000)), a.segname.len() == 16, b.segname.len() == 16,
    ensures a == b,
{
    reveal(enc_mseg);
    let p1 = fld(a.cmd as int, 4, c.le); let q1 = fld(b.cmd as int, 4, c.le);
    let p2 = p1 + fld(a.cmdsize as int, 4, c.le); let q2 = q1 + fld(b.cmdsize as int, 4, c.le);
    let p3 = p2 + raw16(a.segname); let q3 = q2 + raw16(b.segname);
    let p4 = p3 + wrd(a.vmaddr as int, c); let q4 = q3 + wrd(b.vmaddr as int, c);
    let p5 = p4 + wrd(a.vmsize as int, c); let q5 = q4 + wrd(b.vmsize as int, c);
    let p6 = p5 + wrd(a.fileoff as int, c); let q6 = q5 + wrd(b.fileoff as int, c);
    let p7 = p6 + wrd(a.filesize as int, c); let q7 = q6 + wrd(b.filesize as int, c);
    let p8 = p7 + fld(a.maxprot as int, 4, c.le); let q8 = q7 + fld(b.maxprot as int, 4, c.le);
    let p9 = p8 + fld(a.initprot as int, 4, c.le); let q9 = q8 + fld(b.initprot as int, 4, c.le);
    let p10 = p9 + fld(a.nsects as int, 4, c.le); let q10 = q9 + fld(b.nsects as int, 4, c.le);
    let p11 = p10 + fld(a.flags as int, 4, c.le); let q11 = q10 + fld(b.flags as int, 4, c.le);
    assert(enc_mseg(a, c) == p11); assert(enc_mseg(b, c) == q11);
    codec_last(p10, a.flags as int, q10, b.flags as int, 4, c.le);
    codec_last(p9, a.nsects as int, q9, b.nsects as int, 4, c.le);
    codec_last(p8, a.initprot as int, q8, b.initprot as int, 4, c.le);
    codec_last(p7, a.maxprot as int, q7, b.maxprot as int, 4, c.le);
    codec_last(p6, a.filesize as int, q6, b.filesize as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p5, a.fileoff as int, q5, b.fileoff as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p4, a.vmsize as int, q4, b.vmsize as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p3, a.vmaddr as int, q3, b.vmaddr as int, if c.big() { 8 } else { 4 }, c.le);
    codec_split(p2, raw16(a.segname), q2, raw16(b.segname));
    assert(a.segname =~= raw16(a.segname)); assert(b.segname =~= raw16(b.segname));
    codec_last(p1, a.cmdsize as int, q1, b.cmdsize as int, 4, c.le);
    codec_fld(a.cmd as int, b.cmd as int, 4, c.le);
}
pub proof fn codec_nlist(a: Nlist, b: Nlist, c: Ctx)
    requires enc_nlist(a, c) == enc_nlist(b, c), a.fits(c), b.fits(c),
    ensures a == b,
{
    reveal(enc_nlist);
    let p1 = fld(a.n_strx as int, 4, c.le); let q1 = fld(b.n_strx as int, 4, c.le);
    let p2 = p1 + seq![a.n_type]; let q2 = q1 + seq![b.n_type];
    let p3 = p2 + seq![a.n_sect as u8]; let q3 = q2 + seq![b.n_sect as u8];
    let p4 = p3 + fld(a.n_desc as int, 2, c.le); let q4 = q3 + fld(b.n_desc as int, 2, c.le);
    let p5 = p4 + wrd(a.n_value as int, c); let q5 = q4 + wrd(b.n_value as int, c);
    assert(enc_nlist(a, c) == p5); assert(enc_nlist(b, c) == q5);
    codec_last(p4, a.n_value as int, q4, b.n_value as int, if c.big() { 8 } else { 4 }, c.le);
    codec_last(p3, a.n_desc as int, q3, b.n_desc as int, 2, c.le);
    codec_split(p2, seq![a.n_sect as u8], q2, seq![b.n_sect as u8]);
    assert(seq![a.n_sect as u8][0] == seq![b.n_sect as u8][0]);
    codec_split(p1, seq![a.n_type], q1, seq![b.n_type]);
    assert(seq![a.n_type][0] == seq![b.n_type][0]);
    codec_fld(a.n_strx as int, b.n_strx as int, 4, c.le);
}
pub proof fn codec_rinfo(a: RelocationInfo, b: RelocationInfo, c: Endian)
    requires enc_rinfo(a, c) == enc_rinfo(b, c), 
    ensures a == b,
{
    reveal(enc_rinfo);
    let p1 = fld(a.r_address as int, 4, c); let q1 = fld(b.r_address as int, 4, c);
    let p2 = p1 + fld(a.r_info as int, 4, c); let q2 = q1 + fld(b.r_info as int, 4, c);
    assert(enc_rinfo(a, c) == p2); assert(enc_rinfo(b, c) == q2);
    codec_last(p1, a.r_info as int, q1, b.r_info as int, 4, c);
    codec_fld(a.r_address as int, b.r_address as int, 4, c);
}
pub proof fn codec_reloc(a: Reloc, b: Reloc, c: (bool, Ctx))
    requires enc_reloc(a, c) == enc_reloc(b, c), a.fits(c), b.fits(c),
    ensures a == b,
{
    reveal(enc_reloc);
    let n: nat = if c.1.big() { 8 } else { 4 };
    let m: int = if c.1.big() { 0x1_0000_0000 } else { 0x100 };
    let ia = a.r_sym * m + a.r_type; let ib = b.r_sym * m + b.r_type;
    let p1 = wrd(a.r_offset as int, c.1); let q1 = wrd(b.r_offset as int, c.1);
    let p2 = p1 + wrd(ia, c.1); let q2 = q1 + wrd(ib, c.1);
    assert(codec_fitsu(ia, n)); assert(codec_fitsu(ib, n));
    if c.0 {
        let xa = a.r_addend->Some_0 as int; let xb = b.r_addend->Some_0 as int;
        assert(enc_reloc(a, c) == p2 + wrd(xa, c.1)); assert(enc_reloc(b, c) == q2 + wrd(xb, c.1));
        codec_last(p2, xa, q2, xb, n, c.1.le);
    } else {
        assert(p2 + Seq::<u8>::empty() =~= p2); assert(q2 + Seq::<u8>::empty() =~= q2);
        assert(p2 == q2);
    }
    codec_last(p1, ia, q1, ib, n, c.1.le);
    codec_fld(a.r_offset as int, b.r_offset as int, n, c.1.le);
    assert(a.r_type == ia % m && b.r_type == ib % m);
    assert(a.r_sym == ia / m && b.r_sym == ib / m);
}
}
