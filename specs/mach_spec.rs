pub mod mach_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::seq_spec::*;
use crate::elf_spec::lim;
use crate::mach::*;
use crate::indexmap::IndexMap;
use crate::goblin::mach::relocation::RelocationInfo;
use crate::goblin::mach::symbols::Nlist;
use crate::target_lexicon::*;

// ---------------------------------------------------------------- powers of two
/// rounding by a mask
pub proof fn mask_up(x: u64, k: u64)
    requires k < 64, x + pow2(k as nat) < 0x1_0000_0000_0000_0000,
    ensures ({ let a = pow2(k as nat); ((x + (a - 1)) as u64) & !((a - 1) as u64) == up(x as int, a) && ((x + a - 1) as u64) & !((a - 1) as u64) == up(x as int, a) && x & ((a - 1) as u64) == x as int % a }),
{
    let a = pow2(k as nat);
    pow2_bound(k as nat);
    pow2_vstd(k as nat);
    let m = (a - 1) as u64;
    let y = (x + (a - 1)) as u64;
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, k as nat);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(y, k as nat);
    vstd::bits::lemma_low_bits_mask_values();
    assert(vstd::bits::low_bits_mask(k as nat) == a - 1) by { reveal(vstd::bits::low_bits_mask); }
    assert(y & !m == sub(y, y & m) && (y & m) <= y) by (bit_vector);
    up_div(x as int, a);
}
pub proof fn pow2_vstd(n: nat) ensures pow2(n) == vstd::arithmetic::power2::pow2(n), decreases n,
{
    if n == 0 { vstd::arithmetic::power2::lemma2_to64(); } else { pow2_vstd((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); }
}
pub proof fn pow2_pos(n: nat) ensures pow2(n) >= 1, decreases n, { if n > 0 { pow2_pos((n - 1) as nat); } }
pub proof fn pow2_mono(m: nat, n: nat) requires m <= n, ensures pow2(m) <= pow2(n), decreases n, { pow2_pos(m); if m < n { pow2_mono(m, (n - 1) as nat); pow2_pos((n - 1) as nat); } }
pub proof fn pow2_strict(m: nat, n: nat) requires m < n, ensures pow2(m) < pow2(n), { pow2_mono(m + 1, n); pow2_pos(m); }
pub broadcast proof fn pow2_ge(m: nat, n: nat) requires m <= n, ensures #![trigger pow2(m), pow2(n)] pow2(m) <= pow2(n), { pow2_mono(m, n); }
pub broadcast proof fn pow2_le(n: nat) requires n < 64, ensures 1 <= #[trigger] pow2(n) <= 0x8000_0000_0000_0000, { pow2_bound(n); }
pub proof fn pow2_bound(n: nat) requires n < 64, ensures 1 <= pow2(n) <= 0x8000_0000_0000_0000, { pow2_64(); pow2_pos(n); pow2_mono(n, 63); }
pub proof fn pow2_inj(m: nat, n: nat) requires pow2(m) == pow2(n), ensures m == n, { if m < n { pow2_strict(m, n); } if n < m { pow2_strict(n, m); } }
pub broadcast proof fn shl1(e: u64)
    requires e < 64,
    ensures (#[trigger] (1u64 << e)) as int == pow2(e as nat), pow2(e as nat) >= 1,
    decreases e,
{
    pow2_pos(e as nat);
    if e == 0 { assert(1u64 << 0u64 == 1) by (bit_vector); }
    else {
        let f = (e - 1) as u64;
        shl1(f);
        assert(e > 0 && e < 64 && f == e - 1 ==> (1u64 << e) == mul(2, 1u64 << f) && (1u64 << f) < 0x8000_0000_0000_0000) by (bit_vector);
    }
}
pub proof fn pow2_64() ensures pow2(63) == 0x8000_0000_0000_0000, pow2(0) == 1, pow2(1) == 2, pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, { reveal_with_fuel(pow2, 64); }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }

// ---------------------------------------------------------------- kinds of definitions
/// 0 code, 1 data, 2 strings, 3 zero-initialized, 4 custom section
pub open spec fn mkind(d: DefV) -> int {
    match d.decl { DefinedDecl::Function(_) => 0, DefinedDecl::Section(_) => 4, DefinedDecl::Data(x) => if d.data is Zero { 3 } else if x.datatype == DataType::String { 2 } else { 1 } }
}
/// the definitions of a kind, in order
pub open spec fn part(d: Seq<DefV>, k: int) -> Seq<DefV> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else if mkind(d.last()) == k { part(d.drop_last(), k).push(d.last()) } else { part(d.drop_last(), k) }
}
pub open spec fn dviews<'a>(s: Seq<Definition<'a>>) -> Seq<DefV> { Seq::new(s.len(), |i: int| defn(s[i])) }
pub open spec fn dal(d: DefV) -> int { match dalign(d.decl) { Some(x) => x as int, None => 1 } }
pub open spec fn pow2s(g: Seq<DefV>) -> bool { forall|i: int| 0 <= i < g.len() ==> is_pow2(dal(#[trigger] g[i])) }

// ---------------------------------------------------------------- places in a section
/// what definition i is aligned to; past the end, the section's minimum
pub open spec fn nal(g: Seq<DefV>, m: int, i: int) -> int { if 0 <= i < g.len() { max(m, dal(g[i])) } else { m } }
/// the place of definition i in its section
pub open spec fn roff(g: Seq<DefV>, m: int, i: int) -> int decreases i { if i <= 0 { 0 } else { up(roff(g, m, i - 1) + dmem(g[i - 1].data), nal(g, m, i)) } }
pub open spec fn gsize(g: Seq<DefV>, m: int) -> int { roff(g, m, g.len() as int) }
pub open spec fn galign(g: Seq<DefV>, m: int) -> int decreases g.len() { if g.len() == 0 { m } else { max(galign(g.drop_last(), m), dal(g.last())) } }
/// the padding after definition i
pub open spec fn gpad(g: Seq<DefV>, m: int, i: int) -> int { roff(g, m, i + 1) - roff(g, m, i) - dmem(g[i].data) }
pub open spec fn padlist(g: Seq<DefV>, m: int) -> Seq<(Seq<char>, u64)> { Seq::new(g.len(), |i: int| (g[i].name, gpad(g, m, i) as u64)) }
/// a map after entries were added in order
pub open spec fn ins<K, V>(m: Map<K, V>, l: Seq<(K, V)>) -> Map<K, V> decreases l.len() { if l.len() == 0 { m } else { ins(m, l.drop_last()).insert(l.last().0, l.last().1) } }

// ---------------------------------------------------------------- symbols
/// sect is the ordinal of the section, 0 for imports; rel is the place in the section
pub ghost struct MSym { pub name: Seq<char>, pub sect: int, pub ext: bool, pub weak: bool, pub value: int, pub rel: int }
pub open spec fn gsym(g: Seq<DefV>, m: int, sect: int, base: int, i: int) -> MSym { MSym { name: g[i].name, sect, ext: !dlocal(g[i].decl), weak: dscope(g[i].decl) == Scope::Weak, value: base + roff(g, m, i), rel: roff(g, m, i) } }
pub open spec fn gsyms(g: Seq<DefV>, m: int, sect: int, base: int) -> Seq<MSym> { Seq::new(g.len(), |i: int| gsym(g, m, sect, base, i)) }
pub open spec fn csyms(d: DefV, sect: int, base: int) -> Seq<MSym> { Seq::new(d.syms.len(), |i: int| MSym { name: d.syms[i].0, sect, ext: true, weak: false, value: base + d.syms[i].1, rel: d.syms[i].1 as int }) }
pub open spec fn msym_import(n: Seq<char>) -> MSym { MSym { name: n, sect: 0, ext: true, weak: false, value: 0, rel: 0 } }
pub open spec fn isyms(i: Seq<(Seq<char>, ImportKind)>) -> Seq<MSym> { Seq::new(i.len(), |k: int| msym_import(i[k].0)) }
pub open spec fn mnames(x: Seq<MSym>) -> Seq<Seq<char>> { Seq::new(x.len(), |i: int| x[i].name) }
pub open spec fn tnames(x: Seq<MSym>) -> Seq<Seq<char>> { seq![Seq::<char>::empty()] + mnames(x) }
/// an underscore, the name, a NUL
pub open spec fn fmstr() -> spec_fn(Seq<char>) -> Seq<u8> { |s: Seq<char>| seq![0x5fu8] + utf8(s) + seq![0u8] }
pub open spec fn mstroff(x: Seq<MSym>, i: int) -> int { 1 + catoff(mnames(x), fmstr(), i) }
pub open spec fn mstrtab(x: Seq<MSym>) -> Seq<u8> { seq![0u8] + cat(mnames(x), fmstr()) }
pub open spec fn symv(n: Seq<char>, b: SymbolBuilder) -> MSym { MSym { name: n, sect: match b.section { Some(s) => s + 1, None => 0 }, ext: b.global, weak: b.weak, value: b.offset as int, rel: b.segment_relative_offset as int } }
pub open spec fn typev(n: Seq<char>, t: SymbolType) -> MSym {
    match t {
        SymbolType::Undefined => msym_import(n),
        SymbolType::Defined { section, absolute_offset, segment_relative_offset, global, weak } => MSym { name: n, sect: section + 1, ext: global, weak, value: absolute_offset as int, rel: segment_relative_offset as int },
    }
}
impl SymbolTable {
    #[verifier::opaque]
    pub open spec fn syms(&self) -> Seq<MSym> { Seq::new(self.symbols@.len(), |i: int| symv(self.strtable@[i + 1], self.symbols@[i].1)) }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        let x = self.syms();
        &&& self.strtable@ == tnames(x)
        &&& self.symbols@.len() == x.len() && self.indexes@.len() == x.len()
        &&& forall|i: int| 0 <= i < x.len() ==> (#[trigger] self.symbols@[i]).0 == i + 1 && self.symbols@[i].1.name == mstroff(x, i) && self.symbols@[i].1.import == (self.symbols@[i].1.section is None)
        &&& forall|i: int| 0 <= i < x.len() ==> (#[trigger] self.indexes@[i]) == ((i + 1) as usize, i as usize)
        &&& self.strtable_size == mstrtab(x).len()
    }
    /// the position of a name in the table
    pub open spec fn ix(&self, n: Seq<char>) -> int { sfind(mnames(self.syms()), n) }
    pub open spec fn has(&self, n: Seq<char>) -> bool { n.len() > 0 && self.ix(n) < self.syms().len() }
}
/// the entry of a symbol
pub open spec fn nlist(x: MSym, strx: int) -> Nlist { Nlist { n_strx: strx as usize, n_type: if x.sect == 0 { 1 } else if x.ext { 15 } else { 14 }, n_sect: x.sect as usize, n_desc: if x.weak { 0x80 } else { 0 }, n_value: x.value as u64 } }

// ---------------------------------------------------------------- sections
pub ghost struct MSec { pub key: Seq<char>, pub name: Seq<char>, pub seg: Seq<char>, pub align: int, pub size: int, pub flags: u32 }
pub open spec fn smin(k: int) -> int { if k == 0 { 16 } else if k == 1 { 8 } else { 1 } }
pub open spec fn sname(k: int) -> Seq<char> { if k == 0 { "__text"@ } else if k == 1 { "__data"@ } else if k == 2 { "__cstring"@ } else { "__bss"@ } }
pub open spec fn sseg(k: int) -> Seq<char> { if k == 0 || k == 2 { "__TEXT"@ } else { "__DATA"@ } }
pub open spec fn sflags(k: int) -> u32 { if k == 0 { 0x8000_0400 } else if k == 1 { 0 } else if k == 2 { 2 } else { 1 } }
pub open spec fn stdsec(g: Seq<DefV>, k: int) -> MSec { MSec { key: sname(k), name: sname(k), seg: sseg(k), align: galign(g, smin(k)), size: gsize(g, smin(k)), flags: sflags(k) } }
pub open spec fn machname(n: Seq<char>) -> Seq<char> { if ".debug"@.is_prefix_of(n) { cat2("__debug"@, n.skip(6)) } else { n } }
pub open spec fn segof(k: SectionKind) -> Seq<char> { match k { SectionKind::Data => "__DATA"@, SectionKind::Debug => "__DWARF"@, SectionKind::Text => "__TEXT"@ } }
pub open spec fn dkind(d: DefV) -> SectionKind { d.decl->Section_0.kind }
pub open spec fn cussec(d: DefV) -> MSec { MSec { key: d.name, name: machname(d.name), seg: segof(dkind(d)), align: dal(d), size: dfile(d.data), flags: if dkind(d) == SectionKind::Debug { 0x0200_0000 } else { 0 } } }
pub open spec fn msecs(g: Seq<Seq<DefV>>) -> Seq<MSec> { seq![stdsec(g[0], 0), stdsec(g[1], 1), stdsec(g[2], 2), stdsec(g[3], 3)] + Seq::new(g[4].len(), |i: int| cussec(g[4][i])) }
/// where memory ends after k sections
pub open spec fn mend(s: Seq<MSec>, k: int) -> int decreases k { if k <= 0 { 0 } else { up(mend(s, k - 1), s[k - 1].align) + s[k - 1].size } }
pub open spec fn maddr(s: Seq<MSec>, k: int) -> int { up(mend(s, k), s[k].align) }
/// the bytes a section takes in the file
pub open spec fn mfile(s: MSec) -> int { if s.flags == 1 { 0 } else { s.size } }
pub open spec fn ffile() -> spec_fn(MSec) -> int { |s: MSec| mfile(s) }
/// what comes before the contents of section k in the file
pub open spec fn mfoff(s: Seq<MSec>, k: int) -> int { sum(s.take(k), ffile()) }
/// a section builder is that section, at an address
pub open spec fn secis(e: (Seq<char>, SectionBuilder), s: MSec, addr: int) -> bool {
    e.0 == s.key && e.1.sectname@ == s.name && e.1.segname@ == s.seg && e.1.addr == addr && e.1.align < 64 && pow2(e.1.align as nat) == s.align && e.1.size == s.size && e.1.flags == s.flags
}

// ---------------------------------------------------------------- lemmas: names
pub proof fn tnames_push(x: Seq<MSym>, y: MSym)
    ensures tnames(x.push(y)) == tnames(x).push(y.name), mnames(x.push(y)) == mnames(x).push(y.name),
        mstroff(x, x.len() as int) == mstrtab(x).len(), mstrtab(x.push(y)) == mstrtab(x) + fmstr()(y.name), mstrtab(x.push(y)).len() == mstrtab(x).len() + utf8(y.name).len() + 2,
        forall|i: int| 0 <= i <= x.len() ==> mstroff(x.push(y), i) == #[trigger] mstroff(x, i),
{
    assert(mnames(x.push(y)) =~= mnames(x).push(y.name));
    assert(tnames(x.push(y)) =~= tnames(x).push(y.name));
    cat_push(mnames(x), y.name, fmstr());
    cat_all(mnames(x), fmstr());
    assert(mstrtab(x.push(y)) =~= mstrtab(x) + fmstr()(y.name));
    assert forall|i: int| 0 <= i <= x.len() implies mstroff(x.push(y), i) == #[trigger] mstroff(x, i) by { assert(mnames(x.push(y)).take(i) =~= mnames(x).take(i)); }
}
/// looking a name up among strings after the empty one
pub proof fn tfind(x: Seq<MSym>, n: Seq<char>)
    ensures n.len() == 0 ==> sfind(tnames(x), n) == 0, n.len() > 0 ==> sfind(tnames(x), n) == sfind(mnames(x), n) + 1, 0 <= sfind(mnames(x), n) <= x.len(), tnames(x).len() == x.len() + 1,
{
    let t = tnames(x);
    sfind_lemma(t, n);
    sfind_lemma(mnames(x), n);
    assert(t[0] == Seq::<char>::empty());
    if n.len() == 0 { assert(n =~= Seq::empty()); }
    else { assert(t.skip(1) =~= mnames(x)); assert(t[0] != n); }
}
/// a new name is not in the table
pub proof fn fresh_name(x: Seq<MSym>, y: Seq<MSym>, i: int)
    requires nodup(tnames(x + y)), 0 <= i < y.len(),
    ensures sfind(tnames(x + y.take(i)), y[i].name) == x.len() + i + 1, y[i].name.len() > 0,
{
    reveal(nodup);
    let t = tnames(x + y);
    let u = tnames(x + y.take(i));
    assert(t[x.len() + i + 1] == y[i].name);
    assert(t[0] == Seq::<char>::empty());
    if y[i].name.len() == 0 { assert(y[i].name =~= Seq::empty()); }
    sfind_lemma(u, y[i].name);
    let j = sfind(u, y[i].name);
    if j < u.len() { assert(u[j] == t[j]); }
}

// ---------------------------------------------------------------- lemmas: the symbol table
pub proof fn tab_lookup(t: &SymbolTable, n: Seq<char>)
    requires t.wf(),
    ensures
        n.len() == 0 ==> sfind(t.strtable@, n) == 0, n.len() > 0 ==> sfind(t.strtable@, n) == t.ix(n) + 1, 0 <= t.ix(n) <= t.syms().len(), t.strtable@.len() == t.syms().len() + 1,
        !hask(t.symbols@, 0usize), !hask(t.indexes@, 0usize), t.symbols@.len() == t.syms().len(), t.indexes@.len() == t.syms().len(), t.strtable@.len() < mem(),
        t.has(n) ==> hask(t.symbols@, (t.ix(n) + 1) as usize) && find(t.symbols@, (t.ix(n) + 1) as usize) == t.ix(n) && symv(n, t.symbols@[t.ix(n)].1) == t.syms()[t.ix(n)],
        t.has(n) ==> hask(t.indexes@, (t.ix(n) + 1) as usize) && find(t.indexes@, (t.ix(n) + 1) as usize) == t.ix(n) && t.indexes@[t.ix(n)].1 == t.ix(n),
{
    broadcast use {crate::indexmap::indexmap_wf, crate::string_interner::interner_wf};
    reveal(SymbolTable::wf);
    let x = t.syms();
    tfind(x, n);
    find_none(t.symbols@, 0usize);
    find_none(t.indexes@, 0usize);
    if t.has(n) {
        let i = t.ix(n);
        sfind_lemma(mnames(x), n);
        find_at(t.symbols@, i);
        find_at(t.indexes@, i);
        assert(t.strtable@[i + 1] == mnames(x)[i]);
        assert(symv(n, t.symbols@[i].1) == t.syms()[i]) by { reveal(SymbolTable::syms); }
    }
}
pub proof fn tab_open(t: &SymbolTable, n: Seq<char>)
    requires t.wf(),
    ensures t.strtable@ == tnames(t.syms()), t.symbols@.len() == t.syms().len(), t.indexes@.len() == t.syms().len(), t.strtable@.len() == t.syms().len() + 1, t.strtable_size == mstrtab(t.syms()).len(),
        0 <= sfind(t.strtable@, n) <= t.strtable@.len(), t.strtable@.len() < mem(),
        !hask(t.symbols@, t.strtable@.len() as usize), !hask(t.indexes@, t.strtable@.len() as usize),
{
    broadcast use crate::string_interner::interner_wf;
    reveal(SymbolTable::wf);
    sfind_lemma(t.strtable@, n);
    find_none(t.symbols@, t.strtable@.len() as usize);
    find_none(t.indexes@, t.strtable@.len() as usize);
}
pub proof fn tab_same(o: &SymbolTable, t: &SymbolTable)
    requires o.wf(), t.strtable@ == o.strtable@, t.symbols@ == o.symbols@, t.indexes@ == o.indexes@, t.strtable_size == o.strtable_size,
    ensures t.wf(), t.syms() == o.syms(),
{
    reveal(SymbolTable::wf);
    reveal(SymbolTable::syms);
}
pub proof fn tab_grown(o: &SymbolTable, t: &SymbolTable, y: MSym)
    requires o.wf(), t.strtable@ == o.strtable@.push(y.name), t.symbols@.len() > 0, t.symbols@ == o.symbols@.push(t.symbols@.last()), symv(y.name, t.symbols@.last().1) == y,
    ensures t.syms() == o.syms().push(y), o.syms().len() == o.symbols@.len(), o.strtable@.len() == o.symbols@.len() + 1,
{
    assert(o.strtable@ == tnames(o.syms())) by { reveal(SymbolTable::wf); }
    reveal(SymbolTable::syms);
    let x = o.syms();
    assert forall|i: int| 0 <= i < x.len() implies t.syms()[i] == x[i] by { assert(t.symbols@[i] == o.symbols@[i]); assert(t.strtable@[i + 1] == o.strtable@[i + 1]); }
    assert(t.syms() =~= x.push(y));
}
pub proof fn tab_close(o: &SymbolTable, t: &SymbolTable, y: MSym)
    requires o.wf(), t.strtable@ == o.strtable@.push(y.name), t.symbols@.len() > 0, t.symbols@ == o.symbols@.push(t.symbols@.last()), t.symbols@.last().0 == o.strtable@.len(), symv(y.name, t.symbols@.last().1) == y,
        t.symbols@.last().1.name == o.strtable_size, t.symbols@.last().1.import == (t.symbols@.last().1.section is None),
        t.indexes@ == o.indexes@.push((o.strtable@.len() as usize, o.symbols@.len() as usize)), t.strtable_size == o.strtable_size + utf8(y.name).len() + 2,
    ensures t.wf(), t.syms() == o.syms().push(y),
{
    hide(mstroff); hide(mstrtab); hide(tnames); hide(mnames);
    tab_grown(o, t, y);
    assert(o.strtable@.len() < mem()) by { broadcast use crate::string_interner::interner_wf; }
    reveal(SymbolTable::wf);
    let x = o.syms();
    tnames_push(x, y);
    let u = t.syms();
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] t.symbols@[i]).0 == i + 1 && t.symbols@[i].1.name == mstroff(u, i) && t.symbols@[i].1.import == (t.symbols@[i].1.section is None) by {
        if i < x.len() { assert(t.symbols@[i] == o.symbols@[i]); assert(mstroff(x, i) == mstroff(x.push(y), i)); }
        else { assert(mstroff(x, x.len() as int) == mstroff(x.push(y), i)); }
    }
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] t.indexes@[i]) == ((i + 1) as usize, i as usize) by { if i < x.len() { assert(t.indexes@[i] == o.indexes@[i]); } }
}

// ---------------------------------------------------------------- relocation entries
pub open spec fn rlen(b: RelocationBuilder) -> int { if b.size == 0 { if b.absolute { 3 } else { 2 } } else if b.size == 4 { 2 } else { 3 } }
/// symbol 24 bits, pc-relative 1, length 2, extern 1, type 4
pub open spec fn rinfo(sym: int, pcrel: bool, len: int, typ: int) -> int { sym + (if pcrel { 0x100_0000int } else { 0 }) + 0x200_0000 * len + 0x800_0000 + 0x1000_0000 * typ }
pub proof fn rel_bits(s: u32, p: u32, l: u32, t: u32)
    requires s < 0x100_0000, p < 2, l < 4, t < 16,
    ensures (s | (p << 24) | (l << 25) | (1u32 << 27) | (t << 28)) as int == rinfo(s as int, p == 1, l as int, t as int),
{
    assert(s < 0x100_0000 && p < 2 && l < 4 && t < 16 ==> (s | (p << 24) | (l << 25) | (1u32 << 27) | (t << 28)) == add(add(add(add(s, mul(p, 0x100_0000)), mul(l, 0x200_0000)), 0x800_0000), mul(t, 0x1000_0000))) by (bit_vector);
    assert(s < 0x100_0000 && p < 2 && l < 4 && t < 16 ==> add(add(s, mul(p, 0x100_0000)), mul(l, 0x200_0000)) < 0x800_0000u32 && add(s, mul(p, 0x100_0000)) < 0x200_0000u32 && mul(l, 0x200_0000) < 0x800_0000u32) by (bit_vector);
}
pub open spec fn name16(n: Seq<char>) -> Seq<u8> { utf8(n) + zeros(16 - utf8(n).len()) }

// ---------------------------------------------------------------- lemmas: a section of definitions
/// what addresses and sizes in memory stay under
pub open spec fn mlim() -> int { 0x4000_0000_0000_0000 }
pub open spec fn stdgrp(g: Seq<DefV>) -> bool { forall|i: int| 0 <= i < g.len() ==> mkind(#[trigger] g[i]) != 4 && is_pow2(dal(g[i])) }
pub open spec fn grp_room(g: Seq<DefV>, m: int, a: int, f: int) -> bool { 0 <= a && 0 <= f < 2 * mlim() && a < mlim() && up(a, galign(g, m)) + gsize(g, m) < mlim() }
pub open spec fn syms_room(x: Seq<MSym>, y: Seq<MSym>) -> bool { nodup(tnames(x + y)) && mstrtab(x + y).len() < lim() && (x + y).len() < lim() }
pub proof fn grp_start(g: Seq<DefV>, m: int)
    ensures galign(g.take(0), m) == m, roff(g, m, 0) == 0, g.take(0).len() == 0,
{
}
pub proof fn galign_step(g: Seq<DefV>, m: int, k: int)
    requires 0 <= k < g.len(), stdgrp(g),
    ensures galign(g.take(k + 1), m) == max(galign(g.take(k), m), dal(g[k])), is_pow2(dal(g[k])), mkind(g[k]) != 4,
{
    assert(g.take(k + 1).drop_last() =~= g.take(k));
}
pub proof fn galign_max(g: Seq<DefV>, m: int, k: int, e0: nat, e1: nat)
    requires 0 <= k < g.len(), stdgrp(g), pow2(e0) == galign(g.take(k), m), exists|x: nat| #[trigger] pow2(x) == dal(g[k]) && e1 == (if e0 >= x { e0 } else { x }),
    ensures pow2(e1) == galign(g.take(k + 1), m),
{
    galign_step(g, m, k);
    let x = choose|x: nat| #[trigger] pow2(x) == dal(g[k]) && e1 == (if e0 >= x { e0 } else { x });
    if e0 >= x { pow2_mono(x, e0); } else { pow2_strict(e0, x); }
}
pub proof fn galign_pos(g: Seq<DefV>, m: int)
    requires m > 0,
    ensures galign(g, m) >= m,
    decreases g.len(),
{
    if g.len() > 0 { galign_pos(g.drop_last(), m); }
}
pub proof fn roff_mono(g: Seq<DefV>, m: int, i: int, j: int)
    requires m > 0, stdgrp(g), 0 <= i <= j <= g.len(),
    ensures 0 <= roff(g, m, i) <= roff(g, m, j), i < j ==> roff(g, m, i) + dmem(g[i].data) <= roff(g, m, j),
    decreases j,
{
    if j > 0 {
        if i < j { roff_mono(g, m, i, j - 1); } else { roff_mono(g, m, i - 1, j - 1); roff_mono(g, m, 0, j - 1); }
        let n = nal(g, m, j);
        roff_mono(g, m, 0, j - 1);
        up_lemma(roff(g, m, j - 1) + dmem(g[j - 1].data), n);
    }
}
pub proof fn grp_step(g: Seq<DefV>, m: int, i: int, a0: int)
    requires m > 0, stdgrp(g), 0 <= i < g.len(), a0 >= 0, up(a0, galign(g, m)) + gsize(g, m) < mlim(),
    ensures 0 <= roff(g, m, i), 0 <= dmem(g[i].data), roff(g, m, i) + dmem(g[i].data) <= roff(g, m, i + 1) <= gsize(g, m), roff(g, m, i + 1) == up(roff(g, m, i) + dmem(g[i].data), nal(g, m, i + 1)),
        mkind(g[i]) != 4, i + 1 < g.len() ==> is_pow2(dal(g[i + 1])) && nal(g, m, i + 1) == max(m, dal(g[i + 1])), i + 1 == g.len() ==> nal(g, m, i + 1) == m, 0 <= up(a0, galign(g, m)), gsize(g, m) < mlim(),
{
    roff_mono(g, m, 0, i);
    roff_mono(g, m, i, i + 1);
    roff_mono(g, m, i + 1, g.len() as int);
    galign_pos(g, m);
    up_lemma(a0, galign(g, m));
}
pub proof fn grp_fits(g: Seq<DefV>, m: int, a0: int)
    requires m > 0, stdgrp(g), a0 >= 0, up(a0, galign(g, m)) + gsize(g, m) < mlim(),
    ensures 0 <= gsize(g, m), a0 <= up(a0, galign(g, m)), galign(g, m) > 0,
{
    roff_mono(g, m, 0, g.len() as int);
    galign_pos(g, m);
    up_lemma(a0, galign(g, m));
}
pub proof fn str_sub(x: Seq<MSym>, y: Seq<MSym>, i: int)
    requires 0 <= i < y.len(),
    ensures (x + y.take(i)).push(y[i]) == x + y.take(i + 1), mstrtab(x + y.take(i)).len() + utf8(y[i].name).len() + 2 <= mstrtab(x + y).len(), mstrtab(x + y.take(i + 1)).len() <= mstrtab(x + y).len(),
{
    let n = mnames(x + y);
    let k = x.len() + i;
    assert((x + y.take(i)).push(y[i]) =~= x + y.take(i + 1));
    tnames_push(x + y.take(i), y[i]);
    assert(mnames(x + y.take(i + 1)) =~= n.take(k + 1));
    cat_mono(n, fmstr(), k + 1, n.len() as int);
    cat_all(n, fmstr());
}
pub proof fn sym_step_m(x: Seq<MSym>, y: Seq<MSym>, i: int)
    requires syms_room(x, y), 0 <= i < y.len(),
    ensures sfind(tnames(x + y.take(i)), y[i].name) == x.len() + i + 1, (x + y.take(i)).push(y[i]) == x + y.take(i + 1), (x + y.take(i)).len() == x.len() + i,
        mstrtab(x + y.take(i)).len() + utf8(y[i].name).len() + 2 < lim(), (x + y.take(i)).len() < lim(),
{
    fresh_name(x, y, i);
    str_sub(x, y, i);
}
pub proof fn pad_step(p: Map<Seq<char>, u64>, g: Seq<DefV>, m: int, i: int)
    requires 0 <= i < g.len(),
    ensures ins(p, padlist(g, m).take(i + 1)) == ins(p, padlist(g, m).take(i)).insert(g[i].name, gpad(g, m, i) as u64),
{
    assert(padlist(g, m).take(i + 1).drop_last() =~= padlist(g, m).take(i));
}

/// a leading .debug can be cut off
pub proof fn debug_prefix(n: Seq<char>)
    requires ".debug"@.is_prefix_of(n),
    ensures n.take(6) == ".debug"@, n.len() >= 6,
{
    reveal_strlit(".debug");
    assert(n.take(6) =~= ".debug"@);
}
pub broadcast proof fn or_zero(x: u32, c: u32)
    ensures #![trigger (x | c)] x == 0 ==> (x | c) == c, c == 0 ==> (x | c) == x,
{
    assert(x == 0u32 ==> (x | c) == c) by (bit_vector);
    assert(c == 0u32 ==> (x | c) == x) by (bit_vector);
}
pub proof fn code_flags()
    ensures 0x8000_0000u32 | 0x400u32 == 0x8000_0400u32, 0x400u32 | 0x8000_0000u32 == 0x8000_0400u32,
{
    assert(0x8000_0000u32 | 0x400u32 == 0x8000_0400u32) by (bit_vector);
    assert(0x400u32 | 0x8000_0000u32 == 0x8000_0400u32) by (bit_vector);
}

// ---------------------------------------------------------------- the whole segment
/// text, data, strings, zero-initialized, custom
pub open spec fn groups(d: Seq<DefV>) -> Seq<Seq<DefV>> { seq![part(d, 0), part(d, 1), part(d, 2), part(d, 3), part(d, 4)] }
pub open spec fn stdsyms(g: Seq<Seq<DefV>>, k: int) -> Seq<MSym> decreases k { if k <= 0 { Seq::empty() } else { stdsyms(g, k - 1) + gsyms(g[k - 1], smin(k - 1), k, maddr(msecs(g), k - 1)) } }
pub open spec fn cusyms(g: Seq<Seq<DefV>>, k: int) -> Seq<MSym> decreases k { if k <= 0 { stdsyms(g, 4) } else { cusyms(g, k - 1) + csyms(g[4][k - 1], 4 + k, maddr(msecs(g), 3 + k)) } }
/// every symbol, in order
pub open spec fn allms(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>) -> Seq<MSym> { cusyms(g, g[4].len() as int) + isyms(im) }
pub open spec fn padst(g: Seq<Seq<DefV>>, k: int) -> Map<Seq<char>, u64> decreases k { if k <= 0 { Map::empty() } else { ins(padst(g, k - 1), padlist(g[k - 1], smin(k - 1))) } }
pub open spec fn mkeys(s: Seq<MSec>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].key) }
pub open spec fn cus_ok(d: DefV) -> bool { mkind(d) == 4 && is_pow2(dal(d)) && d.data is Blob && forall|j: int| 0 <= j < d.syms.len() ==> (#[trigger] d.syms[j]).1 < mlim() }
#[verifier::opaque]
pub open spec fn seg_room(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>) -> bool {
    &&& g.len() == 5 && stdgrp(g[0]) && stdgrp(g[1]) && stdgrp(g[2]) && stdgrp(g[3])
    &&& forall|i: int| 0 <= i < g[4].len() ==> cus_ok(#[trigger] g[4][i])
    &&& g[4].len() < 0x8000_0000
    &&& nodup(mkeys(msecs(g)))
    &&& nodup(tnames(allms(g, im))) && mstrtab(allms(g, im)).len() < lim() && allms(g, im).len() < lim()
    &&& mend(msecs(g), msecs(g).len() as int) < mlim()
}
/// the first k sections are there
#[verifier::opaque]
pub open spec fn built(e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, k: int) -> bool {
    e.len() == k && forall|i: int| 0 <= i < k ==> secis(#[trigger] e[i], s[i], maddr(s, i)) && e[i].1.relocations@.len() == 0
}
pub proof fn built_new(e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>) requires e.len() == 0, ensures built(e, s, 0), { reveal(built); }
pub proof fn built_step(o: Seq<(Seq<char>, SectionBuilder)>, e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, k: int)
    requires built(o, s, k), 0 <= k, e.len() > 0, e == o.push(e.last()), secis(e.last(), s[k], maddr(s, k)), e.last().1.relocations@.len() == 0,
    ensures built(e, s, k + 1),
{
    reveal(built);
    assert forall|i: int| 0 <= i < k + 1 implies secis(#[trigger] e[i], s[i], maddr(s, i)) && e[i].1.relocations@.len() == 0 by { if i < k { assert(e[i] == o[i]); } }
}
pub proof fn key_fresh(e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, k: int)
    requires built(e, s, k), 0 <= k < s.len(), nodup(mkeys(s)),
    ensures !hask(e, s[k].key),
{
    reveal(built); reveal(nodup);
    let t = mkeys(s);
    assert forall|i: int| 0 <= i < e.len() implies e[i].0 != s[k].key by { assert(t[i] != t[k]); assert(secis(e[i], s[i], maddr(s, i))); }
    find_none(e, s[k].key);
}
pub open spec fn secs_ok(s: Seq<MSec>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).align > 0 && s[i].size >= 0 }
pub proof fn mend_mono(s: Seq<MSec>, j: int, k: int)
    requires 0 <= j <= k <= s.len(), secs_ok(s),
    ensures 0 <= mend(s, j) <= mend(s, k), 0 <= mfoff(s, j) <= mfoff(s, k) <= mend(s, k), j < k ==> mend(s, j) <= maddr(s, j) && maddr(s, j) + s[j].size <= mend(s, k) && mfoff(s, j + 1) == mfoff(s, j) + mfile(s[j]),
    decreases k,
{
    assert(s.take(0) =~= Seq::empty());
    if k > 0 {
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        if j < k { mend_mono(s, j, k - 1); } else { mend_mono(s, j - 1, k - 1); }
        mend_mono(s, 0, k - 1);
        assert(s[k - 1].align > 0);
        up_lemma(mend(s, k - 1), s[k - 1].align);
    }
}
pub proof fn secs_are(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>)
    requires seg_room(g, im),
    ensures secs_ok(msecs(g)), msecs(g).len() == 4 + g[4].len(), forall|i: int| 0 <= i < 4 ==> #[trigger] msecs(g)[i] == stdsec(g[i], i), forall|i: int| 4 <= i < msecs(g).len() ==> #[trigger] msecs(g)[i] == cussec(g[4][i - 4]), g.len() == 5,
{
    reveal(seg_room);
    let s = msecs(g);
    assert(s[0] == stdsec(g[0], 0) && s[1] == stdsec(g[1], 1) && s[2] == stdsec(g[2], 2) && s[3] == stdsec(g[3], 3));
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).align > 0 && s[i].size >= 0 by {
        if i < 4 { assert(stdgrp(g[i])); galign_pos(g[i], smin(i)); roff_mono(g[i], smin(i), 0, g[i].len() as int); }
        else { let d = g[4][i - 4]; assert(cus_ok(d)); assert(s[i] == cussec(d)); let n = choose|n: nat| n < 64 && dal(d) == #[trigger] pow2(n); pow2_pos(n); }
    }
}
/// one part after another leaves room for each
pub proof fn room_part(x: Seq<MSym>, y: Seq<MSym>, t: Seq<MSym>)
    requires (x + y).is_prefix_of(t), nodup(tnames(t)), mstrtab(t).len() < lim(), t.len() < lim(),
    ensures syms_room(x, y), mstrtab(x).len() < lim(), x.len() < lim(),
{
    reveal(nodup);
    let u = x + y;
    let a = tnames(u);
    let b = tnames(t);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert(a[i] == b[i]); assert(a[j] == b[j]); assert(b[i] != b[j]); }
    let n = mnames(t);
    assert(mnames(u) =~= n.take(u.len() as int));
    assert(mnames(x) =~= n.take(x.len() as int));
    cat_all(n, fmstr());
    cat_mono(n, fmstr(), u.len() as int, n.len() as int);
    cat_mono(n, fmstr(), x.len() as int, n.len() as int);
}
pub proof fn cus_grow(g: Seq<Seq<DefV>>, j: int, k: int)
    requires 0 <= j <= k,
    ensures cusyms(g, j).is_prefix_of(cusyms(g, k)),
    decreases k - j,
{
    if j < k { cus_grow(g, j, k - 1); assert(cusyms(g, j).is_prefix_of(cusyms(g, k))); }
}
pub proof fn std_grow(g: Seq<Seq<DefV>>, j: int, k: int)
    requires 0 <= j <= k,
    ensures stdsyms(g, j).is_prefix_of(stdsyms(g, k)),
    decreases k - j,
{
    if j < k { std_grow(g, j, k - 1); assert(stdsyms(g, j).is_prefix_of(stdsyms(g, k))); }
}
pub proof fn stage(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>, k: int, h: int)
    requires seg_room(g, im), 0 <= k < 4, 0 <= h < 64,
    ensures ({
        let s = msecs(g); let m = smin(k);
        &&& s.len() > k && s[k] == stdsec(g[k], k) && nodup(mkeys(s))
        &&& stdgrp(g[k]) && grp_room(g[k], m, mend(s, k), h + mfoff(s, k)) && up(mend(s, k), galign(g[k], m)) == maddr(s, k)
        &&& syms_room(stdsyms(g, k), gsyms(g[k], m, k + 1, maddr(s, k)))
        &&& stdsyms(g, k + 1) == stdsyms(g, k) + gsyms(g[k], m, k + 1, maddr(s, k))
        &&& padst(g, k + 1) == ins(padst(g, k), padlist(g[k], m))
        &&& mend(s, k + 1) == maddr(s, k) + gsize(g[k], m)
        &&& mfoff(s, k + 1) == mfoff(s, k) + (if k == 3 { 0 } else { gsize(g[k], m) })
    }),
{
    secs_are(g, im);
    reveal(seg_room);
    let s = msecs(g);
    mend_mono(s, k, s.len() as int);
    mend_mono(s, k + 1, s.len() as int);
    std_grow(g, k + 1, 4);
    cus_grow(g, 0, g[4].len() as int);
    assert(stdsyms(g, k + 1).is_prefix_of(allms(g, im)));
    room_part(stdsyms(g, k), gsyms(g[k], smin(k), k + 1, maddr(s, k)), allms(g, im));
}
pub proof fn cstage(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>, i: int, h: int)
    requires seg_room(g, im), 0 <= i < g[4].len(), 0 <= h < 64,
    ensures ({
        let s = msecs(g); let d = g[4][i];
        &&& s.len() > 4 + i && s[4 + i] == cussec(d) && nodup(mkeys(s)) && cus_ok(d) && i < 0x8000_0000
        &&& up(mend(s, 4 + i), dal(d)) == maddr(s, 4 + i) && 0 <= mend(s, 4 + i) <= maddr(s, 4 + i) && maddr(s, 4 + i) + dfile(d.data) < mlim() && 0 <= h + mfoff(s, 4 + i) < 2 * mlim()
        &&& syms_room(cusyms(g, i), csyms(d, 5 + i, maddr(s, 4 + i)))
        &&& cusyms(g, i + 1) == cusyms(g, i) + csyms(d, 5 + i, maddr(s, 4 + i))
        &&& mend(s, 5 + i) == maddr(s, 4 + i) + dfile(d.data)
        &&& mfoff(s, 5 + i) == mfoff(s, 4 + i) + dfile(d.data)
    }),
{
    secs_are(g, im);
    reveal(seg_room);
    let s = msecs(g);
    let d = g[4][i];
    assert(cus_ok(d));
    assert(s[4 + i] == cussec(d));
    mend_mono(s, 4 + i, s.len() as int);
    mend_mono(s, 5 + i, s.len() as int);
    cus_grow(g, i + 1, g[4].len() as int);
    assert(cusyms(g, i + 1).is_prefix_of(allms(g, im)));
    room_part(cusyms(g, i), csyms(d, 5 + i, maddr(s, 4 + i)), allms(g, im));
}
pub proof fn istage(g: Seq<Seq<DefV>>, im: Seq<(Seq<char>, ImportKind)>)
    requires seg_room(g, im),
    ensures syms_room(cusyms(g, g[4].len() as int), isyms(im)), isyms(im).take(0) == Seq::<MSym>::empty(), isyms(im).take(im.len() as int) == isyms(im), cusyms(g, g[4].len() as int) + isyms(im).take(0) == cusyms(g, g[4].len() as int),
        msecs(g).len() == 4 + g[4].len(), mend(msecs(g), msecs(g).len() as int) < mlim(),
{
    secs_are(g, im);
    reveal(seg_room);
    assert(isyms(im).take(im.len() as int) =~= isyms(im));
    assert(isyms(im).take(0) =~= Seq::empty());
    assert(cusyms(g, g[4].len() as int) + isyms(im).take(0) =~= cusyms(g, g[4].len() as int));
}
pub proof fn stage0(g: Seq<Seq<DefV>>)
    ensures stdsyms(g, 0) == Seq::<MSym>::empty(), cusyms(g, 0) == stdsyms(g, 4), padst(g, 0) == Map::<Seq<char>, u64>::empty(), mend(msecs(g), 0) == 0, mfoff(msecs(g), 0) == 0,
{
    assert(msecs(g).take(0) =~= Seq::empty());
}

// ---------------------------------------------------------------- relocations
pub ghost struct MRel { pub sec: int, pub addr: int, pub sym: int, pub pcrel: bool, pub len: int, pub typ: int }
pub open spec fn is_sec(d: Decl) -> bool { d is Defined && d->Defined_0 is Section }
pub open spec fn is_fun(d: Decl) -> bool { d == Decl::Import(ImportKind::Function) || (d is Defined && d->Defined_0 is Function) }
/// a debug link to a section needs no entry
pub open spec fn emits(q: LinkV) -> bool { !(q.reloc is Debug && is_sec(q.to_decl)) }
pub open spec fn mabs(q: LinkV) -> bool {
    match q.reloc { Reloc::Auto => !is_fun(q.from_decl), Reloc::Raw { reloc, addend } => reloc == 0, Reloc::Debug { size, addend } => true }
}
/// unsigned 0, signed 1, branch 2, got-load 3
pub open spec fn mtyp(q: LinkV) -> int {
    match q.reloc {
        Reloc::Auto => if !is_fun(q.from_decl) { 0 } else if is_fun(q.to_decl) { 2 } else if q.to_decl is Import { 3 } else { 1 },
        Reloc::Raw { reloc, addend } => reloc as int,
        Reloc::Debug { size, addend } => 0,
    }
}
pub open spec fn mrel(x: Seq<MSym>, s: Seq<MSec>, q: LinkV) -> MRel {
    let f = x[sfind(mnames(x), q.from)];
    let d = q.reloc is Debug;
    MRel {
        sec: if d { sfind(mkeys(s), q.from) } else { f.sect - 1 },
        addr: if d { q.at as int } else { f.rel + q.at },
        sym: sfind(mnames(x), q.to),
        pcrel: !mabs(q),
        len: if d { if q.reloc->Debug_size == 4 { 2 } else { 3 } } else if mabs(q) { 3 } else { 2 },
        typ: mtyp(q),
    }
}
pub open spec fn rinf(r: MRel) -> RelocationInfo { RelocationInfo { r_address: r.addr as i32, r_info: rinfo(r.sym, r.pcrel, r.len, r.typ) as u32 } }
/// the entries of a section for the first k links
pub open spec fn mrels(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>, k: int, sec: int) -> Seq<MRel> decreases k {
    if k <= 0 { Seq::empty() } else {
        let r = mrel(x, s, q[k - 1]);
        let p = mrels(x, s, q, k - 1, sec);
        if emits(q[k - 1]) && r.sec == sec { p.push(r) } else { p }
    }
}
pub open spec fn minfos(r: Seq<MRel>) -> Seq<RelocationInfo> { Seq::new(r.len(), |i: int| rinf(r[i])) }
/// links with a documented meaning
pub open spec fn mlink_ok(q: LinkV) -> bool {
    match q.reloc {
        Reloc::Auto => !(q.from_decl is Import) && !is_sec(q.from_decl) && !is_sec(q.to_decl),
        Reloc::Raw { reloc, addend } => addend == 0 && reloc < 16 && !(q.from_decl is Import) && !is_sec(q.from_decl) && !is_sec(q.to_decl),
        Reloc::Debug { size, addend } => is_sec(q.from_decl) && (is_sec(q.to_decl) || size == 0 || size == 4 || size == 8),
    }
}
pub open spec fn mlink_ready(x: Seq<MSym>, s: Seq<MSec>, q: LinkV) -> bool {
    &&& mlink_ok(q)
    &&& emits(q) ==> {
        &&& q.to.len() > 0 && sfind(mnames(x), q.to) < x.len()
        &&& 0 <= mrel(x, s, q).sec < s.len() && 0 <= mrel(x, s, q).addr < 0x8000_0000
        &&& !(q.reloc is Debug) ==> q.from.len() > 0 && sfind(mnames(x), q.from) < x.len()
    }
}
#[verifier::opaque]
pub open spec fn links_ready(x: Seq<MSym>, s: Seq<MSec>, q: Seq<LinkV>) -> bool { x.len() < 0x100_0000 && nodup(mkeys(s)) && forall|i: int| 0 <= i < q.len() ==> mlink_ready(x, s, #[trigger] q[i]) }
/// the sections, with the entries of the first k links
#[verifier::opaque]
pub open spec fn linked(e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, x: Seq<MSym>, q: Seq<LinkV>, k: int) -> bool {
    e.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> secis(#[trigger] e[i], s[i], maddr(s, i)) && e[i].1.relocations@ == minfos(mrels(x, s, q, k, i))
}
pub proof fn linked_new(e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, x: Seq<MSym>, q: Seq<LinkV>)
    requires built(e, s, s.len() as int),
    ensures linked(e, s, x, q, 0),
{
    reveal(built); reveal(linked);
    assert forall|i: int| 0 <= i < s.len() implies secis(#[trigger] e[i], s[i], maddr(s, i)) && e[i].1.relocations@ == minfos(mrels(x, s, q, 0, i)) by { assert(e[i].1.relocations@ =~= minfos(mrels(x, s, q, 0, i))); }
}
pub open spec fn pushed(o: SectionBuilder, e: SectionBuilder, r: RelocationInfo) -> bool { e == (SectionBuilder { relocations: e.relocations, ..o }) && e.relocations@ == o.relocations@.push(r) }
pub open spec fn stepped(o: Seq<(Seq<char>, SectionBuilder)>, e: Seq<(Seq<char>, SectionBuilder)>, x: Seq<MSym>, s: Seq<MSec>, q: LinkV) -> bool {
    if emits(q) { let i = mrel(x, s, q).sec; e == o.update(i, (o[i].0, e[i].1)) && pushed(o[i].1, e[i].1, rinf(mrel(x, s, q))) } else { e == o }
}
pub proof fn mlink_step(o: Seq<(Seq<char>, SectionBuilder)>, e: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, x: Seq<MSym>, q: Seq<LinkV>, k: int)
    requires linked(o, s, x, q, k), 0 <= k < q.len(), stepped(o, e, x, s, q[k]), links_ready(x, s, q),
    ensures linked(e, s, x, q, k + 1),
{
    reveal(linked); reveal(links_ready);
    assert(mlink_ready(x, s, q[k]));
    let sec = mrel(x, s, q[k]).sec;
    assert forall|i: int| 0 <= i < s.len() implies secis(#[trigger] e[i], s[i], maddr(s, i)) && e[i].1.relocations@ == minfos(mrels(x, s, q, k + 1, i)) by {
        assert(secis(o[i], s[i], maddr(s, i)));
        assert(e[i].1.relocations@ =~= minfos(mrels(x, s, q, k + 1, i)));
    }
}
/// what any treatment of the next link has to do
pub proof fn link_all(o: Seq<(Seq<char>, SectionBuilder)>, s: Seq<MSec>, x: Seq<MSym>, q: Seq<LinkV>, k: int)
    requires linked(o, s, x, q, k), 0 <= k < q.len(), links_ready(x, s, q),
    ensures forall|e: Seq<(Seq<char>, SectionBuilder)>| stepped(o, e, x, s, q[k]) ==> #[trigger] linked(e, s, x, q, k + 1),
        mlink_ready(x, s, q[k]), x.len() < 0x100_0000, o.len() == s.len(),
        q[k].reloc is Debug && emits(q[k]) ==> hask(o, q[k].from) && find(o, q[k].from) == mrel(x, s, q[k]).sec && o[find(o, q[k].from)].0 == q[k].from,
{
    assert forall|e: Seq<(Seq<char>, SectionBuilder)>| stepped(o, e, x, s, q[k]) implies #[trigger] linked(e, s, x, q, k + 1) by { mlink_step(o, e, s, x, q, k); }
    reveal(linked); reveal(links_ready);
    assert(mlink_ready(x, s, q[k]));
    if q[k].reloc is Debug && emits(q[k]) {
        let n = q[k].from;
        let i = mrel(x, s, q[k]).sec;
        sfind_lemma(mkeys(s), n);
        find_lemma(o, n);
        assert(secis(o[i], s[i], maddr(s, i)));
        let j = find(o, n);
        if j < o.len() { assert(secis(o[j], s[j], maddr(s, j))); assert(mkeys(s)[j] == n); reveal(nodup); }
    }
}

pub proof fn sect_sizes(c: crate::goblin::container::Container, n: int)
    ensures
        crate::goblin::mach::segment::msectsize(c) * n == n * crate::goblin::mach::segment::msectsize(c),
        0 <= n < 0x100_0000 ==> 0 <= n * crate::goblin::mach::segment::msectsize(c) <= 0x5000_0000,
{
    let x = crate::goblin::mach::segment::msectsize(c);
    assert(x * n == n * x) by (nonlinear_arith);
    if 0 <= n < 0x100_0000 { assert(0 <= n * x <= 0x100_0000 * 80) by (nonlinear_arith) requires 0 <= n < 0x100_0000, 68 <= x <= 80; }
}
}
