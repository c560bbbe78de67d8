// The domains of emission are not empty: a client that declares, defines, links and emits, proved against the contracts alone.
pub mod witness_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::artifact::*;
use crate::artifact::decl::*;
use crate::artifact_spec::*;
use crate::elf_spec::*;
use crate::elf_write_spec::*;
use crate::elf_object_spec::*;
use crate::mach_spec::*;
use crate::mach_object_spec::*;
use crate::seq_spec::*;
use crate::target_spec::*;
use crate::target_lexicon::*;

pub open spec fn wdef(d: DefinedDecl, b: u8) -> DefV { DefV { name: "f"@, decl: d, syms: Seq::empty(), data: DataV::Blob(seq![b]) } }
/// one function that calls itself
pub open spec fn wart(a: &Artifact, d: DefinedDecl, b: u8) -> bool {
    &&& a.wf() && a.name@ == "x"@
    &&& d is Function && dalign(d) is None && !dlocal(d)
    &&& a.decls() == seq![("f"@, InternalDecl { decl: Decl::Defined(d), defined: true })]
    &&& a.defs() == seq![wdef(d, b)]
    &&& a.lnks() == seq![("f"@, "f"@, 0u64, Reloc::Auto)]
    &&& elf_machine(a.target.architecture) is Some && mach_cpu(a.target.architecture) is Some && ctx_of(&a.target).big()
}
pub proof fn no_imports(a: &Artifact)
    requires a.wf(), forall|i: int| 0 <= i < a.decls().len() ==> !((#[trigger] a.decls()[i]).1.decl is Import),
    ensures a.imps().len() == 0,
{
    reveal(Artifact::wf); reveal(Artifact::decls); reveal(Artifact::imps);
    if a.imports@.len() > 0 {
        assert(hask(a.declarations@, a.imports@[0].0));
        let j = find(a.declarations@, a.imports@[0].0);
        assert(a.declarations@[j].1.decl is Import);
        assert(a.decls()[j].1.decl is Import);
    }
}
pub proof fn short(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (s[i] as u32) < 128,
    ensures utf8(s).len() == s.len(),
{
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
pub proof fn lens()
    ensures utf8("f"@).len() == 1, utf8("x"@).len() == 1, utf8(".strtab"@).len() == 7, utf8(".symtab"@).len() == 7, utf8(".symtab_shndx"@).len() == 13, utf8(".note.GNU-stack"@).len() == 15,
        utf8(cat2(".text."@, "f"@)).len() == 7, utf8(relname(cat2(".text."@, "f"@))).len() == 12,
{
    reveal_strlit("f"); reveal_strlit("x"); reveal_strlit(".text."); reveal_strlit(".strtab"); reveal_strlit(".symtab"); reveal_strlit(".symtab_shndx"); reveal_strlit(".note.GNU-stack"); reveal_strlit(".rela");
    short("f"@); short("x"@); short(".strtab"@); short(".symtab"@); short(".symtab_shndx"@); short(".note.GNU-stack"@); short(cat2(".text."@, "f"@)); short(relname(cat2(".text."@, "f"@)));
}
pub proof fn wlinks(a: &Artifact, d: DefinedDecl, b: u8)
    requires wart(a, d, b),
    ensures a.flinks().len() == 1, a.flinks()[0] == (LinkV { from: "f"@, from_decl: Decl::Defined(d), to: "f"@, to_decl: Decl::Defined(d), at: 0, reloc: Reloc::Auto }),
{
    find_lemma(a.decls(), "f"@);
    assert(a.decls()[0].0 == "f"@);
}
pub proof fn elf_ready(a: &Artifact, d: DefinedDecl, b: u8)
    requires wart(a, d, b),
    ensures undef(a.decls()).len() == 0, elf_dom(a),
{
    no_imports(a);
    let v = wdef(d, b);
    assert(a.decls().drop_last() =~= Seq::empty());
    reveal_with_fuel(undef, 2);
    reveal_with_fuel(xdefs, 2);
    reveal_with_fuel(symcost, 2);
    lens();
    wlinks(a, d, b);
    assert(a.defs().len() == 1 && a.defs()[0] == v);
    assert(a.defs().drop_last() =~= Seq::<DefV>::empty());
    assert(dsyms(v, 3).drop_last() =~= Seq::<XSym>::empty());
    assert(dsyms(v, 0).drop_last() =~= Seq::<XSym>::empty());
    assert(xall(a) =~= seq![def_sym(v, 3)]);
    sfind_lemma(defnames(a.defs()), "f"@);
    assert(defnames(a.defs())[0] == "f"@);
    assert(dix(a, "f"@) == 0);
    assert(a.defs().take(1) =~= a.defs()); assert(a.flinks().take(1) =~= a.flinks()); assert(a.flinks().drop_last() =~= Seq::<LinkV>::empty()); assert(a.imps().take(0) =~= Seq::<(Seq<char>, ImportKind)>::empty());
    reveal_with_fuel(sum, 2);
    reveal_with_fuel(cat, 2);
    assert(secname(v) == cat2(".text."@, "f"@));
    assert(strtotal(a) < 200);
    reveal(elf_dom); reveal(nodup);
}
pub proof fn nat_syms(g: Seq<Seq<DefV>>)
    requires g.len() == 5, g[1].len() == 0, g[2].len() == 0, g[3].len() == 0, g[4].len() == 0,
    ensures cusyms(g, 0) == gsyms(g[0], 16, 1, maddr(msecs(g), 0)), msecs(g).len() == 4,
{
    reveal_with_fuel(cusyms, 2); reveal_with_fuel(stdsyms, 5);
    assert(gsyms(g[1], 8, 2, maddr(msecs(g), 1)) =~= Seq::<MSym>::empty());
    assert(gsyms(g[2], 1, 3, maddr(msecs(g), 2)) =~= Seq::<MSym>::empty());
    assert(gsyms(g[3], 1, 4, maddr(msecs(g), 3)) =~= Seq::<MSym>::empty());
    assert(cusyms(g, 0) =~= gsyms(g[0], 16, 1, maddr(msecs(g), 0)));
}
pub proof fn mach_parts(a: &Artifact, d: DefinedDecl, b: u8)
    requires wart(a, d, b),
    ensures mg(a).len() == 5, mg(a)[0] == seq![wdef(d, b)], mg(a)[1].len() == 0, mg(a)[2].len() == 0, mg(a)[3].len() == 0, mg(a)[4].len() == 0,
{
    let v = wdef(d, b);
    assert(a.defs().drop_last() =~= Seq::<DefV>::empty());
    assert(a.defs().last() == v);
    reveal_with_fuel(part, 2);
    assert(mg(a)[0] =~= seq![v]);
}
pub proof fn mach_sizes(a: &Artifact, d: DefinedDecl, b: u8)
    requires wart(a, d, b),
    ensures ms(a).len() == 4, forall|k: int| 0 <= k <= 4 ==> 0 <= #[trigger] mend(ms(a), k) <= 16, mfoff(ms(a), 4) <= 16, mx(a) == seq![gsym(mg(a)[0], 16, 1, 0, 0)],
        ms(a)[0].size <= 16, ms(a)[1].size == 0, ms(a)[2].size == 0, ms(a)[3].size == 0,
{
    let g = mg(a);
    mach_parts(a, d, b);
    no_imports(a);
    nat_syms(g);
    assert(g[0].drop_last() =~= Seq::<DefV>::empty());
    reveal_with_fuel(galign, 2); reveal_with_fuel(roff, 2); reveal_with_fuel(mend, 6);
    assert(gsize(g[0], 16) == up(1, 16));
    assert(up(1, 16) == 16 && up(0, 16) == 0 && up(16, 8) == 16 && up(16, 1) == 16) by { reveal(up); }
    assert(ms(a)[0].size == 16 && ms(a)[1].size == 0 && ms(a)[2].size == 0 && ms(a)[3].size == 0);
    assert(ms(a)[0].align == 16 && ms(a)[1].align == 8 && ms(a)[2].align == 1 && ms(a)[3].align == 1);
    assert(mend(ms(a), 0) == 0 && mend(ms(a), 1) == 16 && mend(ms(a), 2) == 16 && mend(ms(a), 3) == 16 && mend(ms(a), 4) == 16);
    let s = ms(a);
    assert(s.take(4).drop_last() =~= s.take(3)); assert(s.take(3).drop_last() =~= s.take(2)); assert(s.take(2).drop_last() =~= s.take(1)); assert(s.take(1).drop_last() =~= s.take(0));
    reveal_with_fuel(sum, 6);
    assert(mfoff(s, 4) <= 16);
    assert(mx(a) =~= seq![gsym(g[0], 16, 1, 0, 0)]);
}
pub proof fn mach_ready(a: &Artifact, d: DefinedDecl, b: u8)
    requires wart(a, d, b),
    ensures mach_dom(a),
{
    let g = mg(a);
    let v = wdef(d, b);
    mach_parts(a, d, b);
    mach_sizes(a, d, b);
    wlinks(a, d, b);
    lens();
    no_imports(a);
    let x = mx(a);
    let s = ms(a);
    assert(x.len() == 1 && x[0].name == "f"@);
    assert(is_pow2(1)) by { assert(pow2(0) == 1); }
    assert(mnames(x) =~= seq!["f"@]);
    sfind_lemma(mnames(x), "f"@);
    assert(sfind(mnames(x), "f"@) == 0) by { assert(mnames(x)[0] == "f"@); }
    assert(mnames(x).drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(cat, 2);
    assert(mstrtab(x).len() < 10) by { assert(fmstr()("f"@).len() == 3); }
    reveal_strlit("f"); reveal_strlit("__text"); reveal_strlit("__data"); reveal_strlit("__cstring"); reveal_strlit("__bss");
    short("__text"@); short("__data"@); short("__cstring"@); short("__bss"@);
    assert(s[0].name == "__text"@ && s[1].name == "__data"@ && s[2].name == "__cstring"@ && s[3].name == "__bss"@);
    assert(nodup(tnames(x))) by { reveal(nodup); assert(tnames(x)[0].len() == 0 && tnames(x)[1].len() == 1); }
    assert(nodup(mkeys(s))) by {
        reveal(nodup);
        let k = mkeys(s);
        assert(k.len() == 4 && k[0] == "__text"@ && k[1] == "__data"@ && k[2] == "__cstring"@ && k[3] == "__bss"@);
        assert(k[0][2] == 't' && k[1][2] == 'd' && k[2][2] == 'c' && k[3][2] == 'b');
    }
    assert(seg_room(g, a.imps())) by { reveal(seg_room); assert(allms(g, a.imps()) == x); assert(msecs(g) == s); assert(mend(s, 4) <= 16); }
    assert(mend(s, 4) <= 16);
    assert(mrel(x, s, a.flinks()[0]).addr == 0);
    reveal(mach_dom);
}
/// the client: every precondition on the way is met, and both formats give an object
pub fn client(t: Triple, n: String, b: u8) -> (r: (Vec<u8>, Vec<u8>))
    requires elf_machine(t.architecture) is Some, mach_cpu(t.architecture) is Some, ctx_of(&t).big(), n@ == "x"@,
{
    let mut a = Artifact::new(t, n);
    let fd = FunctionDecl { scope: Scope::Global, visibility: Visibility::Default, align: None };
    let ghost d = DefinedDecl::Function(fd);
    let ghost e = (a.decls(), a.defs());
    assert(a.defs().len() == a.ldefs().len() + a.gdefs().len());
    let r0 = a.declare("f", Decl::Defined(DefinedDecl::Function(fd)));
    proof { find_lemma(e.0, "f"@); find_lemma(a.decls(), "f"@); assert(a.decls()[0].0 == "f"@); }
    let mut c = Vec::new();
    c.push(b);
    let ghost z = (a.ldefs(), a.gdefs());
    let r1 = a.define("f", c);
    proof {
        assert(c@ =~= seq![b]);
        assert(r1 is Ok);
        assert(one_more(z.1, a.gdefs(), wdef(d, b)));
        assert(a.ldefs() =~= Seq::<DefV>::empty());
        assert(a.defs() =~= seq![wdef(d, b)]);
        find_lemma(a.decls(), "f"@); assert(a.decls()[0].0 == "f"@);
        assert(a.decls() =~= seq![("f"@, InternalDecl { decl: Decl::Defined(d), defined: true })]);
    }
    let r2 = a.link(Link { from: "f", to: "f", at: 0 });
    proof {
        assert(r2 is Ok);
        assert(a.lnks() =~= seq![("f"@, "f"@, 0u64, Reloc::Auto)]);
        elf_ready(&a, d, b);
        mach_ready(&a, d, b);
    }
    let x = a.emit_as(BinaryFormat::Elf);
    let y = a.emit_as(BinaryFormat::Macho);
    match x { Ok(p) => match y { Ok(q) => (p, q), Err(_) => v_panic() }, Err(_) => v_panic() }
}
}
