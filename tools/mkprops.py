#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator only so the long text stays readable).
import json
A="src/artifact.rs"; D="src/artifact/decl.rs"; E="src/elf.rs"; M="src/mach.rs"; T="src/target.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
IN=["inputs"];H=["inputs","histories"];C=["inputs","histories","configurations"]
p("C01","Redeclaration follows the documented merge rule",
 "Declaring a name that is new records the declaration; redeclaring it succeeds exactly when the declarations are equal, or a function (data) import meets a function (data) definition in either order, and then the result is the definition. Every other redeclaration fails with an error carrying exactly the old and the new declaration and changes nothing. The result concerns that name only: no other name's declaration, definition or link changes.",
 H,"Every pair of declarations (all kinds, scopes, visibilities, alignments, datatypes, writability) and every history of declarations of any names.",
 "The tests try about a dozen pairs of kinds and never vary scope, visibility, alignment, datatype or writability; the pair space is unbounded in the alignment and the history.",
 [A,D],[("Decl::absorb",D+": impl Decl"),("Artifact::declare",A+": Artifact::declare")],
 [("declarations","name -> declaration, in first-declaration order",A)],["result of declare/import/declarations/declare_with"])
p("C02","A definition is accepted exactly when it is legal",
 "Defining a name succeeds exactly when the name is declared, is not an import, is not yet defined, gets custom symbols only if it is a section, and gets zero-initialized contents only if it is data; the contents and custom symbols are then recorded unchanged for that name with its declaration. Otherwise it fails with an error naming the actual reason (undeclared, import, duplicate, custom symbols on a non-section, zero-init on a non-data) with the offending name or declaration, and nothing is recorded or lost. A failed attempt never makes a name count as defined.",
 H,"Every history of declarations and (legal or illegal) definitions, all contents and symbol maps.",
 "Tests check two refusals on one-step histories; combinations of reasons, retries after a failure, and what a failure leaves behind are not sampled.",
 [A],[("Artifact::define_with_symbols",A),("Artifact::define / define_zero_init / declare_with",A)],
 [("local_definitions/nonlocal_definitions","recorded definitions",A),("defined","whether a declaration has its definition",A)],["results of define*, undefined_symbols, emission"])
p("C03","A link is accepted exactly when legal, and recorded in order",
 "Linking succeeds exactly when both names are declared and the name that contains the place is not an import; the link is then recorded unchanged after all earlier ones, with its endpoints' names and current declarations, place and relocation kind. Otherwise it fails naming the undeclared name or the import, and records nothing.",
 H,"Every history of declarations and links, all offsets and relocation kinds, before or after definitions.",
 "Tests only build legal links and never look at what a refused link leaves behind or at endpoint declarations upgraded afterwards.",
 [A],[("Artifact::link_with",A),("Artifact::links",A)],[("links","recorded relocations in order",A)],["results of link/link_with, relocations in the object"])
p("C04","The reported imports are exactly the names currently declared as imports",
 "At every point of every history, the reported imports contain exactly the names whose current declaration is an import, each once, with that declaration's import kind. A name whose import was upgraded to a definition is never reported; redeclaring, defining or linking does not duplicate or drop any import.",
 H,"Every history of declarations, imports, definitions and links.",
 "Four tests check two- or three-step histories; upgrades interleaved with other imports (the positional removal) and failed calls in between are not sampled.",
 [A],[("Artifact::declare (imports bookkeeping)",A),("Artifact::imports",A)],[("imports","list of (name, kind)",A)],["Artifact::imports", "undefined symbols in objects"])
p("C05","Emission is gated on completeness, faithful and deterministic",
 "Emission in any format fails while some declared non-import has no definition, with an error listing exactly those names in declaration order; for a complete artifact an unsupported format fails with an error naming that format, and ELF and Mach-O emission of a legal artifact succeed without panicking. Emitting does not change the artifact, and emitting again gives the same bytes; the target's own format is used when none is given. Writing to a file writes exactly the bytes emission returns, and writes nothing when emission fails.",
 C,"Every artifact reachable through the API, every target and every requested format.",
 "Tests emit a few complete artifacts once each and check one undefined symbol; ordering, unsupported formats, repeated emission and write-versus-emit agreement are not sampled.",
 [A,E,M],[("Artifact::undefined_symbols",A),("Artifact::emit_as / emit / write_as / write",A),("elf::to_bytes / mach::to_bytes",E)],(),["emit*, write*, undefined_symbols"])
p("C06","Every ELF definition's bytes are in the object exactly once, verbatim",
 "For every defined name with contents the ELF object has a section of its own whose file range holds exactly those bytes, and the ranges of different definitions do not overlap each other or the object's tables. Each definition has its own section even when contents are empty or equal to another's.",
 C,"Every complete artifact, any number of definitions of any size, order and kind, every ELF target.",
 "Tests emit a handful of objects and compare none of the contents; offsets depend on the sum of all earlier sizes.",
 [E],[("Elf::add_progbits / add_section",E),("Elf::write (code)",E)],[("code","section bytes in file order",E),("sizeof_bits","file offset of the next section",E)],["section headers and contents"])
p("C07","ELF section attributes match the declaration",
 "A function's section is allocated and executable but not writable; a data section is allocated, writable exactly when declared writable, and mergeable strings exactly when its datatype is string (and it has contents); a custom section is neither allocated nor writable nor executable, and is mergeable strings when so declared or when it is one of the DWARF string sections .debug_str/.debug_line_str. Sections with contents are PROGBITS with the size of their contents. The section's alignment is the declared one, or by default 16 for functions, 8 for writable data and 1 otherwise.",
 C,"All declarations (kind, writability, datatype, alignment), all names and contents, every ELF target.",
 "Tests look at one or two flags of single-definition objects.",
 [E],[("Elf::add_definition (section builder)",E),("SectionBuilder::create",E)],(),["section headers"])
p("C08","ELF symbol table has exactly one faithful entry per symbol",
 "The ELF symbol table holds the null entry, one file entry with the artifact's name, one section symbol per definition, and exactly one entry per function, data object, custom symbol and import. A function or data entry has its declared binding (local/global/weak), visibility, type and size, value 0 and the index of the section with its contents; a custom symbol is a local untyped entry with its offset in its section; an import is a global undefined untyped entry. Names declared but still imports at emission are undefined entries even if never linked.",
 C,"All artifacts, scopes, visibilities, sizes, custom symbol maps and import sets.",
 "Tests check one symbol's binding or visibility at a time; collisions between interleaved symbols and sections are not sampled.",
 [E],[("Elf::add_definition (symbols)",E),("Elf::import",E),("SymbolBuilder::create",E)],[("symbols/special_symbols","symbol table under construction",E)],["symbol table"])
p("C09","ELF local symbols precede all others and the boundary index is exact",
 "In the ELF symbol table every local symbol comes before every global or weak one, and the symbol-table section's info field equals the index of the first non-local symbol (or the number of symbols when there is none). This holds for every mixture of local, global, weak, imported and custom symbols.",
 C,"All artifacts, any order of declaration and definition.",
 "One test emits a single weak symbol; the boundary depends on the count and order of all symbols.",
 [E,A],[("local/nonlocal definition sets",A),("Elf::nlocals",E),("Elf::write symtab.sh_info",E)],[("nlocals","number of local named symbols",E)],["sh_info and symbol bindings"])
p("C10","ELF names resolve to the right strings",
 "Every symbol and section name offset of an ELF object lies inside the string table and resolves there to exactly the intended name: the declared name for symbols, and .text.N, .data.N, .rodata.N, .bss.N or the section's own name for sections, with .rela prepended for relocation sections. The string table starts and ends with a NUL byte and its recorded size covers all of its strings. Names that coincide with each other, with the artifact's own name or with built-in names such as .symtab share or repeat entries but still resolve.",
 C,"All sets of NUL-free names, including names equal to derived or built-in names and non-ASCII names.",
 "Tests resolve a few short distinct ASCII names; an offset is the running sum of all earlier name lengths.",
 [E],[("Elf::new_string",E),("Elf::new (initial strings)",E),("Elf::write (strtab)",E)],[("offsets/strings/sizeof_strtab","string table under construction",E)],["string table, st_name, sh_name"])
p("C11","Every ELF relocation is where and what its link says",
 "Each link yields exactly one RELA entry, in link order, in the relocation section that applies to the section containing the link's source, with the link's offset, an index of the target's own symbol if it is an import and of the symbol of the target's section otherwise, and the given raw type and addend or the absolute 4- or 8-byte type and the given addend for a debug link. There is at most one relocation section per section, its info field names the patched section and its link field the symbol table. No other relocation entry appears.",
 C,"All sets and orders of links, all targets and offsets, links to and from sections, data, functions and imports.",
 "Tests emit one or two links per object; interleaved links, many source sections, imports mixed with definitions are not sampled.",
 [E],[("Elf::link",E),("Elf::add_reloc",E),("Elf::write (relocations)",E)],[("relocations","section index -> relocation section and entries",E)],["rela sections"])
p("C12","Automatic links select the documented relocation",
 "An automatic ELF link selects by its endpoints' kinds: PLT32 with addend -4 from a function to a function or function import, PC32 -4 from a function to data, GOTPCREL -4 from a function to a data import, and from data a pointer-sized absolute relocation with addend 0. An automatic Mach-O link selects a pc-relative 4-byte branch, signed or got-load relocation respectively, and from data an absolute 8-byte unsigned one. The choice depends on the endpoints' declarations as they are when the object is emitted.",
 C,"All pairs of endpoint kinds, all declaration histories and all targets of the two formats.",
 "Tests cover one or two kinds of pair in one format; late upgrades of an endpoint's declaration are not sampled.",
 [E,M],[("Elf::link",E),("build_relocations",M)],(),["relocation entries"])
p("C13","The ELF file is structurally sound",
 "An emitted ELF object is a relocatable-file header, contents, tables and section headers such that every section with file contents lies inside the file, no two of them nor the headers overlap, tables have the right entry size and are aligned for their entries, section 0 is null and the header's counts, offsets and string-table index match what follows. There is exactly one section per definition, one relocation section per linked-from definition, the string and symbol tables, and an empty .note.GNU-stack without flags.",
 C,"All artifacts and ELF targets (32/64-bit, both byte orders).",
 "Tests reparse a few 64-bit objects; offsets depend on all sizes and paddings.",
 [E],[("Elf::write (offset computation)",E),("Elf::align",E)],(),["whole file"])
p("C14","ELF extended section numbering is exact",
 "When an ELF object has fewer than 0xff00 sections its header gives the count directly and there is no extended index table. From 0xff00 on, the header count is 0, section 0's size is the exact count, an extended index table with one 4-byte entry per symbol is present and linked to the symbol table, and every symbol whose section index is 0xff00 or more reads as the escape value with its true index in that table.",
 C,"All section counts, including those around and beyond the threshold, with and without relocation sections.",
 "One test emits a large object on one side of the threshold; the boundary counts and the effect of relocation sections on the count are not sampled.",
 [E],[("Elf::write (symtab_shndx)",E)],[("nsections","section count",E)],["e_shnum, section 0, .symtab_shndx"])
p("C15","The object's class, byte order and machine are the target's",
 "The object's word size and byte order are those of the target's pointer width and endianness (the host's defaults when the target has neither 32- nor 64-bit pointers or no known endianness), and all its structures are encoded with them. The machine code in the header is the one the format assigns to the target's architecture, for every architecture the format supports.",
 C,"Every target triple with a supported architecture, both formats.",
 "Tests use x86_64 and a couple of other triples.",
 [T,E,M],[("make_ctx",T),("MachineTag::from",E),("CpuType::from",M)],(),["file headers"])
p("C16","Every Mach-O definition's bytes are in the right section, verbatim",
 "A Mach-O object has the sections __text, __data, __cstring, __bss and one per custom section, with the segment names and type flags for their kind; functions lie in __text, non-string data with contents in __data, string data with contents in __cstring. At the file offset and address of its symbol's place in that section are exactly the definition's bytes, and the places of different definitions do not overlap. A custom section has exactly its contents and size, with a leading .debug spelled __debug.",
 C,"All complete artifacts with legal section names, all sizes, alignments and orders, all Mach-O targets.",
 "Tests emit a few objects and do not compare contents; places depend on all earlier sizes and paddings.",
 [M],[("SegmentBuilder::build_section / build_custom_section",M),("Mach::write",M)],[("align_pad_map","padding after each definition",M)],["section headers and contents"])
p("C17","Mach-O alignment is honored",
 "In a Mach-O object every definition's address is a multiple of its declared alignment, and at least 16 for functions and 8 for non-string data with contents. The section containing it declares at least that alignment, and every section's address is a multiple of the section's declared alignment.",
 C,"All sequences of definitions with any power-of-two alignments, mixed with unaligned and empty ones.",
 "One test checks one pair of alignments; the paddings depend on all earlier sizes.",
 [M],[("SegmentBuilder::build_section padding",M),("align_to_align_exp / align_up",M)],(),["symbol values, section headers"])
p("C18","Mach-O symbol table has exactly one faithful entry per symbol",
 "The Mach-O symbol table holds exactly one entry per function, data object, custom symbol and import. A definition's entry gives its section's ordinal and address, is external exactly when not local, and is marked a weak definition exactly when weak; a custom symbol is external at its offset in its section; an import is an undefined external entry with value 0 and no section.",
 C,"All artifacts, scopes, custom symbol maps and import sets.",
 "Tests count symbols of one or two objects; order-dependent indices and names that occur in several roles are not sampled.",
 [M],[("SymbolTable::insert",M),("SymbolBuilder::create",M)],[("symbols/indexes","symbol table under construction",M)],["nlist entries"])
p("C19","Mach-O names resolve to the right strings",
 "Every Mach-O symbol's string offset lies inside the string table and resolves there to the symbol's name prefixed with an underscore. The string table starts with a NUL byte, every string is NUL-terminated, and the recorded size is exactly the space the strings take.",
 C,"All sets of non-empty NUL-free names, including non-ASCII names and names that are prefixes of others.",
 "Tests resolve a few short names; an offset is the running sum of all earlier name lengths.",
 [M],[("SymbolTable::insert (strtable_size)",M),("Mach::write (strtable)",M)],[("strtable/strtable_size","string table under construction",M)],["string table, n_strx"])
p("C20","Every Mach-O relocation is where and what its link says",
 "Each supported link yields exactly one relocation entry, in link order, among those of the section that contains the link's source, at the link's offset from the source's place in that section, external, with the index of the target's own symbol. A raw link's type is the given one, pc-relative 4-byte unless it is the absolute type 0 (8-byte); a debug link gives an absolute unsigned relocation of the given size. Each section's relocation count and file offset locate exactly its own entries, and no other entry appears.",
 C,"All sets and orders of links from functions, data and custom sections to functions, data and imports.",
 "Tests check one or two relocations; the bit-packed fields and the offsets depend on all earlier symbols and paddings.",
 [M],[("build_relocations",M),("RelocationBuilder::create",M),("SectionBuilder::create",M)],[("relocations","entries per section",M)],["relocation entries"])
p("C21","Mach-O header and load commands describe the file",
 "An emitted Mach-O object is an object-file header with exactly one segment and one symbol-table command whose command sizes add up, followed by exactly the file the commands describe: section contents, symbol table, string table and relocations lie inside the file, do not overlap, and have the recorded offsets, counts and sizes. The segment's file range is exactly that of its sections' contents, and its memory range covers every section.",
 C,"All artifacts with legal links and section names, all Mach-O targets.",
 "Tests reparse a few objects; offsets depend on all sizes, the number of sections and zero-initialized data.",
 [M],[("Mach::write",M),("SegmentBuilder::new / load_command_size",M)],(),["whole file"])
p("C22","Zero-initialized data reserves memory and no file space",
 "A zero-initialized data object of n bytes has, in both formats, a symbol in a zero-fill section (ELF: its own NOBITS section, allocated and writable, of size n; Mach-O: n bytes of __bss not shared with any other object) and adds no bytes to the contents in the file. Its declared alignment is honored. The contents of all other definitions are placed as if it were not there.",
 C,"All sets of zero-initialized objects of any size mixed with any other definitions.",
 "One test emits one zero-initialized object in each format and checks that it parses.",
 [E,M,A],[("Elf::add_definition NoBits",E),("build_section __bss",M),("Data::file_size/mem_size",A)],(),["section headers, file length"])
p("C23","Builders change exactly the attribute they name",
 "The default declarations are local, default-visibility, read-only, byte-typed and without alignment; every builder or setter of a declaration changes exactly the attribute it names to the given value and keeps all others, and every accessor reports the current value; conversion to a declaration keeps all attributes and the kind. The artifact builder gives an empty artifact with the given target, name (default faerie.o) and library flag.",
 IN,"All declaration values, all attribute values, all sequences of builder calls.",
 "Tests use a few builder chains and never check the untouched attributes.",
 [D,A],[("scope/visibility/datatype/align methods",D),("Default and Into impls",D),("ArtifactBuilder",A)],(),["accessors, emitted attributes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
