From dbf1a5e31836833c1d237c243dfe5a51edc2b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 1/8] fix: name the requested format in UnsupportedBinaryFormat

---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..9f05b74 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -591,9 +591,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From 03c93e14029d9ca4dc33691d00095f2c5dacc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 2/8] fix: count custom section symbols as ELF locals

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..05a432e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -590,6 +590,8 @@ impl<'a> Elf<'a> {
                         .create();
 
                     self.symbols.insert(idx, symbol);
+                    // these symbols are local, so sh_info has to cover them
+                    self.nlocals += 1;
                 }
             }
         }
-- 
2.43.0


From 52665bd22eb9cbe3ecfcdec94da5dbf0d6ef50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 3/8] fix: emit weak definitions as non-local symbols

---
 src/artifact.rs      |  2 +-
 src/artifact/decl.rs | 18 ++++++++++++++++++
 src/elf.rs           |  2 +-
 src/mach.rs          | 18 +++++++++++++++---
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 9f05b74..9d92e73 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -496,7 +496,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..3528ba4 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,24 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether the definition is only available in its own component
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
+    /// Accessor to determine whether the definition is weak
+    pub(crate) fn is_weak(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 05a432e..698287b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -569,7 +569,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
diff --git a/src/mach.rs b/src/mach.rs
index d23809c..598ec9e 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -71,6 +71,7 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -83,6 +84,7 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -98,6 +100,11 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -118,12 +125,12 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
@@ -329,6 +336,7 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -393,9 +401,11 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -465,7 +475,8 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    global: !def.decl.is_local(),
+                    weak: def.decl.is_weak(),
                 },
             );
             *symbol_offset += def.data.file_size() as u64;
@@ -545,6 +556,7 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
                 },
             );
         }
-- 
2.43.0


From 07207f45a45e3d2fc498e8668e00c8030ee2d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 4/8] fix: give ELF .bss sections and their symbols their size
 and alignment

---
 src/artifact.rs | 7 +++++++
 src/elf.rs      | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 9d92e73..6cc3f2e 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -132,6 +132,13 @@ impl Data {
             Data::ZeroInit(_) => 0,
         }
     }
+    /// Return the number of bytes of _memory_ this data will use.
+    pub(crate) fn mem_size(&self) -> usize {
+        match self {
+            Data::Blob(blob) => blob.len(),
+            Data::ZeroInit(size) => *size,
+        }
+    }
     /// Return whether the data has at least one byte defined
     pub fn is_empty(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 698287b..a374b76 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,7 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        let def_size = def.data.mem_size();
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From 98bd519d929ccb03a1ee6116c8a35f9bddce0d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 5/8] fix: put Mach-O relocations in the section they patch

---
 src/mach.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 598ec9e..ee31e91 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -370,6 +370,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.section)
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -958,8 +965,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1033,16 +1038,20 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        match (
+            symtab.section(link.from.name),
+            symtab.offset(link.from.name),
+            symtab.index(link.to.name),
+        ) {
+            (Some(from_section), Some(base_offset), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
+                // a relocation belongs to the section that contains the place it patches
+                let relocations = &mut segment.sections.get_index_mut(from_section).unwrap().1.relocations;
                 if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
+                    relocations.push(builder.absolute().create());
                 } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
+                    relocations.push(builder.create());
                 }
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
-- 
2.43.0


From f8fec54b1a91328a49160d3337181266ed1fa1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 6/8] fix: reserve the memory of zero-initialized data in
 Mach-O __bss

---
 src/mach.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index ee31e91..76b219f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -288,7 +288,10 @@ impl SectionBuilder {
             flags: self.flags,
         };
         section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        // zero-filled sections take no space in the file
+        if self.flags != S_ZEROFILL {
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -439,7 +442,7 @@ struct SegmentBuilder {
 }
 
 impl SegmentBuilder {
-    /// The size of this segment's _data_, in bytes
+    /// The size of this segment's _data_ in memory, in bytes
     pub fn size(&self) -> u64 {
         self.size
     }
@@ -486,9 +489,9 @@ impl SegmentBuilder {
                     weak: def.decl.is_weak(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            *symbol_offset += def.data.mem_size() as u64;
+            section_relative_offset += def.data.mem_size() as u64;
+            local_size += def.data.mem_size() as u64;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -519,7 +522,10 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        // zero-filled sections take no space in the file
+        if section.flags != S_ZEROFILL {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -691,7 +697,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -701,13 +706,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -715,9 +719,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String {
                         cstrings.push(def);
                     } else {
@@ -751,7 +754,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -806,9 +808,9 @@ impl<'a> Mach<'a> {
         // FIXME: de-magic number these
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
-        segment_load_command.filesize = self.segment.size();
+        segment_load_command.filesize = symtable_offset - first_section_offset;
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From d349b844b928fbd937d17d0233b7afd000c4b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 7/8] fix: align Mach-O sections as required by all of their
 definitions

---
 src/mach.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 76b219f..2173bf8 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -46,6 +46,14 @@ impl From<Architecture> for CpuType {
     }
 }
 
+fn align_up(offset: u64, align_exp: u64) -> u64 {
+    let align = 1 << align_exp;
+    match offset % align {
+        0 => offset,
+        rest => offset + (align - rest),
+    }
+}
+
 fn align_to_align_exp(align: u64) -> u64 {
     assert!(align != 0);
     assert!(align.is_power_of_two());
@@ -473,6 +481,15 @@ impl SegmentBuilder {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
         let mut alignment_exponent = min_alignment_exponent;
+        for def in definitions {
+            alignment_exponent = std::cmp::max(
+                alignment_exponent,
+                align_to_align_exp(def.decl.get_align().unwrap_or(1)),
+            );
+        }
+        // definitions are aligned relative to the section, so the section has to be aligned itself
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -500,7 +517,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
 
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
@@ -542,6 +558,9 @@ impl SegmentBuilder {
             DefinedDecl::Section(s) => s,
             _ => unreachable!("in build_custom_section: def.decl != Section"),
         };
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = *addr;
 
         let segment_name = match s.kind() {
             SectionKind::Data => "__DATA",
@@ -579,7 +598,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-- 
2.43.0


From 3c32870a021666f3990d3167d213b9fd4acfd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 8/8] fix: count each initial string of the ELF string table
 once

---
 src/elf.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a374b76..5f836f2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,9 +442,10 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
-                let offset = sizeof_strtab;
-                offsets.insert(idx, offset);
-                sizeof_strtab += size;
+                let offset = *offsets.entry(idx).or_insert(sizeof_strtab);
+                if offset == sizeof_strtab {
+                    sizeof_strtab += size;
+                }
                 offset
             };
 
-- 
2.43.0

