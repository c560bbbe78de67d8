//! A case: one history of public API calls, with a textual form used for replay files.
use faerie::{DataDecl, DataType, Decl, FunctionDecl, Reloc, Scope, SectionDecl, SectionKind, Visibility};
use faerie::ImportKind;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt { Elf, Macho }

#[derive(Clone, Debug, PartialEq)]
pub enum Bytes { Raw(Vec<u8>), Fill(u8, usize), Zero(usize) }
impl Bytes {
    pub fn is_zero(&self) -> bool { matches!(self, Bytes::Zero(_)) }
    pub fn blob(&self) -> Option<Vec<u8>> {
        match self { Bytes::Raw(v) => Some(v.clone()), Bytes::Fill(b, n) => Some(vec![*b; *n]), Bytes::Zero(_) => None }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Declare(String, Decl),
    Import(String, ImportKind),
    Declarations(Vec<(String, Decl)>),
    Define(String, Bytes, Vec<(String, u64)>),
    DeclareWith(String, Decl, Bytes),
    Link(String, String, u64, Reloc),
    /// emit in the middle of the history
    Emit,
    /// N functions named <prefix>0.. declared and defined with one byte each
    Bulk(String, usize),
    /// declare+define N one-byte debug sections <prefix>0..
    BulkSect(String, usize),
    /// for i in 0..n: link <prefix>i -> to at 0 raw 1 0
    BulkLink(String, usize, String),
}

#[derive(Clone, Debug)]
pub struct Case { pub triple: String, pub fmt: Fmt, pub name: String, pub ops: Vec<Op> }

pub fn esc(s: &str) -> String {
    let mut o = String::from("'");
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' && b != b',' && b != b'=' && b != b'\'' { o.push(b as char) } else { o.push_str(&format!("%{:02x}", b)) }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let s = s.strip_prefix('\'').unwrap_or(s);
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' { v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } else { v.push(b[i]); i += 1 }
    }
    String::from_utf8(v).unwrap()
}

fn al(a: Option<u64>) -> String { a.map(|x| x.to_string()).unwrap_or("-".into()) }
fn pal(s: &str) -> Option<u64> { if s == "-" { None } else { Some(s.parse().unwrap()) } }

pub fn decl_str(d: &Decl) -> String {
    use faerie::artifact::DefinedDecl::*;
    match d {
        Decl::Import(ImportKind::Function) => "importfn".into(),
        Decl::Import(ImportKind::Data) => "importdata".into(),
        Decl::Defined(Function(f)) => format!("fn:{:?}:{:?}:{}", f.get_scope(), f.get_visibility(), al(f.get_align())),
        Decl::Defined(Data(f)) => format!("data:{:?}:{:?}:{}:{}:{:?}", f.get_scope(), f.get_visibility(), al(f.get_align()), if f.is_writable() { "rw" } else { "ro" }, f.get_datatype()),
        Decl::Defined(Section(s)) => format!("section:{:?}:{:?}:{}", s.kind(), s.get_datatype(), al(s.get_align())),
    }
}
fn scope(s: &str) -> Scope { match s { "Global" => Scope::Global, "Local" => Scope::Local, "Weak" => Scope::Weak, _ => panic!("scope {}", s) } }
fn vis(s: &str) -> Visibility { match s { "Default" => Visibility::Default, "Protected" => Visibility::Protected, "Hidden" => Visibility::Hidden, _ => panic!("vis {}", s) } }
fn dty(s: &str) -> DataType { match s { "Bytes" => DataType::Bytes, "String" => DataType::String, _ => panic!("dty {}", s) } }
fn skind(s: &str) -> SectionKind { match s { "Data" => SectionKind::Data, "Debug" => SectionKind::Debug, "Text" => SectionKind::Text, _ => panic!("kind {}", s) } }
pub fn mk_fn(s: Scope, v: Visibility, a: Option<u64>) -> FunctionDecl { Decl::function().with_scope(s).with_visibility(v).with_align(a) }
pub fn mk_data(s: Scope, v: Visibility, a: Option<u64>, w: bool, t: DataType) -> DataDecl { Decl::data().with_scope(s).with_visibility(v).with_align(a).with_writable(w).with_datatype(t) }
pub fn mk_sect(k: SectionKind, t: DataType, a: Option<u64>) -> SectionDecl { Decl::section(k).with_datatype(t).with_align(a) }

pub fn parse_decl(s: &str) -> Decl {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "importfn" => Decl::function_import().into(),
        "importdata" => Decl::data_import().into(),
        "fn" => mk_fn(scope(p[1]), vis(p[2]), pal(p[3])).into(),
        "data" => mk_data(scope(p[1]), vis(p[2]), pal(p[3]), p[4] == "rw", dty(p[5])).into(),
        "section" => mk_sect(skind(p[1]), dty(p[2]), pal(p[3])).into(),
        x => panic!("decl {}", x),
    }
}
fn bytes_str(b: &Bytes) -> String {
    match b {
        Bytes::Raw(v) => format!("hex:{}", v.iter().map(|x| format!("{:02x}", x)).collect::<String>()),
        Bytes::Fill(b, n) => format!("fill:{}:{}", b, n),
        Bytes::Zero(n) => format!("zero:{}", n),
    }
}
fn parse_bytes(s: &str) -> Bytes {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "hex" => Bytes::Raw((0..p[1].len() / 2).map(|i| u8::from_str_radix(&p[1][2 * i..2 * i + 2], 16).unwrap()).collect()),
        "fill" => Bytes::Fill(p[1].parse().unwrap(), p[2].parse().unwrap()),
        "zero" => Bytes::Zero(p[1].parse().unwrap()),
        x => panic!("bytes {}", x),
    }
}
fn reloc_str(r: &Reloc) -> String {
    match r { Reloc::Auto => "auto".into(), Reloc::Raw { reloc, addend } => format!("raw:{}:{}", reloc, addend), Reloc::Debug { size, addend } => format!("debug:{}:{}", size, addend) }
}
fn parse_reloc(s: &str) -> Reloc {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] { "auto" => Reloc::Auto, "raw" => Reloc::Raw { reloc: p[1].parse().unwrap(), addend: p[2].parse().unwrap() }, "debug" => Reloc::Debug { size: p[1].parse().unwrap(), addend: p[2].parse().unwrap() }, x => panic!("reloc {}", x) }
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut o = format!("triple {}\nformat {}\nname {}\n", self.triple, if self.fmt == Fmt::Elf { "elf" } else { "macho" }, esc(&self.name));
        for op in &self.ops {
            let l = match op {
                Op::Declare(n, d) => format!("declare {} {}", esc(n), decl_str(d)),
                Op::Import(n, k) => format!("import {} {}", esc(n), if *k == ImportKind::Function { "fn" } else { "data" }),
                Op::Declarations(v) => format!("declarations {}", v.iter().map(|(n, d)| format!("{}={}", esc(n), decl_str(d))).collect::<Vec<_>>().join(",")),
                Op::Define(n, b, s) => format!("define {} {} {}", esc(n), bytes_str(b), s.iter().map(|(n, o)| format!("{}={}", esc(n), o)).collect::<Vec<_>>().join(",")),
                Op::DeclareWith(n, d, b) => format!("declare_with {} {} {}", esc(n), decl_str(d), bytes_str(b)),
                Op::Link(f, t, at, r) => format!("link {} {} {} {}", esc(f), esc(t), at, reloc_str(r)),
                Op::Emit => "emit".into(),
                Op::Bulk(p, n) => format!("bulk {} {}", esc(p), n),
                Op::BulkSect(p, n) => format!("bulksect {} {}", esc(p), n),
                Op::BulkLink(p, n, t) => format!("bulklink {} {} {}", esc(p), n, esc(t)),
            };
            o.push_str(&l);
            o.push('\n');
        }
        o
    }
    pub fn parse(s: &str) -> Case {
        let mut c = Case { triple: String::new(), fmt: Fmt::Elf, name: String::new(), ops: vec![] };
        for l in s.lines() {
            if l.starts_with('#') || l.trim().is_empty() { continue }
            let w: Vec<&str> = l.split(' ').collect();
            let pairs = |s: &str| -> Vec<(String, String)> {
                if s.is_empty() { return vec![] }
                s.split(',').map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (unesc(k), v.to_string()) }).collect()
            };
            match w[0] {
                "triple" => c.triple = w[1].into(),
                "format" => c.fmt = if w[1] == "elf" { Fmt::Elf } else { Fmt::Macho },
                "name" => c.name = unesc(w.get(1).unwrap_or(&"")),
                "declare" => c.ops.push(Op::Declare(unesc(w[1]), parse_decl(w[2]))),
                "import" => c.ops.push(Op::Import(unesc(w[1]), if w[2] == "fn" { ImportKind::Function } else { ImportKind::Data })),
                "declarations" => c.ops.push(Op::Declarations(pairs(w[1]).into_iter().map(|(k, v)| (k, parse_decl(&v))).collect())),
                "define" => c.ops.push(Op::Define(unesc(w[1]), parse_bytes(w[2]), pairs(w.get(3).unwrap_or(&"")).into_iter().map(|(k, v)| (k, v.parse().unwrap())).collect())),
                "declare_with" => c.ops.push(Op::DeclareWith(unesc(w[1]), parse_decl(w[2]), parse_bytes(w[3]))),
                "link" => c.ops.push(Op::Link(unesc(w[1]), unesc(w[2]), w[3].parse().unwrap(), parse_reloc(w[4]))),
                "emit" => c.ops.push(Op::Emit),
                "bulk" => c.ops.push(Op::Bulk(unesc(w[1]), w[2].parse().unwrap())),
                "bulksect" => c.ops.push(Op::BulkSect(unesc(w[1]), w[2].parse().unwrap())),
                "bulklink" => c.ops.push(Op::BulkLink(unesc(w[1]), w[2].parse().unwrap(), unesc(w[3]))),
                x => panic!("unknown line {}", x),
            }
        }
        c
    }
}
