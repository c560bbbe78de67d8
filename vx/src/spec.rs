//! Contract files: specs/*.spec
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub path: String, pub props: Vec<String>, pub ret: Option<String>, pub requires: String, pub ensures: String, pub other: String, pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>, pub proofs: Vec<(String, String)>, pub skip: Option<String>, pub types: Vec<(String, String)>,
}
impl FnSpec {
    pub fn clauses(&self) -> String {
        let mut s = String::new();
        if !self.requires.trim().is_empty() { s.push_str("    requires\n"); s.push_str(&self.requires) }
        if !self.ensures.trim().is_empty() { s.push_str("    ensures\n"); s.push_str(&self.ensures) }
        s.push_str(&self.other);
        s
    }
    pub fn nclauses(&self) -> usize {
        let c = |s: &str| s.lines().filter(|l| l.trim_end().ends_with(',')).count();
        c(&self.ensures) + self.loops.values().map(|l| c(l)).sum::<usize>()
    }
}
pub fn load(dir: &Path) -> BTreeMap<String, FnSpec> {
    let mut m = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "spec").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut cur: Vec<FnSpec> = vec![];
        let mut sec = String::new();
        let mut flush = |cur: &mut Vec<FnSpec>| { for c in cur.drain(..) { if m.insert(c.path.clone(), c.clone()).is_some() { panic!("two contracts for {}", c.path) } } };
        for l in text.lines() {
            if let Some(d) = l.strip_prefix('@') {
                let (w, rest) = match d.split_once(' ') { Some((a, b)) => (a, b.trim()), None => (d.trim(), "") };
                match w {
                    "fn" => {
                        flush(&mut cur);
                        let (names, props) = match rest.split_once('#') { Some((a, b)) => (a.trim(), b.split(',').map(|x| x.trim().to_string()).collect()), None => (rest, vec![]) };
                        // a::{B,C}::d
                        let list: Vec<String> = match (names.find('{'), names.find('}')) { (Some(a), Some(b)) => names[a + 1..b].split(',').map(|x| format!("{}{}{}", &names[..a], x.trim(), &names[b + 1..])).collect(), _ => vec![names.to_string()] };
                        cur = list.into_iter().map(|p| FnSpec { path: p, props: Clone::clone(&props), ..Default::default() }).collect();
                        sec = String::new();
                    }
                    "ret" => for c in &mut cur { c.ret = Some(rest.to_string()) },
                    "attr" => for c in &mut cur { c.attrs.push(rest.to_string()) },
                    "type" => { let (n, t) = rest.split_once(' ').unwrap(); for c in &mut cur { c.types.push((n.to_string(), t.trim().to_string())) } }
                    "skip" => for c in &mut cur { c.skip = Some(rest.to_string()) },
                    "requires" | "ensures" | "other" => { sec = w.to_string() }
                    "loop" => { sec = format!("loop {}", rest); let n: usize = rest.parse().unwrap(); for c in &mut cur { c.loops.insert(n, String::new()); } }
                    "proof" => { sec = "proof".into(); for c in &mut cur { c.proofs.push((rest.to_string(), String::new())) } }
                    "end" => { flush(&mut cur); sec = String::new() }
                    _ => panic!("{}: unknown directive @{}", f.display(), d),
                }
                continue;
            }
            if cur.is_empty() { continue }
            for c in &mut cur {
                let t = match sec.as_str() {
                    "requires" => &mut c.requires, "ensures" => &mut c.ensures, "other" => &mut c.other,
                    "proof" => &mut c.proofs.last_mut().unwrap().1,
                    s if s.starts_with("loop ") => c.loops.get_mut(&s[5..].parse().unwrap()).unwrap(),
                    _ => continue,
                };
                t.push_str(l);
                t.push('\n');
            }
        }
        flush(&mut cur);
    }
    m
}
