//! Prints token streams as text, one statement per line, and keeps for every generated line the source
//! line its tokens come from and the function it belongs to.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Default)]
pub struct Printer { out: String, line: usize, cur_fn: String, file: String, map: Vec<(usize, String, usize, String)>, src: usize, prev: Prev }
#[derive(Default, Clone, Copy, PartialEq)]
enum Prev { #[default] None, Ident, Open, Glue, Other }

impl Printer {
    pub fn set_fn(&mut self, f: &str) { self.cur_fn = f.to_string() }
    pub fn set_file(&mut self, f: &str) { self.file = f.to_string() }
    fn endline(&mut self) {
        self.map.push((self.line + 1, self.cur_fn.clone(), self.src, self.file.clone()));
        self.out.push('\n');
        self.line += 1;
        self.src = 0;
        self.prev = Prev::None;
    }
    pub fn nl(&mut self) { self.endline() }
    pub fn line(&mut self, s: &str) { self.text(s); self.endline() }
    pub fn text(&mut self, s: &str) {
        let mut first = true;
        for l in s.split('\n') { if !first { self.endline() } first = false; self.out.push_str(l) }
        self.prev = Prev::None;
        if !s.is_empty() && !s.ends_with('\n') { self.prev = Prev::Other }
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // __vx_raw!(N) ;   -> raw proof text number N
            if let TokenTree::Ident(id) = &v[i] {
                if id == "__vx_raw" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        self.endline();
                        self.out.push_str(&format!("\u{1}{}\u{2}", g.stream()));
                        self.endline();
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1 } }
                        continue;
                    }
                }
            }
            self.tt(&v[i]);
            i += 1;
        }
    }
    fn tt(&mut self, t: &TokenTree) {
        let l = t.span().start().line;
        if l > 1 && l > self.src && self.src == 0 { self.src = l }
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if g.delimiter() == Delimiter::Brace {
                    // invariants of a loop stand before its brace
                    let mut s = g.stream();
                    let v: Vec<TokenTree> = s.clone().into_iter().collect();
                    if let Some(TokenTree::Ident(id)) = v.first() { if id == "__vx_inv" { if let Some(TokenTree::Group(n)) = v.get(2) {
                        self.endline();
                        self.out.push_str(&format!("\u{1}{}\u{2}", n.stream()));
                        self.endline();
                        s = v[4..].iter().cloned().collect();
                    } } }
                    if self.prev != Prev::None { self.out.push(' ') }
                    self.out.push('{');
                    if s.is_empty() { self.out.push('}') } else {
                        self.endline();
                        self.tokens(s);
                        self.endline();
                        self.out.push('}');
                    }
                    self.prev = Prev::Other;
                } else {
                    if self.prev == Prev::Other && !o.is_empty() && o == "(" { self.out.push(' ') }
                    self.out.push_str(o);
                    self.prev = Prev::Open;
                    self.tokens(g.stream());
                    self.out.push_str(c);
                    self.prev = Prev::Ident;
                }
            }
            TokenTree::Ident(i) => { if matches!(self.prev, Prev::Ident | Prev::Other) { self.out.push(' ') } self.out.push_str(&i.to_string()); self.prev = Prev::Ident }
            TokenTree::Literal(i) => { if matches!(self.prev, Prev::Ident | Prev::Other) { self.out.push(' ') } self.out.push_str(&i.to_string()); self.prev = Prev::Ident }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == ';' { self.out.push(';'); self.endline(); return }
                if c == ',' { self.out.push(','); self.prev = Prev::Other; return }
                if c == '.' || c == ':' || c == '?' { self.out.push(c); self.prev = if c == '.' || p.spacing() == Spacing::Joint || c == ':' && self.out.ends_with("::") { Prev::Glue } else { Prev::Other }; return }
                if !matches!(self.prev, Prev::Glue | Prev::Open | Prev::None) { self.out.push(' ') }
                self.out.push(c);
                self.prev = if p.spacing() == Spacing::Joint || c == '&' && p.spacing() == Spacing::Alone || c == '!' || c == '\'' || c == '#' { Prev::Glue } else { Prev::Other };
            }
        }
    }
    /// replaces the proof-text markers and shifts the line map accordingly
    pub fn finish(self, raws: &[String]) -> (String, Vec<(usize, String, usize, String)>) {
        let mut text = String::new();
        let mut map = vec![];
        let mut n = 0;
        let by: std::collections::HashMap<usize, &(usize, String, usize, String)> = self.map.iter().map(|m| (m.0, m)).collect();
        for (i, l) in self.out.split('\n').enumerate() {
            let l2 = if let Some(a) = l.find('\u{1}') { let b = l.find('\u{2}').unwrap(); let k: usize = l[a + 1..b].trim().parse().unwrap(); format!("{}{}{}", &l[..a], raws[k], &l[b + 1..]) } else { l.to_string() };
            for s in l2.split('\n') {
                n += 1;
                if let Some(m) = by.get(&(i + 1)) { if !m.1.is_empty() { map.push((n, m.1.clone(), m.2, m.3.clone())) } }
                text.push_str(s);
                text.push('\n');
            }
        }
        (text, map)
    }
}
