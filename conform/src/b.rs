//! executable twins of prelude.rs `fld`, `wrd`, `raw16`, `zeros` and sequence concatenation
use goblin::container::{Ctx, Endian};
pub struct B { pub a: [u8; 96], pub n: usize }
impl B { pub fn of(x: &[u8]) -> B { let mut b = B { a: [0; 96], n: x.len() }; let mut i = 0; while i < x.len() { b.a[i] = x[i]; i += 1 } b } }
impl std::ops::Add for B { type Output = B; fn add(mut self, o: B) -> B { let mut i = 0; while i < o.n { self.a[self.n] = o.a[i]; self.n += 1; i += 1 } self } }
pub fn fld(x: i128, n: usize, e: Endian) -> B {
    let mut b = B { a: [0; 96], n };
    let mut i = 0;
    // byte_of: (x / 256^i) mod 256, Euclidean
    while i < n { let k = if e == Endian::Little { i } else { n - 1 - i }; b.a[i] = (x >> (8 * k)) as u8; i += 1 }
    b
}
pub fn wrd(x: i128, c: Ctx) -> B { fld(x, if c.is_big() { 8 } else { 4 }, c.le) }
pub fn raw16(x: [u8; 16]) -> B { B::of(&x) }
pub fn zeros(n: usize) -> B { B { a: [0; 96], n } }
