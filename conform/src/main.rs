//! Do goblin and scroll encode what specs/prelude.rs assumes?  `cargo kani` proves it for all field values;
//! running the program compares sampled values, the constructors, sizes and the small container contracts.
/// Kani: goblin's encoder into a buffer; sampled: through scroll's `iowrite_with`, as faerie calls it
#[cfg(kani)]
#[macro_export]
macro_rules! write { ($b:ident, $h:ident, $c:ident, $n:expr) => { { use scroll::ctx::IntoCtx; assert!($n <= 96); $h.into_ctx(&mut $b[..$n], $c) } } }
#[cfg(not(kani))]
#[macro_export]
macro_rules! write { ($b:ident, $h:ident, $c:ident, $n:expr) => { { let mut w = &mut $b[..]; assert!(w.iowrite_with($h, $c).is_ok()); let rest = w.len(); assert!(96 - rest == $n) } } }
mod b;
#[allow(dead_code, unused_imports, unused_variables, unused_parens)]
mod gen;
#[cfg(not(kani))]
mod samples;
#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
#[cfg(not(kani))]
pub use samples::any;
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() { samples::main() }
