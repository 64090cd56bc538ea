//! Harness primitives.  Under the symbolic executor the `sym_*` symbols are
//! intercepted; in a native build they come from rt.c, which replays recorded values.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choice(n: u64) -> u64;
    fn sym_arg(i: u64) -> u64;
    fn sym_concrete(x: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, id: u64);
    fn sym_assert_eq(a: *const u8, b: *const u8, n: usize, id: u64);
    fn sym_reach(id: u64);
    fn sym_out(x: u64);
    fn sym_live() -> u64;
    fn sym_init();
}
/// fill a buffer with unconstrained bytes
pub fn bytes(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    v
}
pub fn u8v() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16v() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32v() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64v() -> u64 {
    unsafe { sym_u64() }
}
/// explore every value below n, concretely
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u64) as usize }
}
/// a parameter of the run (bound)
pub fn arg(i: usize) -> usize {
    unsafe { sym_arg(i as u64) as usize }
}
/// split on every feasible value
pub fn concrete(x: u64) -> u64 {
    unsafe { sym_concrete(x) }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn check(b: bool, id: u64) {
    unsafe { sym_assert(b, id) }
}
pub fn reach(id: u64) {
    unsafe { sym_reach(id) }
}
pub fn out(x: u64) {
    unsafe { sym_out(x) }
}
/// native runs only: read the environment
pub fn init() {
    unsafe { sym_init() }
}
/// bytes currently allocated
pub fn live() -> u64 {
    unsafe { sym_live() }
}
/// element-wise comparison
pub fn check_eq(a: &[u8], b: &[u8], id: u64) {
    check(a.len() == b.len(), id + 1000);
    unsafe { sym_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), id) }
}
pub fn check_eq16(a: &[u16], b: &[u16], id: u64) {
    check(a.len() == b.len(), id + 1000);
    unsafe { sym_assert_eq(a.as_ptr().cast(), b.as_ptr().cast(), 2 * a.len(), id) }
}

#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        fn main() {
            $crate::init();
            let name = std::env::args().nth(1).unwrap_or_default();
            let table: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
            for (n, f) in table {
                if *n == name {
                    f();
                    return;
                }
            }
            eprintln!("no such harness");
            std::process::exit(64);
        }
    };
}
