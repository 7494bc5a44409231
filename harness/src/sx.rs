//! Hooks: under the symbolic executor these are intrinsics; natively they read a recorded counterexample.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_assume(c: u64);
        pub fn sx_assert(c: u64, code: u32);
        pub fn sx_assert_eq(a: *const u8, b: *const u8, n: usize, code: u32);
        pub fn sx_fail(code: u32) -> !;
        pub fn sx_reach(code: u32);
        pub fn sx_param(i: u32) -> i64;
        pub fn sx_vbuf(n: usize, fill: u8) -> *const u8;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_ite(c: u64, a: u64, b: u64) -> u64;
        pub fn sx_end() -> !;
    }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub enum Ev { B(Vec<u8>), C(u64, u64) }
    pub struct Replay { pub params: Vec<i64>, pub evs: std::collections::VecDeque<Ev> }
    thread_local!(pub static R: RefCell<Replay> = RefCell::new(Replay { params: vec![], evs: Default::default() }));
    thread_local!(pub static RH: std::cell::Cell<u64> = std::cell::Cell::new(0));
    pub const END: i32 = 41;
    pub const FAIL: i32 = 42;
    fn mismatch() -> ! { println!("REPLAY-MISMATCH"); std::process::exit(3) }
    pub unsafe fn sx_bytes(p: *mut u8, n: usize) {
        R.with(|r| match r.borrow_mut().evs.pop_front() {
            // past the recorded trace the run is free: use zeroes
            None => { for i in 0..n { *p.add(i) = 0; } }
            Some(Ev::B(b)) if b.len() == n => { for i in 0..n { *p.add(i) = b[i]; } }
            _ => mismatch(),
        })
    }
    pub unsafe fn sx_choose(n: u64) -> u64 {
        R.with(|r| match r.borrow_mut().evs.pop_front() { None => 0, Some(Ev::C(m, v)) if m == n => v, _ => mismatch() })
    }
    pub unsafe fn sx_assume(c: u64) { if c == 0 { println!("REPLAY-ASSUME"); std::process::exit(4) } }
    pub unsafe fn sx_assert(c: u64, code: u32) { if c == 0 { sx_fail(code) } }
    pub unsafe fn sx_assert_eq(a: *const u8, b: *const u8, n: usize, code: u32) {
        for i in 0..n { if *a.add(i) != *b.add(i) { sx_fail(code) } }
    }
    pub unsafe fn sx_fail(code: u32) -> ! { println!("REPLAY-FAIL {}", code); std::process::exit(FAIL) }
    pub unsafe fn sx_reach(k: u32) { RH.with(|h| h.set((h.get() * 31 + k as u64 + 1) & 0xffffffff)) }
    pub unsafe fn sx_param(i: u32) -> i64 { R.with(|r| r.borrow().params[i as usize]) }
    pub unsafe fn sx_vbuf(n: usize, fill: u8) -> *const u8 {
        // untouched pages cost nothing
        extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
        let p = mmap(core::ptr::null_mut(), n + 4096, 3, 0x4022, -1, 0);
        if p as isize == -1 { println!("REPLAY-NOMEM"); std::process::exit(7) }
        if fill != 0 { core::ptr::write_bytes(p, fill, n); }
        p
    }
    pub unsafe fn sx_concretize(v: u64) -> u64 { v }
    pub unsafe fn sx_ite(c: u64, a: u64, b: u64) -> u64 { if c != 0 { a } else { b } }
    pub unsafe fn sx_end() -> ! { println!("REPLAY-END"); std::process::exit(END) }
}
pub fn bytes(b: &mut [u8]) { unsafe { imp::sx_bytes(b.as_mut_ptr(), b.len()) } }
pub fn byte() -> u8 { let mut b = [0u8; 1]; bytes(&mut b); b[0] }
pub fn choose(n: usize) -> usize { unsafe { imp::sx_choose(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { imp::sx_assume(c as u64) } }
/// Which kind of obligation a code belongs to; parameter 15 selects the kinds the property at hand is about.
pub const SAFE: i64 = 1; pub const RES: i64 = 2; pub const CNT: i64 = 4; pub const PAUSE: i64 = 8; pub const FINAL: i64 = 16; pub const UTF: i64 = 32;
fn kind(code: u32) -> i64 {
    match code {
        913 => SAFE,
        103 | 203 | 910 | 911 | 916 | 918 => CNT,
        901 | 912 | 915 => PAUSE,
        919 => PAUSE | RES | FINAL,
        914 | 917 | 300..=399 => FINAL,
        100..=299 | 400..=699 => RES,
        700..=749 => SAFE,
        750..=799 => UTF,
        _ => -1,
    }
}
pub fn on(code: u32) -> bool { kind(code) & param(15) != 0 }
pub fn check(c: bool, code: u32) { if on(code) { unsafe { imp::sx_assert(c as u64, code) } } }
pub fn check_eq(a: &[u8], b: &[u8], code: u32) { if on(code) { unsafe { imp::sx_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), code) } } }
/// Parameters 16: number of repetitions (0: none), 17: size of the buffers (0: `n`), 18 and 19: extent of the repeated part.
pub fn size(n: usize) -> usize { if param(16) == 0 { n } else { param(17) as usize } }
pub fn buf<T: Copy>(n: usize, zero: T) -> &'static mut [T] { let mut v = Vec::with_capacity(n); v.resize(n, zero); v.leak() }
/// `t`, or with its part repeated
pub fn text(t: &'static [u8]) -> &'static [u8] {
    let k = param(16) as usize;
    if k == 0 { return t }
    let (a, b) = (param(18) as usize, param(19) as usize);
    let u = b - a;
    let n = t.len() + (k - 1) * u;
    let r = buf(n, 0u8);
    r[..b].copy_from_slice(&t[..b]);
    let mut have = u;
    while have < k * u {
        let m = if have * 2 > k * u { k * u - have } else { have };
        let (x, y) = r.split_at_mut(a + have);
        y[..m].copy_from_slice(&x[a..a + m]);
        have += m;
    }
    r[a + k * u..].copy_from_slice(&t[b..]);
    r
}
pub fn fail(code: u32) -> ! { unsafe { imp::sx_fail(code) } }
pub fn reach(code: u32) { unsafe { imp::sx_reach(code) } }
pub fn param(i: u32) -> i64 { unsafe { imp::sx_param(i) } }
pub fn vbuf(n: usize) -> &'static [u8] { unsafe { core::slice::from_raw_parts(imp::sx_vbuf(n, 0), n) } }
pub fn concretize(v: u64) -> u64 { unsafe { imp::sx_concretize(v) } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { imp::sx_ite(c as u64, a, b) } }
pub fn end() -> ! { unsafe { imp::sx_end() } }
