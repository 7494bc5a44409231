//! Event log. Entries below 0x100 are data bytes; markers are 0x100 and above. Consecutive data of one kind is joined.
use crate::sx;
pub const CAP: usize = 1200;
pub struct Log { pub d: &'static mut [u16], pub n: usize, last: u16 }
impl Log {
    pub fn new() -> Log { Log { d: sx::buf(sx::size(CAP), 0u16), n: 0, last: 0 } }
    fn put(&mut self, v: u16) { if self.n >= self.d.len() { sx::fail(900) } self.d[self.n] = v; self.n += 1; }
    /// an event without streaming data
    pub fn ev(&mut self, kind: u16) { self.put(kind); self.last = 0; }
    pub fn num(&mut self, v: u64, bytes: usize) { for i in 0..bytes { self.put((v >> (8 * (bytes - 1 - i)) & 0xff) as u16); } }
    /// a piece of streaming data
    pub fn data(&mut self, kind: u16, d: &[u8]) {
        if self.last != kind { self.put(kind); self.last = kind; }
        // the extent of the piece becomes concrete (one path per length)
        let n = sx::concretize(d.len() as u64) as usize;
        let p = sx::concretize(d.as_ptr() as u64) as *const u8;
        let d = unsafe { core::slice::from_raw_parts(p, n) };
        for &b in d { self.put(b as u16); }
    }
    pub fn raw(&self, n: usize) -> &[u8] { unsafe { core::slice::from_raw_parts(self.d.as_ptr() as *const u8, 2 * n) } }
    pub fn same(&self, o: &Log, code: u32) { sx::check(self.n == o.n, code); sx::check_eq(self.raw(self.n), o.raw(o.n), code); }
    /// Equal, except that the item the error lies in may be delivered to a lesser extent (or not at all) in either log.
    pub fn same_upto_item(&self, o: &Log, code: u32) { if self.n <= o.n { self.prefix_of(o, code) } else { o.prefix_of(self, code) } }
    pub fn prefix_of(&self, o: &Log, code: u32) {
        sx::check(self.n <= o.n, code);
        sx::check_eq(self.raw(self.n), o.raw(self.n), code);
        for i in self.n + 1..o.n { sx::check(o.d[i] < 0x100, code); }
    }
}
