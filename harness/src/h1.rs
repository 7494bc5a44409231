//! HTTP/1 handler, driver and contexts.
use crate::log::Log;
use crate::sx;
use http_box::fsm::Success;
use http_box::http1::{HttpHandler, Parser, ParserError, ParserState};

pub const METHOD: u16 = 0x101; pub const URL: u16 = 0x102; pub const VERSION: u16 = 0x103; pub const INITIAL: u16 = 0x104;
pub const SCODE: u16 = 0x105; pub const STATUS: u16 = 0x106; pub const HNAME: u16 = 0x107; pub const HVALUE: u16 = 0x108;
pub const HFIN: u16 = 0x109; pub const CBEGIN: u16 = 0x10a; pub const CLEN: u16 = 0x10b; pub const CXNAME: u16 = 0x10c;
pub const CXVALUE: u16 = 0x10d; pub const CXFIN: u16 = 0x10e; pub const CXSFIN: u16 = 0x10f; pub const CDATA: u16 = 0x110;
pub const MBEGIN: u16 = 0x111; pub const MDATA: u16 = 0x112; pub const UBEGIN: u16 = 0x113; pub const UNAME: u16 = 0x114;
pub const UVALUE: u16 = 0x115; pub const BFIN: u16 = 0x116;

pub const P_NONE: u8 = 0; pub const P_ONE: u8 = 1; pub const P_ALL: u8 = 2; pub const P_TWO: u8 = 3; pub const P_SYM: u8 = 4;

pub struct H1 { pub log: Log, pub calls: u32, pub pause: u8, pub at: u32, pub at2: u32, pub stopped: bool, pub lens: &'static [Option<usize>], pub part: usize, pub fixed: u32, pub last: u16, pub stop_fixed: i32, pub head: bool, pub done: bool }
impl H1 {
    pub fn new(lens: &'static [Option<usize>]) -> H1 { H1 { log: Log::new(), calls: 0, pause: P_NONE, at: 0, at2: 0, stopped: false, lens, part: 0, fixed: 0, last: 0, stop_fixed: -1, head: false, done: false } }
    fn ret(&mut self) -> bool {
        sx::check(!self.stopped, 901); // a callback after one that returned false, within the same call
        sx::check(!self.done, 308);
        let k = self.calls; self.calls += 1;
        let stop = match self.pause { P_NONE => false, P_ONE => k == self.at, P_TWO => k == self.at || k == self.at2, P_ALL => true, _ => sx::choose(2) == 1 };
        self.stopped = stop;
        !stop
    }
    fn ev(&mut self, k: u16) -> bool { self.log.ev(k); self.fix(k) }
    fn fix(&mut self, k: u16) -> bool { self.last = k; let f = self.fixed; self.fixed += 1; let r = self.ret(); self.stop_fixed = if r { -1 } else { f as i32 }; r }
    fn data(&mut self, k: u16, d: &[u8]) -> bool { self.log.data(k, d); self.stop_fixed = -1; self.ret() }
}
impl HttpHandler for H1 {
    // the answer depends on the number of header blocks seen, not on how often it is asked
    fn content_length(&mut self) -> Option<usize> { let i = self.part.saturating_sub(1); if i < self.lens.len() { self.lens[i] } else { self.lens[self.lens.len() - 1] } }
    fn on_body_finished(&mut self) -> bool { let r = self.ev(BFIN); self.done = true; r }
    fn on_chunk_begin(&mut self) -> bool { self.ev(CBEGIN) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data(CDATA, d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.ev(CXFIN) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.data(CXNAME, d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.data(CXVALUE, d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.ev(CXSFIN) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.log.ev(CLEN); self.log.num(n as u64, 8); self.fix(CLEN) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.data(HNAME, d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data(HVALUE, d) }
    fn on_headers_finished(&mut self) -> bool { self.part += 1; let r = self.ev(HFIN); self.done = self.head; r }
    fn on_initial_finished(&mut self) -> bool { self.ev(INITIAL) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.data(METHOD, d) }
    fn on_multipart_begin(&mut self) -> bool { self.ev(MBEGIN) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data(MDATA, d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.data(STATUS, d) }
    fn on_status_code(&mut self, c: u16) -> bool { self.log.ev(SCODE); self.log.num(c as u64, 2); self.fix(SCODE) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.data(URL, d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.ev(UBEGIN) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data(UNAME, d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.data(UVALUE, d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.log.ev(VERSION); self.log.num(a as u64, 2); self.log.num(b as u64, 2); self.fix(VERSION) }
}

// error kinds
pub const E_NONE: u8 = 0; pub const E_CXNAME: u8 = 1; pub const E_CXVALUE: u8 = 2; pub const E_CLEN: u8 = 3; pub const E_CRLF: u8 = 4;
pub const E_DEAD: u8 = 5; pub const E_HNAME: u8 = 6; pub const E_HVALUE: u8 = 7; pub const E_METHOD: u8 = 9; pub const E_MBOUND: u8 = 11;
pub const E_STATUS: u8 = 12; pub const E_SCODE: u8 = 13; pub const E_URL: u8 = 14; pub const E_UNAME: u8 = 15; pub const E_UVALUE: u8 = 16;
pub const E_VERSION: u8 = 17;
pub fn err(e: &ParserError) -> (u8, u8) {
    match *e {
        ParserError::ChunkExtensionName(b) => (E_CXNAME, b), ParserError::ChunkExtensionValue(b) => (E_CXVALUE, b),
        ParserError::ChunkLength(b) => (E_CLEN, b), ParserError::CrlfSequence(b) => (E_CRLF, b), ParserError::Dead => (E_DEAD, 0),
        ParserError::HeaderName(b) => (E_HNAME, b), ParserError::HeaderValue(b) => (E_HVALUE, b), ParserError::ChunkLengthOverflow => (8, 0),
        ParserError::Method(b) => (E_METHOD, b), ParserError::Multipart(b) => (10, b), ParserError::MultipartBoundary(b) => (E_MBOUND, b),
        ParserError::Status(b) => (E_STATUS, b), ParserError::StatusCode(b) => (E_SCODE, b), ParserError::Url(b) => (E_URL, b),
        ParserError::UrlEncodedName(b) => (E_UNAME, b), ParserError::UrlEncodedValue(b) => (E_UVALUE, b), ParserError::Version(b) => (E_VERSION, b),
    }
}
pub const EOS: u8 = 0; pub const FIN: u8 = 1; pub const ERR: u8 = 2;
#[derive(Clone, Copy)]
pub struct Out { pub kind: u8, pub ek: u8, pub eb: u8, pub used: usize }

pub type P<'a> = Parser<'a, H1>;
pub const M_NEW: u8 = 0; pub const M_HEAD: u8 = 1; pub const M_CHUNK: u8 = 2; pub const M_MULTI: u8 = 3; pub const M_URL: u8 = 4;
pub struct Ctx { pub mode: u8, pub boundary: &'static [u8], pub lens: &'static [Option<usize>], pub text: &'static [u8] }
pub fn init<'a>(p: &mut P<'a>, mode: u8, boundary: &'a [u8], len: usize) {
    match mode {
        M_NEW => {}
        M_HEAD => p.init_head(),
        M_CHUNK => p.init_chunked(),
        M_MULTI => { p.init_multipart(); p.set_boundary(boundary) }
        _ => { p.init_url_encoded(); p.set_length(len) }
    }
}
/// Feed one piece, resuming after every pause. `refpos`: input offsets at which the reference places the fixed events.
pub fn piece(p: &mut P, h: &mut H1, d: &[u8], base: usize, rp: Option<&[(u16, usize)]>) -> Out {
    let mut off = 0;
    let mut rounds = 0;
    loop {
        // a pause that keeps coming back
        rounds += 1;
        if rounds > 4 * d.len() + 16 { sx::check(false, 919); sx::end() }
        h.stopped = false;
        let before = p.byte_count();
        // an allocation of exactly this size: reading outside it is caught, and so is keeping a reference to an old one
        let rest = d[off..].to_vec();
        let r = p.resume(h, &rest);
        let adv = p.byte_count().wrapping_sub(before);
        match r {
            Ok(Success::Eos(n)) => {
                sx::check(n == rest.len(), 910);
                sx::check(adv == n, 911);
                sx::check(!h.stopped, 912);
                return Out { kind: EOS, ek: 0, eb: 0, used: off + n };
            }
            Ok(Success::Finished(n)) => {
                sx::check(n <= rest.len(), 913);
                sx::check(adv == n, 911);
                sx::check(!h.stopped, 912);
                sx::check(p.state() == ParserState::Finished, 914);
                return Out { kind: FIN, ek: 0, eb: 0, used: off + n };
            }
            Ok(Success::Callback(n)) => {
                sx::check(n <= rest.len(), 913);
                sx::check(adv == n, 911);
                sx::check(h.stopped, 915);
                if n > rest.len() { sx::end() }
                off += n;
                if let Some(rp) = rp {
                    if h.stop_fixed >= 0 { let f = h.stop_fixed as usize; if f < rp.len() && rp[f].0 == h.last { sx::check(rp[f].1 == base + off, 916) } }
                }
            }
            Err(e) => {
                sx::check(adv <= rest.len(), 913);
                sx::check(!h.stopped, 912);
                sx::check(p.state() == ParserState::Dead, 917);
                let (ek, eb) = err(&e);
                return Out { kind: ERR, ek, eb, used: off + adv };
            }
        }
    }
}
/// Feed `d` cut at the given positions (ascending, may repeat); stops at the first end or error.
pub fn feed(p: &mut P, h: &mut H1, d: &[u8], cuts: &[usize], rp: Option<&[(u16, usize)]>) -> Out {
    let mut at = 0;
    for i in 0..=cuts.len() {
        let end = if i < cuts.len() { cuts[i] } else { d.len() };
        let o = piece(p, h, &d[at..end], at, rp);
        if o.kind != EOS || i == cuts.len() { return Out { used: at + o.used, ..o }; }
        at = end;
    }
    sx::fail(902)
}
