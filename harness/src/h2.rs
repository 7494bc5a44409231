//! HTTP/2 handler, driver and reference model.
use crate::h1::{Out, EOS, ERR, P_ALL, P_NONE, P_ONE, P_TWO};
use crate::log::Log;
use crate::sx;
use http_box::fsm::Success;
use http_box::http2::{HttpHandler, Parser, ParserState};

pub const FORMAT: u16 = 0x201; pub const DATA: u16 = 0x202; pub const FRAG: u16 = 0x203; pub const PING: u16 = 0x204; pub const DEBUG: u16 = 0x205;
pub const OTHER: u16 = 0x206; pub const GOAWAY: u16 = 0x207; pub const HEADERS: u16 = 0x208; pub const PRIO: u16 = 0x209; pub const PROMISE: u16 = 0x20a;
pub const RST: u16 = 0x20b; pub const SETTING: u16 = 0x20c; pub const WINDOW: u16 = 0x20d;
pub const LAST: u16 = 0x40; // added to a data kind: the finished flag

pub struct H2 { pub log: Log, pub calls: u32, pub pause: u8, pub at: u32, pub at2: u32, pub stopped: bool, pub fixed: u32, pub last: u16, pub stop_fixed: i32 }
impl H2 {
    pub fn new() -> H2 { H2 { log: Log::new(), calls: 0, pause: P_NONE, at: 0, at2: 0, stopped: false, fixed: 0, last: 0, stop_fixed: -1 } }
    fn ret(&mut self) -> bool {
        sx::check(!self.stopped, 901);
        let k = self.calls; self.calls += 1;
        let stop = match self.pause { P_NONE => false, P_ONE => k == self.at, P_TWO => k == self.at || k == self.at2, P_ALL => true, _ => sx::choose(2) == 1 };
        self.stopped = stop;
        !stop
    }
    fn fix(&mut self, k: u16) -> bool { self.last = k; let f = self.fixed; self.fixed += 1; let r = self.ret(); self.stop_fixed = if r { -1 } else { f as i32 }; r }
    fn data(&mut self, k: u16, d: &[u8], fin: bool) -> bool {
        let n = sx::concretize(d.len() as u64) as usize;
        if n > 0 { self.log.data(k, d) }
        if fin { self.log.ev(k | LAST); return self.fix(k | LAST) }
        self.stop_fixed = -1;
        self.ret()
    }
}
fn prio(l: &mut Log, k: u16, e: bool, s: u32, w: u8) { l.ev(k); l.num(sx::ite(e, 1, 0), 1); l.num(s as u64, 4); l.num(w as u64, 1) }
impl HttpHandler for H2 {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.data(DATA, d, f) }
    fn on_frame_format(&mut self, len: u32, t: u8, flags: u8, id: u32) -> bool {
        self.log.ev(FORMAT); self.log.num(len as u64, 4); self.log.num(t as u64, 1); self.log.num(flags as u64, 1); self.log.num(id as u64, 4);
        self.fix(FORMAT)
    }
    fn on_go_away(&mut self, id: u32, code: u32) -> bool { self.log.ev(GOAWAY); self.log.num(id as u64, 4); self.log.num(code as u64, 4); self.fix(GOAWAY) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.data(DEBUG, d, f) }
    fn on_headers(&mut self, e: bool, s: u32, w: u8) -> bool { prio(&mut self.log, HEADERS, e, s, w); self.fix(HEADERS) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.data(FRAG, d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.data(PING, d, f) }
    fn on_priority(&mut self, e: bool, s: u32, w: u8) -> bool { prio(&mut self.log, PRIO, e, s, w); self.fix(PRIO) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.log.ev(PROMISE); self.log.num(s as u64, 4); self.fix(PROMISE) }
    fn on_rst_stream(&mut self, c: u32) -> bool { self.log.ev(RST); self.log.num(c as u64, 4); self.fix(RST) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.log.ev(SETTING); self.log.num(i as u64, 2); self.log.num(v as u64, 4); self.fix(SETTING) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.data(OTHER, d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.log.ev(WINDOW); self.log.num(n as u64, 4); self.fix(WINDOW) }
}
pub type P2<'a> = Parser<'a, H2>;
/// Feed one piece, resuming after every pause (see h1::piece).
pub fn piece(p: &mut P2, h: &mut H2, d: &[u8], base: usize, rp: Option<&[(u16, usize)]>) -> Out {
    let mut off = 0;
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > 4 * d.len() + 16 { sx::check(false, 919); sx::end() }
        h.stopped = false;
        let before = p.byte_count();
        let rest = d[off..].to_vec();
        let r = p.resume(h, &rest);
        let adv = sx::concretize(p.byte_count().wrapping_sub(before) as u64) as usize;
        match r {
            Ok(Success::Eos(n)) => {
                sx::check(n == rest.len(), 910);
                sx::check(adv == n, 911);
                sx::check(!h.stopped, 912);
                return Out { kind: EOS, ek: 0, eb: 0, used: off + sx::concretize(n as u64) as usize };
            }
            // an HTTP/2 connection has no end of its own
            Ok(Success::Finished(_)) => { sx::check(false, 130); sx::end() }
            Ok(Success::Callback(n)) => {
                let n = sx::concretize(n as u64) as usize;
                sx::check(n <= rest.len(), 913);
                sx::check(adv == n, 911);
                sx::check(h.stopped, 915);
                if n > rest.len() { sx::end() }
                off += n;
                if let Some(rp) = rp {
                    if h.stop_fixed >= 0 { let f = h.stop_fixed as usize; if f < rp.len() && rp[f].0 == h.last { sx::check(rp[f].1 == base + off, 916) } }
                }
            }
            Err(_) => {
                sx::check(adv <= rest.len(), 913);
                sx::check(!h.stopped, 912);
                sx::check(p.state() == ParserState::Dead, 917);
                return Out { kind: ERR, ek: 0, eb: 0, used: off + adv };
            }
        }
    }
}
pub fn feed(p: &mut P2, h: &mut H2, d: &[u8], cuts: &[usize], rp: Option<&[(u16, usize)]>) -> Out {
    let mut at = 0;
    for i in 0..=cuts.len() {
        let end = if i < cuts.len() { cuts[i] } else { d.len() };
        let o = piece(p, h, &d[at..end], at, rp);
        if o.kind != EOS || i == cuts.len() { return Out { used: at + o.used, ..o }; }
        at = end;
    }
    sx::fail(902)
}

#[derive(Clone, Copy, PartialEq)]
enum S { Head, Pad, Fixed, Data, Skip, Dead }
pub const MAXFIX: usize = 96;
/// Reference model of RFC 7540 framing, one byte at a time.
pub struct Ref2 {
    s: S, k: usize, len: u32, t: u8, flags: u8, id: u32, pad: u32, a: u64, fixed: usize, left: u32,
    /// the input reached a frame whose length is not valid for its type (out of scope), or a second setting
    pub unspecified: bool, pub multi: bool, pub allow_multi: bool,
    pub log: Log, pub pos: &'static mut [(u16, usize)], pub np: usize, pub i: usize, pub kind: u8, pub used: usize,
}
impl Ref2 {
    pub fn new() -> Ref2 {
        Ref2 { s: S::Head, k: 0, len: 0, t: 0, flags: 0, id: 0, pad: 0, a: 0, fixed: 0, left: 0, unspecified: false, multi: false, allow_multi: false,
            log: Log::new(), pos: sx::buf(sx::size(MAXFIX), (0u16, 0usize)), np: 0, i: 0, kind: EOS, used: 0 }
    }
    pub fn run(&mut self, d: &[u8]) {
        for &b in d { if self.s == S::Dead || self.unspecified { break } self.step(b) }
        if self.kind == EOS { self.used = self.i }
    }
    pub fn out(&self) -> Out { Out { kind: self.kind, ek: 0, eb: 0, used: self.used } }
    fn ev(&mut self, k: u16) { self.log.ev(k); self.pos[self.np] = (k, self.i); self.np += 1 }
    fn err(&mut self) { self.s = S::Dead; self.kind = ERR; self.used = self.i }
    fn kind_of(&self) -> u16 { match self.t { 0 => DATA, 1 | 5 | 9 => FRAG, 6 => PING, 7 => DEBUG, _ => OTHER } }
    fn next(&mut self) { self.s = S::Head; self.k = 0 }
    fn step(&mut self, b: u8) {
        self.i += 1;
        match self.s {
            S::Head => {
                match self.k {
                    0 => self.len = (b as u32) << 16, 1 => self.len |= (b as u32) << 8, 2 => self.len |= b as u32,
                    3 => self.t = b, 4 => self.flags = b, 5 => self.id = ((b & 0x7f) as u32) << 24,
                    6 => self.id |= (b as u32) << 16, 7 => self.id |= (b as u32) << 8, _ => self.id |= b as u32,
                }
                self.k += 1;
                if self.k == 9 { self.frame() }
            }
            S::Pad => {
                self.pad = b as u32;
                if self.len < self.pad + 1 { return self.err() }
                self.left = self.len - 1;
                self.k = 0;
                if self.fixed > 0 { self.s = S::Fixed } else { self.fixed_done() }
            }
            S::Fixed => {
                self.a = self.a << 8 | b as u64;
                self.k += 1;
                if self.k == self.fixed { self.fixed_done() }
            }
            S::Data => { let k = self.kind_of(); self.log.data(k, &[b]); self.left -= 1; self.data() }
            S::Skip => { self.pad -= 1; if self.pad == 0 { self.next() } }
            S::Dead => {}
        }
    }
    fn frame(&mut self) {
        self.ev(FORMAT);
        self.log.num(self.len as u64, 4); self.log.num(self.t as u64, 1); self.log.num(self.flags as u64, 1); self.log.num(self.id as u64, 4);
        self.k = 0; self.a = 0; self.pad = 0; self.left = self.len;
        let mut padded = false;
        self.fixed = 0;
        match self.t {
            0 => padded = self.flags & 8 != 0,
            1 => { padded = self.flags & 8 != 0; if self.flags & 0x20 != 0 { self.fixed = 5 } }
            2 => { self.fixed = 5; self.unspecified = self.len != 5 }
            3 | 8 => { self.fixed = 4; self.unspecified = self.len != 4 }
            4 => {
                if self.len == 0 { return self.next() }
                self.fixed = 6;
                if self.len != 6 { if self.allow_multi && self.len == 12 { self.multi = true } else { self.unspecified = true } }
            }
            5 => { padded = self.flags & 8 != 0; self.fixed = 4 }
            6 | 9 => {}
            7 => self.fixed = 8,
            _ => padded = self.flags & 8 != 0,
        }
        if padded { self.s = S::Pad } else if self.fixed > 0 { self.s = S::Fixed } else { self.fixed_done() }
    }
    fn fixed_done(&mut self) {
        let a = self.a;
        match self.t {
            2 => { self.ev(PRIO); self.prio(); return self.next() }
            3 => { self.ev(RST); self.log.num(a, 4); return self.next() }
            8 => { self.ev(WINDOW); self.log.num(a & 0x7fffffff, 4); return self.next() }
            4 => {
                self.ev(SETTING); self.log.num(a, 6);
                self.len -= 6; self.k = 0; self.a = 0;
                if self.len == 0 { self.next() }
                return
            }
            _ => {}
        }
        if self.left < self.pad + self.fixed as u32 { return self.err() }
        self.left -= self.fixed as u32 + self.pad;
        match self.t {
            1 => if self.fixed > 0 { self.ev(HEADERS); self.prio() } else if self.flags & 8 != 0 { self.ev(HEADERS); self.log.num(0, 6) },
            5 => { self.ev(PROMISE); self.log.num(a & 0x7fffffff, 4) }
            7 => { self.ev(GOAWAY); self.log.num(a >> 32 & 0x7fffffff, 4); self.log.num(a & 0xffffffff, 4); if self.left == 0 { return self.next() } }
            _ => {}
        }
        self.s = S::Data;
        self.data()
    }
    fn prio(&mut self) { self.log.num(self.a >> 39, 1); self.log.num(self.a >> 8 & 0x7fffffff, 4); self.log.num(self.a & 0xff, 1) }
    fn data(&mut self) {
        if self.left > 0 { return }
        let k = self.kind_of();
        self.ev(k | LAST);
        if self.pad > 0 { self.s = S::Skip } else { self.next() }
    }
}
