//! Counted data of any length: the payload is a buffer of symbolic size, so one path stands for every length and every
//! way to cut it into the given number of pieces. The handler checks that the data handed over are exactly the next
//! bytes of the buffer, by address and length.
use crate::sx;
use http_box::fsm::Success;
use http_box::{http1, http2};

/// What must be delivered: `want` bytes; `next` is the address of the next of them in the current piece.
pub struct Counted { next: u64, end: u64, total: u64, want: u64, open: bool, fins: u32, pause: bool, after: u32, arm: bool, bad: bool, stopped: bool, calls: u32 }
impl Counted {
    fn new(pause: bool) -> Counted { Counted { next: 0, end: 0, total: 0, want: 0, open: false, fins: 0, pause, after: 0, arm: false, bad: false, stopped: false, calls: 0 } }
    fn piece(&mut self, d: &[u8]) { self.next = d.as_ptr() as u64; self.end = self.next + d.len() as u64; self.open = true }
    fn ret(&mut self, stop: bool) -> bool { self.calls += 1; sx::check(!self.stopped, 901); self.stopped = stop; !stop }
    fn data(&mut self, d: &[u8]) -> bool {
        if self.open && d.as_ptr() as u64 != self.next { sx::check(d.len() == 0, 160) }
        self.next += d.len() as u64;
        self.total += d.len() as u64;
        sx::check(self.total <= self.want, 161);
        self.ret(self.pause)
    }
    fn fin(&mut self, d: &[u8], f: bool) -> bool {
        sx::check(self.fins == 0, 162);
        let r = self.data(d);
        sx::check(f == (self.total == self.want), 163);
        if f { self.fins += 1 }
        r
    }
}
impl http2::HttpHandler for Counted {
    fn on_frame_format(&mut self, len: u32, t: u8, flags: u8, id: u32) -> bool {
        if self.arm {
            // the frame after the one at hand: all zero, found right behind it
            sx::check(self.fins == 1 || self.want == 0, 164);
            sx::check((len == 0) & (t == 0) & (flags == 0) & (id == 0), 165);
            self.after += 1;
            return self.ret(true);
        }
        self.ret(false)
    }
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { if sx::param(0) != 0 { self.bad = true } self.fin(d, f) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { let t = sx::param(0); if t != 1 && t != 5 && t != 9 { self.bad = true } self.fin(d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { if sx::param(0) != 6 { self.bad = true } self.fin(d, f) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { if sx::param(0) != 7 { self.bad = true } self.fin(d, f) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { if sx::param(0) <= 9 { self.bad = true } self.fin(d, f) }
    fn on_headers(&mut self, _: bool, _: u32, _: u8) -> bool { self.ret(false) }
    fn on_push_promise(&mut self, _: u32) -> bool { self.ret(false) }
    fn on_go_away(&mut self, _: u32, _: u32) -> bool { self.ret(false) }
}
fn u32be(b: &[u8; 4]) -> u32 { (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32 }
fn any32() -> u64 { let mut b = [0u8; 4]; sx::bytes(&mut b); u32be(&b) as u64 }
/// Parameters: 0 type, 1 flags, 2 every data callback answers false, 3 number of pieces, 4: 1 = payload too short allowed
#[no_mangle]
pub extern "C" fn h2_long() {
    let (t, flags) = (sx::param(0) as u8, sx::param(1) as u8);
    let mut hd = [0u8; 32];
    let mut k = 9;
    sx::bytes(&mut hd[..3]);
    hd[3] = t; hd[4] = flags;
    sx::bytes(&mut hd[5..9]);
    let len = (hd[0] as u64) << 16 | (hd[1] as u64) << 8 | hd[2] as u64;
    let padded = flags & 8 != 0 && (t <= 1 || t == 5 || t > 9);
    let mut pad = 0u64;
    if padded { sx::bytes(&mut hd[9..10]); pad = hd[9] as u64; k += 1 }
    let fixed = match t { 1 if flags & 0x20 != 0 => 5, 5 => 4, 7 => 8, _ => 0 };
    sx::bytes(&mut hd[k..k + fixed]);
    k += fixed;
    let pre = (k - 9) as u64;
    let short = sx::ite(len < pre + pad, 1, 0);
    let mut p = http2::Parser::new();
    let mut h = Counted::new(sx::param(2) != 0);
    let head = hd[..k].to_vec();
    if sx::param(4) != 0 {
        // a payload too short for its fixed part and padding
        sx::assume(short == 1);
        let mut n = 0;
        while n < head.len() {
            match p.resume(&mut h, &head[n..n + 1]) { Err(_) => { sx::reach(2); return } _ => {} }
            n += 1;
        }
        sx::check(false, 166);
        return;
    }
    sx::assume(short == 0);
    let rest = len - pre - pad;
    h.want = rest;
    let mut count = 0u64;
    let mut head: &[u8] = &head;
    // the head, paused wherever the handler says so
    loop {
        h.stopped = false;
        match p.resume(&mut h, head) {
            Ok(Success::Eos(n)) => { sx::check(n == head.len(), 910); sx::check(!h.stopped, 912); count += n as u64; break }
            Ok(Success::Callback(n)) => { sx::check(n <= head.len(), 913); sx::check(h.stopped, 915); count += n as u64; head = &head[n..] }
            _ => { sx::check(false, 167); return }
        }
    }
    let mut left = rest + pad;
    let pieces = sx::param(3);
    h.arm = true;
    for i in 0..pieces {
        let n = if i + 1 == pieces { left + 9 } else { let n = any32(); sx::assume(n <= left); n };
        if i + 1 < pieces { left -= n }
        let d = sx::vbuf(n as usize);
        if run(&mut p, &mut h, d, &mut count, i + 1 == pieces) { break }
    }
    sx::check(h.total == rest, 168);
    sx::check(h.fins == 1 || (t == 7 && rest == 0 && h.fins == 0), 169);
    sx::check(h.after == 1, 170);
    sx::check(!h.bad, 171);
    sx::check(p.byte_count() as u64 == count, 911);
    sx::check(count == 9 + len + 9, 172);
    sx::reach(if rest == 0 { 0 } else if pad == 0 { 1 } else { 3 });
}
fn run(p: &mut http2::Parser<Counted>, h: &mut Counted, mut d: &[u8], count: &mut u64, last: bool) -> bool {
    h.piece(d);
    loop {
        h.stopped = false;
        let calls = h.after;
        match p.resume(h, d) {
            Ok(Success::Eos(n)) => {
                sx::check(n == d.len(), 910);
                sx::check(!h.stopped, 912);
                *count += n as u64;
                sx::check(!last, 173);
                return last;
            }
            Ok(Success::Callback(n)) => {
                sx::check(n <= d.len(), 913);
                sx::check(h.stopped, 915);
                *count += n as u64;
                if h.after != calls { sx::check(n == d.len(), 916); return true }
                d = &d[n..];
            }
            _ => { sx::check(false, 167); sx::end() }
        }
    }
}

impl http1::HttpHandler for Counted {
    fn content_length(&mut self) -> Option<usize> { Some(self.want as usize) }
    fn on_chunk_length(&mut self, n: usize) -> bool { sx::check(n as u64 == self.want, 174); self.ret(false) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { if sx::param(0) != 2 { self.bad = true } self.data(d) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { if sx::param(0) != 3 { self.bad = true } self.data(d) }
}
/// Parameters: 0 mode (2 chunked, 3 multipart), 1 digits of the chunk length, 2 every data callback answers false, 3 pieces
#[no_mangle]
pub extern "C" fn h1_long() {
    let chunk = sx::param(0) == 2;
    let mut p = http1::Parser::new();
    let mut h = Counted::new(sx::param(2) != 0);
    let mut hd = [0u8; 32];
    let k;
    if chunk {
        p.init_chunked();
        k = sx::param(1) as usize;
        sx::bytes(&mut hd[..k]);
        let mut n = 0u64;
        for i in 0..k {
            // decimal digits keep the arithmetic simple; the others are covered by the reference runs
            sx::assume(hd[i] >= b'0' && hd[i] <= b'9');
            n = n << 4 | (hd[i] - b'0') as u64;
        }
        sx::assume(hd[0] != b'0');
        h.want = n;
        hd[k] = b'\r'; hd[k + 1] = b'\n';
    } else {
        p.init_multipart();
        p.set_boundary(b"B");
        hd[..5].copy_from_slice(b"--B\r\n");
        k = 5;
        hd[k] = b'\r'; hd[k + 1] = b'\n';
        h.want = any32() << 32 | any32();
        sx::assume(h.want < 1 << 40 && h.want > 0);
    }
    let head = hd[..k + 2].to_vec();
    let r = p.resume(&mut h, &head);
    sx::check(matches!(r, Ok(Success::Eos(n)) if n == head.len()), 910);
    let mut count = (k + 2) as u64;
    let mut left = h.want;
    let pieces = sx::param(3);
    let want = h.want;
    for i in 0..pieces {
        let last = i + 1 == pieces;
        // one byte too many: it is not the CR that must follow
        let n = if last { left + 1 } else { let n = any32(); sx::assume(n <= left); n };
        left -= if last { left } else { n };
        let mut d = sx::vbuf(n as usize);
        h.piece(d);
        loop {
            h.stopped = false;
            match p.resume(&mut h, d) {
                Ok(Success::Eos(n)) => { sx::check(n == d.len(), 910); sx::check(!h.stopped, 912); count += n as u64; sx::check(!last, 173); break }
                Ok(Success::Callback(n)) => { sx::check(n <= d.len(), 913); sx::check(h.stopped, 915); count += n as u64; d = &d[n..] }
                Ok(_) => { sx::check(false, 167); sx::end() }
                Err(e) => {
                    sx::check(last, 167);
                    match e { http1::ParserError::CrlfSequence(0) => sx::check(chunk, 175), http1::ParserError::MultipartBoundary(0) => sx::check(!chunk, 175), _ => sx::check(false, 175) }
                    count += d.len() as u64;
                    break
                }
            }
        }
    }
    sx::check(h.total == want, 168);
    sx::check(!h.bad, 171);
    sx::check(p.byte_count() as u64 == count, 911);
    sx::reach(0);
}
