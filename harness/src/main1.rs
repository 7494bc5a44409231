//! HTTP/1 harness entry points. Parameters:
//! 0 case, 1 w (symbolic bytes), 2 lo, 3 hi: the window replaces w bytes of the case's text at an offset lo..=hi (lo < 0:
//! it is appended), 4 feed, 5 pause, 6 cutlo (first cut position, < 0: the window), 7 url length (-1: any)
use crate::h1::*;
use crate::log::Log;
use crate::refs::Ref;
use crate::sx;
use crate::tables::CASES;
use http_box::fsm::Success;
use http_box::http1::{Parser, ParserError, ParserState};

const BUF: usize = 800;
pub struct In { pub b: &'static mut [u8], pub len: usize, pub hole: usize, pub n: usize }
pub fn input(c: &Ctx) -> In {
    let w = sx::param(1) as usize;
    let b = sx::buf(sx::size(BUF), 0u8);
    let text = sx::text(c.text);
    let t = text.len();
    if t + w > b.len() { sx::fail(903) }
    b[..t].copy_from_slice(text);
    let (hole, len) = if sx::param(2) < 0 { (t, t + w) } else {
        let lo = sx::param(2) as usize;
        let hi = if sx::param(3) < 0 { t - w } else { sx::param(3) as usize };
        (lo + sx::choose(hi - lo + 1), t)
    };
    let len = window(b, hole, w, len, |_| false);
    let mut n = 0;
    if c.mode == M_URL { n = match sx::param(7) { -1 => hole + sx::choose(len - hole + 2), -2 => len, -3 => wide(len), v => v as usize } }
    In { b, len, hole, n }
}
/// The symbolic bytes. Parameter 12: one more symbolic byte, at most this far behind the window; parameter 13: the window
/// replaces this number of bytes minus one of the text, which gets longer or shorter (0: as many as the window has).
/// With two bytes, neither is at a position `skip` names.
pub fn window(b: &mut [u8], hole: usize, w: usize, len: usize, skip: impl Fn(usize) -> bool) -> usize {
    let mut len = len;
    if sx::param(13) > 0 {
        let gone = sx::param(13) as usize - 1;
        let rest = hole + gone;
        if rest > len || len + w - gone > b.len() { sx::end() }
        let t = sx::buf(b.len(), 0u8);
        let n = len - rest;
        t[..n].copy_from_slice(&b[rest..len]);
        b[hole + w..hole + w + n].copy_from_slice(&t[..n]);
        len = hole + w + n;
    }
    sx::bytes(&mut b[hole..hole + w]);
    if sx::param(12) > 0 {
        let at = hole + w;
        let far = sx::param(12) as usize;
        if at >= len { sx::end() }
        let k = at + sx::choose(if len - at < far { len - at } else { far });
        if skip(hole) || skip(k) { sx::end() }
        sx::bytes(&mut b[k..k + 1]);
    }
    len
}
/// a number above `n`: n + 1 + b * 256^k for any byte b and k < 8
fn wide(n: usize) -> usize {
    let b = sx::byte(); let k = sx::choose(8);
    sx::assume(k < 7 || b < 128);
    // some whose lower half alone would end within the bytes given
    if k == 2 || k == 4 || k == 6 { sx::assume(b > 0); 1 + ((b as usize) << 8 * k) } else { n + 1 + ((b as usize) << 8 * k) }
}
pub const F_ONE: i64 = 0; pub const F_PREFIX: i64 = 1; pub const F_BYTES: i64 = 2; pub const F_CUT1: i64 = 3; pub const F_CUT2: i64 = 4;
pub const F_EMPTY: i64 = 5; pub const F_CUT3: i64 = 6;
pub struct Cuts { pub c: &'static mut [usize], pub n: usize }
pub fn cuts(i: &In, f: i64, lo: i64) -> Cuts {
    let mut c = Cuts { c: sx::buf(2 * sx::size(BUF), 0usize), n: 0 };
    let lo = if lo < 0 { i.hole } else { lo as usize };
    // parameter 11: no cut further than this behind the start of the window (0: anywhere)
    let span = sx::param(11) as usize;
    let top = if span == 0 || i.hole + span > i.len { i.len } else { i.hole + span };
    match f {
        F_ONE => {}
        F_PREFIX => { c.c[0] = i.hole; c.n = 1 }
        F_BYTES => { for k in lo..top { c.c[c.n] = k; c.n += 1 } }
        F_EMPTY => { for k in lo..=top { c.c[c.n] = k; c.c[c.n + 1] = k; c.n += 2 } }
        _ => {
            // strictly ascending cut positions
            c.n = if f == F_CUT1 { 1 } else if f == F_CUT2 { 2 } else { 3 };
            let mut at = lo;
            for k in 0..c.n {
                let rest = c.n - k; // positions that must stay available
                if at + rest > top + 1 { sx::end() }
                c.c[k] = at + sx::choose(top + 2 - rest - at);
                at = c.c[k] + 1;
            }
        }
    }
    c
}
pub fn same(a: &Out, la: &Log, b: &Out, lb: &Log, fuzzy: bool, code: u32) {
    sx::check(a.kind == b.kind, code);
    if a.kind == ERR {
        sx::check(a.ek == b.ek, code + 1);
        if !fuzzy { sx::check(a.eb == b.eb, code + 2); if a.kind == b.kind && a.ek == b.ek { sx::check(a.used == b.used, code + 3) } }
        la.same_upto_item(lb, code + 4);
        sx::reach(2);
    } else {
        sx::check(a.used == b.used, code + 6);
        if a.kind == b.kind { sx::check(a.used == b.used, code + 3) }
        la.same(lb, code + 5);
        sx::reach(if a.kind == EOS { 0 } else { 1 });
    }
}
pub fn handler(c: &Ctx) -> H1 { let mut h = H1::new(c.lens); h.head = c.mode <= M_HEAD; h }
fn case() -> &'static Ctx { &CASES[sx::param(0) as usize] }
fn pauses(h: &mut H1, calls: u32) {
    h.pause = sx::param(5) as u8;
    if h.pause == P_ONE || h.pause == P_TWO {
        if calls == 0 { sx::end() }
        h.at = sx::choose(calls as usize) as u32;
        if h.pause == P_TWO { if h.at + 1 >= calls { sx::end() } h.at2 = h.at + 1 + sx::choose((calls - h.at - 1) as usize) as u32; }
    }
}
/// real parser against the reference model: callbacks, data, outcome, error byte, consumption
#[no_mangle]
pub extern "C" fn h1_ref() {
    let c = case();
    let i = input(c);
    let mut r = Ref::new(c, i.n);
    r.run(&i.b[..i.len]);
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut p = Parser::new();
    init(&mut p, c.mode, c.boundary, i.n);
    let mut h = handler(c);
    h.pause = sx::param(5) as u8;
    let o = feed(&mut p, &mut h, &i.b[..i.len], &k.c[..k.n], Some(&r.pos[..r.np]));
    same(&o, &h.log, &r.out(), &r.log, r.fuzzy, 100);
}
/// real parser in one call against itself under another schedule of cuts and pauses
#[no_mangle]
pub extern "C" fn h1_diff() {
    let c = case();
    let i = input(c);
    let mut p = Parser::new();
    init(&mut p, c.mode, c.boundary, i.n);
    let mut h = handler(c);
    let o = feed(&mut p, &mut h, &i.b[..i.len], &[], None);
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut q = Parser::new();
    init(&mut q, c.mode, c.boundary, i.n);
    let mut g = handler(c);
    pauses(&mut g, h.calls);
    let u = feed(&mut q, &mut g, &i.b[..i.len], &k.c[..k.n], None);
    let fuzzy = c.mode == M_MULTI && o.kind == ERR && o.ek == E_MBOUND;
    same(&u, &g.log, &o, &h.log, fuzzy, 200);
}
/// one run under a free schedule: cut and every callback's answer chosen; only the engine's own checks and `piece`'s
#[no_mangle]
pub extern "C" fn h1_safe() {
    let c = case();
    let i = input(c);
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut p = Parser::new();
    init(&mut p, c.mode, c.boundary, i.n);
    let mut h = handler(c);
    h.pause = sx::param(5) as u8;
    let o = feed(&mut p, &mut h, &i.b[..i.len], &k.c[..k.n], None);
    sx::reach(o.kind as u32);
}
/// After an error or the end nothing more happens; re-initialisation makes a new parser. The second phase's case is
/// parameter 8, with parameter 9 symbolic bytes replacing its end.
#[no_mangle]
pub extern "C" fn h1_final() {
    let c = case();
    let i = input(c);
    let mut p = Parser::new();
    init(&mut p, c.mode, c.boundary, i.n);
    let mut h = handler(c);
    h.pause = sx::param(5) as u8;
    let o = if h.pause == P_ONE {
        // leave the parser at whatever callback stops it first
        h.at = sx::choose(4) as u32;
        match p.resume(&mut h, &i.b[..i.len].to_vec()) {
            Ok(Success::Callback(n)) => Out { kind: 3, ek: 0, eb: 0, used: n },
            Ok(Success::Eos(n)) => Out { kind: EOS, ek: 0, eb: 0, used: n },
            Ok(Success::Finished(n)) => Out { kind: FIN, ek: 0, eb: 0, used: n },
            Err(e) => { let (ek, eb) = err(&e); Out { kind: ERR, ek, eb, used: 0 } }
        }
    } else { feed(&mut p, &mut h, &i.b[..i.len], &[], None) };
    let total = p.byte_count();
    sx::reach(o.kind as u32);
    if o.kind == ERR || o.kind == FIN {
        let mut x = [0u8; 2];
        sx::bytes(&mut x);
        let calls = h.calls;
        for round in 0..2 {
            let r = p.resume(&mut h, &x[..2 - round].to_vec());
            if o.kind == ERR { sx::check(matches!(r, Err(ParserError::Dead)), 301); sx::check(p.state() == ParserState::Dead, 305) }
            else { sx::check(matches!(r, Ok(Success::Finished(0))), 302); sx::check(p.state() == ParserState::Finished, 306) }
            sx::check(h.calls == calls, 303);
            sx::check(p.byte_count() == total, 304);
        }
    }
    let d = &CASES[sx::param(8) as usize];
    let w = sx::param(9) as usize;
    let mut b = [0u8; BUF];
    let len = d.text.len();
    b[..len].copy_from_slice(d.text);
    sx::bytes(&mut b[len - w..len]);
    let same_mode = d.mode == c.mode || (d.mode == M_HEAD && c.mode == M_NEW);
    if same_mode && sx::choose(2) == 1 {
        p.reset();
        if d.mode == M_MULTI { p.set_boundary(d.boundary) }
        if d.mode == M_URL { p.set_length(len) }
    } else { init(&mut p, d.mode, d.boundary, len); }
    sx::check(p.byte_count() == total, 307);
    let mut g = handler(d);
    let u = feed(&mut p, &mut g, &b[..len], &[], None);
    let mut q = Parser::new();
    init(&mut q, d.mode, d.boundary, len);
    let mut f = handler(d);
    let v = feed(&mut q, &mut f, &b[..len], &[], None);
    same(&u, &g.log, &v, &f.log, false, 310);
    sx::check(p.state() == q.state(), 320);
}
