//! HTTP/2 harness entry points. Parameters:
//! 0 text, 1 w, 2 lo, 3 hi, 4 feed, 5 pause, 6 cutlo (as in main1), 7 type of the frame whose header starts the window
//! (-1 any), 8 flags mask | value << 8 (-1 any)
use crate::h1::{Out, EOS, ERR, P_ONE, P_TWO, P_NONE};
use crate::h2::*;
use crate::log::Log;
use crate::main1::{cuts, window, In};
use crate::sx;
use crate::tables::TEXTS2;
use http_box::fsm::Success;
use http_box::http2::{Parser, ParserState};

pub fn input() -> In {
    let w = sx::param(1) as usize;
    let mut i = In { b: sx::buf(sx::size(800), 0u8), len: 0, hole: 0, n: 0 };
    let text = sx::text(TEXTS2[sx::param(0) as usize]);
    let t = text.len();
    i.b[..t].copy_from_slice(text);
    let (hole, len) = if sx::param(2) < 0 { (t, t + w) } else {
        let lo = sx::param(2) as usize;
        let hi = if sx::param(3) < 0 { t - w } else { sx::param(3) as usize };
        (lo + sx::choose(hi - lo + 1), t)
    };
    // the length bytes of the text's frames
    let fixed = sx::buf(sx::size(800), false);
    let mut at = 0;
    while at + 9 <= t {
        fixed[at] = true; fixed[at + 1] = true; fixed[at + 2] = true;
        at += 9 + (text[at] as usize * 256 + text[at + 1] as usize) * 256 + text[at + 2] as usize;
    }
    let len = window(i.b, hole, w, len, |k| fixed[k]);
    i.len = len; i.hole = hole;
    if sx::param(7) >= 0 && w > 3 { sx::assume(i.b[hole + 3] == sx::param(7) as u8) }
    if sx::param(8) >= 0 && w > 4 { sx::assume(i.b[hole + 4] & (sx::param(8) & 0xff) as u8 == (sx::param(8) >> 8) as u8) }
    i
}
fn same(a: &Out, la: &Log, b: &Out, lb: &Log, code: u32) {
    sx::check(a.kind == b.kind, code);
    if a.kind == ERR {
        // consumption and earlier callbacks of a rejected frame
        sx::check(a.used == b.used, code + 3);
        la.same_upto_item(lb, code + 4);
        sx::reach(2);
    } else {
        sx::check(a.used == b.used, code + 6);
        la.same(lb, code + 5);
        sx::reach(0);
    }
}
fn pauses(h: &mut H2, calls: u32) {
    h.pause = sx::param(5) as u8;
    if h.pause == P_ONE || h.pause == P_TWO {
        if calls == 0 { sx::end() }
        h.at = sx::choose(calls as usize) as u32;
        if h.pause == P_TWO { if h.at + 1 >= calls { sx::end() } h.at2 = h.at + 1 + sx::choose((calls - h.at - 1) as usize) as u32; }
    }
}
#[no_mangle]
pub extern "C" fn h2_ref() {
    let i = input();
    let mut r = Ref2::new();
    r.run(&i.b[..i.len]);
    if r.unspecified { sx::end() }
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut p = Parser::new();
    let mut h = H2::new();
    h.pause = sx::param(5) as u8;
    let o = feed(&mut p, &mut h, &i.b[..i.len], &k.c[..k.n], Some(&r.pos[..r.np]));
    same(&o, &h.log, &r.out(), &r.log, 100);
    sx::check(o.kind == ERR || p.byte_count() == i.len, 918);
}
/// Two settings in one frame.
#[no_mangle]
pub extern "C" fn h2_settings() {
    let i = input();
    let mut r = Ref2::new();
    r.allow_multi = true;
    r.run(&i.b[..i.len]);
    if !r.multi || r.unspecified { sx::end() }
    let mut p = Parser::new();
    let mut h = H2::new();
    let o = feed(&mut p, &mut h, &i.b[..i.len], &[], None);
    // the frame header and the first setting ...
    sx::check(h.log.n >= 18, 141);
    sx::check_eq(h.log.raw(18), r.log.raw(18), 141);
    sx::reach(0);
    // ... and the second one (a known finding)
    sx::check(o.kind == EOS && h.log.n == r.log.n, 140);
    sx::check_eq(h.log.raw(r.log.n), r.log.raw(r.log.n), 140);
}
#[no_mangle]
pub extern "C" fn h2_diff() {
    let i = input();
    let mut p = Parser::new();
    let mut h = H2::new();
    let o = feed(&mut p, &mut h, &i.b[..i.len], &[], None);
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut q = Parser::new();
    let mut g = H2::new();
    pauses(&mut g, h.calls);
    let u = feed(&mut q, &mut g, &i.b[..i.len], &k.c[..k.n], None);
    same(&u, &g.log, &o, &h.log, 200);
}
#[no_mangle]
pub extern "C" fn h2_safe() {
    let i = input();
    let k = cuts(&i, sx::param(4), sx::param(6));
    let mut p = Parser::new();
    let mut h = H2::new();
    h.pause = sx::param(5) as u8;
    let o = feed(&mut p, &mut h, &i.b[..i.len], &k.c[..k.n], None);
    sx::reach(o.kind as u32);
}
/// A dead parser stays dead; a reset one is new. The second phase is text 9 with 10 symbolic bytes at its end.
#[no_mangle]
pub extern "C" fn h2_final() {
    let i = input();
    let mut p = Parser::new();
    let mut h = H2::new();
    h.pause = sx::param(5) as u8;
    let o = if h.pause == P_ONE {
        h.at = sx::choose(4) as u32;
        match p.resume(&mut h, &i.b[..i.len].to_vec()) {
            Ok(Success::Callback(_)) => 3, Ok(_) => EOS, Err(_) => ERR,
        }
    } else { feed(&mut p, &mut h, &i.b[..i.len], &[], None).kind };
    let total = p.byte_count();
    sx::reach(o as u32);
    if o == ERR {
        let mut x = [0u8; 2];
        sx::bytes(&mut x);
        let calls = h.calls;
        for round in 0..2 {
            sx::check(p.resume(&mut h, &x[..2 - round].to_vec()).is_err(), 301);
            sx::check(p.state() == ParserState::Dead, 305);
            sx::check(h.calls == calls, 303);
            sx::check(p.byte_count() == total, 304);
        }
    }
    p.reset();
    let text = TEXTS2[sx::param(9) as usize];
    let w = sx::param(10) as usize;
    let mut b = [0u8; 800];
    let len = text.len();
    b[..len].copy_from_slice(text);
    sx::bytes(&mut b[len - w..len]);
    let mut g = H2::new();
    let u = feed(&mut p, &mut g, &b[..len], &[], None);
    let mut q = Parser::new();
    let mut f = H2::new();
    let v = feed(&mut q, &mut f, &b[..len], &[], None);
    same(&u, &g.log, &v, &f.log, 310);
    sx::check(p.state() == q.state(), 320);
    sx::check(p.byte_count() == q.byte_count(), 318);
    let _ = P_NONE;
}
