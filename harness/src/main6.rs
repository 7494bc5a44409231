//! A handler that leaves every callback at its default; the text of public values.
use crate::h1::{err, init, Out, EOS, ERR, FIN, M_HEAD};
use crate::main1::{cuts, handler, input, In};
use crate::sx;
use crate::tables::CASES;
use core::fmt::{Debug, Display, Write};
use http_box::fsm::Success;
use http_box::http1::{self, ParserError as E1};
use http_box::http2::{self, ErrorCode, FrameType, Setting};
use http_box::util::{DecodeError, FieldError, QueryError};

pub struct Nil;
impl http1::HttpHandler for Nil {}
impl http2::HttpHandler for Nil {}
fn feed(i: &In, f: &mut dyn FnMut(&[u8]) -> Option<Out>) -> Out {
    let k = cuts(i, sx::param(4), sx::param(6));
    let mut at = 0;
    for j in 0..=k.n {
        let end = if j < k.n { k.c[j] } else { i.len };
        if let Some(o) = f(&i.b[at..end].to_vec()) { return Out { used: at + o.used, ..o } }
        at = end;
    }
    Out { kind: EOS, ek: 0, eb: 0, used: at }
}
/// The default callbacks against overridden ones that answer true.
#[no_mangle]
pub extern "C" fn h1_nil() {
    let c = &CASES[sx::param(0) as usize];
    let i = input(c);
    let mut p = http1::Parser::new();
    let mut h = handler(c);
    {
        // initialised like the other one
        init(&mut p, c.mode, c.boundary, i.n);
    }
    let o = crate::h1::feed(&mut p, &mut h, &i.b[..i.len], &[], None);
    let mut q: http1::Parser<Nil> = http1::Parser::new();
    match c.mode {
        crate::h1::M_NEW => {}
        M_HEAD => q.init_head(),
        crate::h1::M_CHUNK => q.init_chunked(),
        crate::h1::M_MULTI => { q.init_multipart(); q.set_boundary(c.boundary) }
        _ => { q.init_url_encoded(); q.set_length(i.n) }
    }
    let mut nil = Nil;
    let u = feed(&i, &mut |d| {
        let before = q.byte_count();
        match q.resume(&mut nil, d) {
            Ok(Success::Eos(n)) => { sx::check(n == d.len(), 250); None }
            Ok(Success::Finished(n)) => Some(Out { kind: FIN, ek: 0, eb: 0, used: n }),
            Ok(Success::Callback(_)) => { sx::check(false, 251); sx::end() }
            Err(e) => { let (ek, eb) = err(&e); Some(Out { kind: ERR, ek, eb, used: q.byte_count() - before }) }
        }
    });
    sx::check(u.kind == o.kind, 252);
    sx::check(u.ek == o.ek, 253);
    if o.ek != crate::h1::E_MBOUND { sx::check(u.eb == o.eb, 253); sx::check(u.used == o.used, 254) }
    sx::reach(o.kind as u32);
}
#[no_mangle]
pub extern "C" fn h2_nil() {
    let i = crate::main2::input();
    let mut p = http2::Parser::new();
    let mut h = crate::h2::H2::new();
    let o = crate::h2::feed(&mut p, &mut h, &i.b[..i.len], &[], None);
    let mut q: http2::Parser<Nil> = http2::Parser::new();
    let mut nil = Nil;
    let u = feed(&i, &mut |d| {
        let before = q.byte_count();
        match q.resume(&mut nil, d) {
            Ok(Success::Eos(n)) => { sx::check(n == d.len(), 250); None }
            Ok(Success::Finished(n)) => Some(Out { kind: FIN, ek: 0, eb: 0, used: n }),
            Ok(Success::Callback(_)) => { sx::check(false, 251); sx::end() }
            Err(_) => Some(Out { kind: ERR, ek: 0, eb: 0, used: q.byte_count() - before }),
        }
    });
    sx::check(u.kind == o.kind, 252);
    sx::check(u.used == o.used, 254);
    sx::reach(o.kind as u32);
}

// ---------------------------------------------------------------- text
struct Text { b: [u8; 200], n: usize }
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let n = sx::concretize(s.len() as u64) as usize;
        if self.n + n > 200 { return Err(core::fmt::Error) }
        self.b[self.n..self.n + n].copy_from_slice(&s.as_bytes()[..n]);
        self.n += n;
        Ok(())
    }
}
fn has(t: &Text, name: &[u8]) -> bool {
    let mut i = 0;
    while i + name.len() <= t.n {
        // the name as a whole word
        if t.b[i..i + name.len()] == *name && (i + name.len() == t.n || !t.b[i + name.len()].is_ascii_alphanumeric()) && (i == 0 || !t.b[i - 1].is_ascii_alphanumeric()) { return true }
        i += 1;
    }
    false
}
/// the decimal number in a text after its name (there is at most one)
fn number(t: &Text, from: &[u8]) -> Option<u64> {
    let mut r: Option<u64> = None;
    let mut i = 0;
    while i + from.len() <= t.n && t.b[i..i + from.len()] != *from { i += 1 }
    i += from.len();
    while i < t.n { let b = t.b[i]; if b >= b'0' && b <= b'9' { r = Some(match r { Some(v) => v * 10 + (b - b'0') as u64, None => (b - b'0') as u64 }) } i += 1 }
    r
}
fn text<T: Debug + Display>(x: &T, name: &str, value: Option<u64>, display: bool) {
    let mut t = Text { b: [0; 200], n: 0 };
    sx::check(write!(t, "{:?}", x).is_ok(), 480);
    sx::check(has(&t, name.as_bytes()), 481);
    if let Some(v) = value { sx::check(number(&t, name.as_bytes()) == Some(v), 482) }
    let mut t = Text { b: [0; 200], n: 0 };
    sx::check(write!(t, "{}", x).is_ok(), 480);
    if display { sx::check(has(&t, name.as_bytes()), 481) }
    if let Some(v) = value { sx::check(number(&t, if display { name.as_bytes() } else { b"" }) == Some(v), 482) }
    sx::reach(0);
}
/// a number of `n` bytes; parameter 1: number of low bytes that are symbolic, parameter 2: the other bytes (from the top)
fn big(n: usize) -> u64 {
    let mut b = [0u8; 8];
    let k = sx::param(1) as usize;
    sx::bytes(&mut b[8 - k..]);
    for i in 0..n - k { b[8 - n + i] = (sx::param(2) >> (8 * (n - k - 1 - i))) as u8 }
    if sx::param(3) != 0 { let at = sx::param(3) as usize - 1; b.swap(7, 7 - at) }
    u64::from_be_bytes(b)
}
/// Parameter 0: which type
#[no_mangle]
pub extern "C" fn f_text() {
    let b = sx::byte();
    let v = Some(b as u64);
    macro_rules! pick { ($($e:expr, $n:expr, $v:expr;)*) => {{ let list = [$(($e, $n, $v)),*]; let k = sx::choose(list.len()); let (e, n, v) = &list[k]; text(e, n, *v, true) }} }
    match sx::param(0) {
        0 => pick!(E1::ChunkExtensionName(b), "ChunkExtensionName", v; E1::ChunkExtensionValue(b), "ChunkExtensionValue", v; E1::ChunkLength(b), "ChunkLength", v;
            E1::ChunkLengthOverflow, "ChunkLengthOverflow", None; E1::CrlfSequence(b), "CrlfSequence", v; E1::Dead, "Dead", None; E1::HeaderName(b), "HeaderName", v;
            E1::HeaderValue(b), "HeaderValue", v; E1::Method(b), "Method", v; E1::Multipart(b), "Multipart", v; E1::MultipartBoundary(b), "MultipartBoundary", v;
            E1::Status(b), "Status", v; E1::StatusCode(b), "StatusCode", v; E1::Url(b), "Url", v; E1::UrlEncodedName(b), "UrlEncodedName", v;
            E1::UrlEncodedValue(b), "UrlEncodedValue", v; E1::Version(b), "Version", v;),
        1 => {
            // a padded DATA frame shorter than its padding
            let mut p: http2::Parser<Nil> = http2::Parser::new();
            match p.resume(&mut Nil, &[0, 0, 1, 0, 8, 0, 0, 0, 1, 200, 0, 0]) { Err(e) => text(&e, "Dead", None, true), _ => sx::reach(0) }
        }
        2 => pick!(DecodeError::Byte(b), "Byte", v; DecodeError::HexSequence(b), "HexSequence", v;),
        3 => pick!(QueryError::Name(b), "Name", v; QueryError::Value(b), "Value", v;),
        4 => pick!(FieldError::Name(b), "Name", v; FieldError::Value(b), "Value", v;),
        5 => {
            let n = ["Data", "Headers", "Priority", "RstStream", "Settings", "PushPromise", "Ping", "GoAway", "WindowUpdate", "Continuation", "Unsupported"];
            let k = sx::choose(11);
            sx::assume(if k < 10 { b == k as u8 } else { b > 9 });
            text(&FrameType::from_u8(b), n[k], None, true)
        }
        6 => {
            let n = ["NoError", "Protocol", "Internal", "FlowControl", "SettingsTimeout", "StreamClosed", "FrameSize", "RefusedStream", "Cancel", "Compression", "Connect",
                "EnhanceYourCalm", "InadequateSecurity", "Http11Required", "Unsupported"];
            let k = sx::choose(15);
            sx::assume(if k < 14 { b == k as u8 } else { b > 13 });
            text(&ErrorCode::from_u8(b), n[k], None, true)
        }
        7 => {
            let n = ["Unsupported", "HeaderTableSize", "EnablePush", "MaxConcurrentStreams", "InitialWindowSize", "MaxFrameSize", "MaxHeaderListSize"];
            let k = sx::choose(7);
            text(&Setting::new(k as u16, b as u32), n[k], v, true)
        }
        9 => {
            let n = ["Unsupported", "HeaderTableSize", "EnablePush", "MaxConcurrentStreams", "InitialWindowSize", "MaxFrameSize", "MaxHeaderListSize"];
            let k = sx::choose(7);
            let v = big(4);
            text(&Setting::new(k as u16, v as u32), n[k], Some(v), true)
        }
        10 => {
            let k = sx::choose(3);
            let v = big(8);
            let n = v as usize;
            let s = match k { 0 => Success::Callback(n), 1 => Success::Eos(n), _ => Success::Finished(n) };
            text(&s, ["Callback", "Eos", "Finished"][k], Some(v), false)
        }
        _ => {
            let k = sx::choose(3);
            let n = b as usize;
            let s = match k { 0 => Success::Callback(n), 1 => Success::Eos(n), _ => Success::Finished(n) };
            text(&s, ["Callback", "Eos", "Finished"][k], v, false)
        }
    }
}
