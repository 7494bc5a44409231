//! Reference model of the HTTP/1 grammar as the properties state it: one byte at a time, no lookahead, no buffering
//! except the withheld boundary prefix of a multipart part.
use crate::h1::*;
use crate::log::Log;
use crate::sx;

pub const UP: u16 = 1; pub const VIS: u16 = 2; pub const TOK: u16 = 4; pub const FLD: u16 = 8; pub const QTD: u16 = 16;
pub const DIG: u16 = 32; pub const HEX: u16 = 64; pub const ESC: u16 = 128; pub const RSN: u16 = 256; pub const LWS: u16 = 512;
pub const LEAD: u16 = 1024;
const fn classes() -> [u16; 256] {
    let mut t = [0u16; 256];
    let mut i = 0usize;
    while i < 256 {
        let b = i as u8;
        let mut c = 0;
        if b >= b'A' && b <= b'Z' { c |= UP }
        if b > 0x20 && b < 0x7f { c |= VIS }
        if is_tok(b) { c |= TOK }
        let fld = b == 9 || (b >= 0x20 && b != 0x7f && b != b'"');
        if fld { c |= FLD }
        if fld && b != b'\\' { c |= QTD }
        if b >= b'0' && b <= b'9' { c |= DIG }
        if is_hex(b) { c |= HEX }
        if b >= 0x20 && b < 0x7b { c |= ESC }
        if b > 0x1f && b != 0x7f { c |= RSN }
        if b == b' ' || b == 9 { c |= LWS }
        if b == b' ' || b == 9 || b == 13 || b == 10 { c |= LEAD }
        t[i] = c;
        i += 1;
    }
    t
}
pub const fn is_tok(b: u8) -> bool {
    (b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z')
        || matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~')
}
pub const fn is_hex(b: u8) -> bool { (b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'f') || (b >= b'A' && b <= b'F') }
const fn lowers() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0usize;
    while i < 256 { t[i] = if i >= 65 && i <= 90 { i as u8 + 32 } else { i as u8 }; i += 1; }
    t
}
const fn hexes() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0usize;
    while i < 256 {
        let b = i as u8;
        t[i] = if b >= b'0' && b <= b'9' { b - b'0' } else if b >= b'a' && b <= b'f' { b - b'a' + 10 } else if b >= b'A' && b <= b'F' { b - b'A' + 10 } else { 0 };
        i += 1;
    }
    t
}
pub static CLS: [u16; 256] = classes();
pub static LOW: [u8; 256] = lowers();
pub static HXV: [u8; 256] = hexes();
pub fn is(b: u8, c: u16) -> bool { CLS[b as usize] & c != 0 }
pub fn low(b: u8) -> u8 { LOW[b as usize] }
pub fn hexv(b: u8) -> u8 { HXV[b as usize] }

#[derive(Clone, Copy, PartialEq)]
enum S {
    Strip, Start, Det, Method, Url1, Url, RqHttp, VMaj, VMin, Code, CodeSp, Reason1, Reason, InitLf,
    Line, Name1, Name, Val1, Val, Quo, Esc, ValLf, EndLf,
    Len1, Len, LenCr, XName1, XName, XVal1, XVal, XQuo, XEsc, XLf, Data, DataCr, DataLf,
    Open, MCr, MEnd, MByte, MLen, MTail, U, UName, UVal, Hex1, Hex2, Done, Dead,
}
pub const MAXFIX: usize = 160;
pub struct Ref {
    s: S, mode: u8, resp: bool, k: usize, num: u32, major: u32, clen: u64, left: u64, val: bool,
    boundary: &'static [u8], lens: &'static [Option<usize>], part: usize, need: bool,
    pub log: Log, pub pos: &'static mut [(u16, usize)], pub np: usize, pub i: usize,
    pub kind: u8, pub ek: u8, pub eb: u8, pub used: usize, pub fuzzy: bool,
}
const HTTP: &[u8] = b"HTTP/";
impl Ref {
    pub fn new(c: &Ctx, len: usize) -> Ref {
        let s = match c.mode { M_NEW => S::Start, M_HEAD => S::Strip, M_CHUNK => S::Len1, M_MULTI => S::Open, _ => S::U };
        let mut r = Ref { s, mode: c.mode, resp: false, k: 0, num: 0, major: 0, clen: 0, left: len as u64, val: false,
            boundary: c.boundary, lens: c.lens, part: 0, need: true,
            log: Log::new(), pos: sx::buf(sx::size(MAXFIX), (0u16, 0usize)), np: 0, i: 0, kind: EOS, ek: 0, eb: 0, used: 0, fuzzy: false };
        if c.mode == M_URL && len == 0 { r.fin() }
        r
    }
    /// Run over a whole input.
    pub fn run(&mut self, d: &[u8]) {
        for &b in d { if self.s == S::Done || self.s == S::Dead { break } self.step(b) }
        if self.kind == EOS { self.used = self.i }
    }
    pub fn out(&self) -> Out { Out { kind: self.kind, ek: self.ek, eb: self.eb, used: self.used } }
    fn ev(&mut self, k: u16) { self.log.ev(k); self.at(k, self.i) }
    fn at(&mut self, k: u16, p: usize) { self.pos[self.np] = (k, p); self.np += 1 }
    fn err(&mut self, k: u8, b: u8) { self.s = S::Dead; self.kind = ERR; self.ek = k; self.eb = b; self.used = self.i }
    /// the URL-encoded or chunked or multipart body, or the head, is complete
    fn fin(&mut self) {
        if self.mode >= M_CHUNK { self.ev(BFIN) }
        self.s = S::Done; self.kind = FIN; self.used = self.i;
    }
    fn one(&mut self, k: u16, b: u8) { self.log.data(k, &[b]) }
    fn headers_done(&mut self) {
        self.ev(HFIN);
        if self.mode != M_MULTI { return self.fin() }
        let l = if self.part < self.lens.len() { self.lens[self.part] } else { self.lens[self.lens.len() - 1] };
        self.part += 1;
        self.k = 0;
        match l {
            Some(n) => { self.need = true; self.left = n as u64; self.s = if n == 0 { S::MTail } else { S::MLen } }
            None => { self.need = false; self.s = S::MByte }
        }
    }
    fn pat(&self, i: usize) -> u8 { if i < 4 { b"\r\n--"[i] } else { self.boundary[i - 4] } }
    fn plen(&self) -> usize { 4 + self.boundary.len() }
    pub fn step(&mut self, b: u8) {
        self.i += 1;
        match self.s {
            S::Strip => if !is(b, LEAD) { self.start(b) },
            S::Start => self.start(b),
            S::Det => {
                if b == HTTP[self.k] {
                    self.k += 1;
                    if self.k == 5 { self.resp = true; self.s = S::VMaj; self.k = 0; self.num = 0 }
                } else {
                    self.log.data(METHOD, &HTTP[..self.k]);
                    self.s = S::Method;
                    self.method(b)
                }
            }
            S::Method => self.method(b),
            S::Url1 => if is(b, VIS) { self.one(URL, b); self.s = S::Url } else { self.err(E_URL, b) },
            S::Url => if is(b, VIS) { self.one(URL, b) } else if b == b' ' { self.s = S::RqHttp; self.k = 0 } else { self.err(E_URL, b) },
            S::RqHttp => if b == HTTP[self.k] { self.k += 1; if self.k == 5 { self.s = S::VMaj; self.k = 0; self.num = 0 } } else { self.err(E_VERSION, b) },
            S::VMaj => {
                if self.k < 3 && is(b, DIG) { self.num = self.num * 10 + (b - b'0') as u32; self.k += 1 }
                else if self.k > 0 && b == b'.' { self.major = self.num; self.num = 0; self.k = 0; self.s = S::VMin }
                else { self.err(E_VERSION, b) }
            }
            S::VMin => {
                if self.k < 3 && is(b, DIG) { self.num = self.num * 10 + (b - b'0') as u32; self.k += 1 }
                else if self.k > 0 && b == (if self.resp { b' ' } else { b'\r' }) {
                    self.ev(VERSION); self.log.num(self.major as u64, 2); self.log.num(self.num as u64, 2);
                    if self.resp { self.s = S::Code; self.num = 0; self.k = 0 } else { self.ev(INITIAL); self.s = S::InitLf }
                } else { self.err(E_VERSION, b) }
            }
            S::Code => {
                if is(b, DIG) { self.num = self.num * 10 + (b - b'0') as u32; self.k += 1; if self.k == 3 { self.s = S::CodeSp } }
                else { self.err(E_SCODE, b) }
            }
            S::CodeSp => if b == b' ' { self.ev(SCODE); self.log.num(self.num as u64, 2); self.s = S::Reason1 } else { self.err(E_SCODE, b) },
            S::Reason1 => if is(b, RSN) { self.one(STATUS, b); self.s = S::Reason } else { self.err(E_STATUS, b) },
            S::Reason => if is(b, RSN) { self.one(STATUS, b) } else if b == b'\r' { self.ev(INITIAL); self.s = S::InitLf } else { self.err(E_STATUS, b) },
            S::InitLf | S::ValLf => if b == b'\n' { self.s = S::Line } else { self.err(E_CRLF, b) },
            S::Line => {
                if b == b'\r' { self.s = S::EndLf } else if is(b, LWS) { self.s = S::Val }
                else if is(b, VIS) { self.name(b) } else { self.err(E_HNAME, b) }
            }
            S::Name1 | S::Name => self.name(b),
            S::Val1 => if is(b, LWS) {} else if is(b, VIS) { self.value(b) } else { self.err(E_HVALUE, b) },
            S::Val => self.value(b),
            S::Quo => {
                if is(b, QTD) { self.one(HVALUE, b) } else if b == b'"' { self.one(HVALUE, b); self.s = S::Val }
                else if b == b'\\' { self.one(HVALUE, b); self.s = S::Esc } else { self.err(E_HVALUE, b) }
            }
            S::Esc => if is(b, ESC) { self.one(HVALUE, b); self.s = S::Quo } else { self.err(E_HVALUE, b) },
            S::EndLf => if b == b'\n' { self.headers_done() } else { self.err(E_CRLF, b) },

            S::Len1 => {
                if is(b, HEX) {
                    self.ev(CBEGIN);
                    self.clen = hexv(b) as u64; self.k = 1;
                    self.s = if b == b'0' { S::LenCr } else { S::Len };
                } else { self.err(E_CLEN, b) }
            }
            S::Len => {
                if is(b, HEX) { self.clen = self.clen * 16 + hexv(b) as u64; self.k += 1; if self.k == 8 { self.s = S::LenCr } }
                else { self.len_end(b) }
            }
            S::LenCr => self.len_end(b),
            S::XName1 => if is(b, LWS) {} else if is(b, VIS) { self.xname(b) } else { self.err(E_CXNAME, b) },
            S::XName => self.xname(b),
            S::XVal1 => if is(b, LWS) {} else if is(b, VIS) { self.xval(b) } else { self.err(E_CXVALUE, b) },
            S::XVal => self.xval(b),
            S::XQuo => {
                if is(b, QTD) { self.one(CXVALUE, b) } else if b == b'"' { self.s = S::XVal } else if b == b'\\' { self.s = S::XEsc }
                else { self.err(E_CXVALUE, b) }
            }
            S::XEsc => if is(b, ESC) { self.one(CXVALUE, b); self.s = S::XQuo } else { self.err(E_CXVALUE, b) },
            S::XLf => {
                if b != b'\n' { self.err(E_CRLF, b) } else if self.clen == 0 { self.s = S::Line } else { self.left = self.clen; self.s = S::Data }
            }
            S::Data => { self.one(CDATA, b); self.left -= 1; if self.left == 0 { self.s = S::DataCr } }
            S::DataCr => if b == b'\r' { self.s = S::DataLf } else { self.err(E_CRLF, b) },
            S::DataLf => if b == b'\n' { self.s = S::Len1 } else { self.err(E_CRLF, b) },

            // the opening boundary has no CRLF before it
            S::Open => {
                if b == self.pat(2 + self.k) { self.k += 1; if self.k + 2 == self.plen() { self.s = S::MCr } }
                else { self.fuzzy = self.k > 2; self.err(E_MBOUND, b) }
            }
            S::MCr => {
                if b == b'\r' { self.ev(MBEGIN); self.s = S::InitLf } else if b == b'-' { self.s = S::MEnd } else { self.err(E_MBOUND, b) }
            }
            S::MEnd => if b == b'-' { self.fin() } else { self.err(E_MBOUND, b) },
            S::MByte => {
                if b == self.pat(self.k) { self.k += 1; if self.k == self.plen() { self.s = S::MCr } }
                else {
                    for i in 0..self.k { let x = self.pat(i); self.one(MDATA, x) }
                    if b == b'\r' { self.k = 1 } else { self.k = 0; self.one(MDATA, b) }
                }
            }
            S::MLen => { self.one(MDATA, b); self.left -= 1; if self.left == 0 { self.s = S::MTail } }
            S::MTail => {
                if b == self.pat(self.k) { self.k += 1; if self.k == self.plen() { self.s = S::MCr } }
                else { self.fuzzy = self.k > 4; self.err(E_MBOUND, b) }
            }

            S::U => { self.log.ev(UBEGIN); self.at(UBEGIN, self.i - 1); self.s = S::UName; self.val = false; self.url(b) }
            S::UName | S::UVal => self.url(b),
            S::Hex1 => if is(b, HEX) { self.num = hexv(b) as u32; self.s = S::Hex2; self.eat() } else { self.uerr(b) },
            S::Hex2 => {
                if is(b, HEX) {
                    let v = (self.num * 16 + hexv(b) as u32) as u8;
                    self.one(if self.val { UVALUE } else { UNAME }, v);
                    self.s = if self.val { S::UVal } else { S::UName };
                    self.eat()
                } else { self.uerr(b) }
            }
            S::Done | S::Dead => {}
        }
    }
    fn start(&mut self, b: u8) {
        if b == b'H' { self.s = S::Det; self.k = 1 }
        else if is(b, UP) { self.one(METHOD, b); self.s = S::Method }
        else { self.err(E_METHOD, b) }
    }
    fn method(&mut self, b: u8) {
        if is(b, UP) { self.one(METHOD, b) } else if b == b' ' { self.s = S::Url1 } else { self.err(E_METHOD, b) }
    }
    fn name(&mut self, b: u8) {
        if is(b, TOK) { self.one(HNAME, low(b)); self.s = S::Name } else if b == b':' { self.s = S::Val1 } else { self.err(E_HNAME, b) }
    }
    fn value(&mut self, b: u8) {
        if is(b, FLD) { self.one(HVALUE, b); self.s = S::Val } else if b == b'"' { self.one(HVALUE, b); self.s = S::Quo }
        else if b == b'\r' { self.s = S::ValLf } else { self.err(E_HVALUE, b) }
    }
    fn len_end(&mut self, b: u8) {
        if b == b'\r' || b == b';' {
            self.ev(CLEN); self.log.num(self.clen, 8);
            if b == b';' { self.s = S::XName1 } else { if self.clen != 0 { self.ev(CXSFIN) } self.s = S::XLf }
        } else { self.err(E_CLEN, b) }
    }
    fn xend(&mut self, b: u8) {
        self.ev(CXFIN);
        if b == b'\r' { self.ev(CXSFIN); self.s = S::XLf } else { self.s = S::XName1 }
    }
    fn xname(&mut self, b: u8) {
        if is(b, TOK) { self.one(CXNAME, low(b)); self.s = S::XName } else if b == b'=' { self.s = S::XVal1 }
        else if b == b'\r' || b == b';' { self.xend(b) } else { self.err(E_CXNAME, b) }
    }
    fn xval(&mut self, b: u8) {
        if b == b'\r' || b == b';' { self.xend(b) } else if is(b, FLD) { self.one(CXVALUE, b); self.s = S::XVal }
        else if b == b'"' { self.s = S::XQuo } else { self.err(E_CXVALUE, b) }
    }
    fn uerr(&mut self, b: u8) { let k = if self.val { E_UVALUE } else { E_UNAME }; self.err(k, b) }
    fn url(&mut self, b: u8) {
        let k = if self.val { UVALUE } else { UNAME };
        if b == b'%' { self.s = S::Hex1 }
        else if b == b'+' { self.one(k, b' ') }
        else if b == b'&' || b == b';' { self.s = S::U }
        else if b == b'=' && !self.val { self.val = true; self.s = S::UVal }
        else if is(b, VIS) { self.one(k, b) }
        else { return self.uerr(b) }
        self.eat()
    }
    fn eat(&mut self) { self.left -= 1; if self.left == 0 { self.fin() } }
}
