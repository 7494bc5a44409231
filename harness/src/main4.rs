//! Decoding utilities. Parameters: 0 text (TEXTS2), 1 w, 2 lo, 3 hi as in main1; 4 delimiter (-1 any byte), 5 normalise
use crate::log::Log;
use crate::main1::{window, In};
use crate::refs::{hexv, is, low, FLD, HEX, LWS, QTD, TOK, UP, VIS};
use crate::sx;
use crate::tables::TEXTS2;
use core::cell::Cell;
use http_box::util::{decode, DecodeError, FieldError, FieldIterator, QueryError, QueryIterator};

const NAME: u16 = 0x301; const NOVALUE: u16 = 0x302; const VALUE: u16 = 0x303; const ENAME: u16 = 0x304; const EVALUE: u16 = 0x305;
const TEXT: u16 = 0x306; const EBYTE: u16 = 0x307; const EHEX: u16 = 0x308;

pub fn input() -> In {
    let w = sx::param(1) as usize;
    let mut i = In { b: sx::buf(sx::size(800), 0u8), len: 0, hole: 0, n: 0 };
    let text = sx::text(TEXTS2[sx::param(0) as usize]);
    let t = text.len();
    i.b[..t].copy_from_slice(text);
    let (hole, len) = if sx::param(2) < 0 { (t, t + w) } else {
        let lo = sx::param(2) as usize;
        let hi = if sx::param(3) < 0 { t - w } else { sx::param(3) as usize };
        (lo + sx::choose(hi - lo + 1), t)
    };
    i.len = window(i.b, hole, w, len, |_| false); i.hole = hole;
    i
}
/// Index of the first byte that does not continue valid UTF-8 (the start of the faulty sequence), by RFC 3629's grammar.
fn utf8_bad(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7f => { i += 1; continue }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf), 0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf), 0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf), 0xf1..=0xf3 => (3, 0x80, 0xbf), 0xf4 => (3, 0x80, 0x8f),
            _ => return Some(i),
        };
        if i + n >= b.len() || b[i + 1] < lo || b[i + 1] > hi { return Some(i) }
        for k in 2..=n { if b[i + k] < 0x80 || b[i + k] > 0xbf { return Some(i) } }
        i += n + 1;
    }
    None
}
struct Buf { b: &'static mut [u8], n: usize }
impl Buf {
    fn new() -> Buf { Buf { b: sx::buf(sx::size(640), 0u8), n: 0 } }
    fn push(&mut self, b: u8) { self.b[self.n] = b; self.n += 1 }
    fn get(&self) -> &[u8] { &self.b[..self.n] }
    fn bad(&self) -> Option<u8> { match utf8_bad(self.get()) { Some(i) => Some(self.b[i]), None => None } }
}
fn put(l: &mut Log, k: u16, d: &[u8]) { l.ev(k); for &b in d { l.num(b as u64, 1) } }
/// %XX at position i (of the percent sign): the byte, or the byte at fault
fn hex(d: &[u8], i: usize) -> Result<u8, u8> {
    if i + 1 == d.len() { return Err(d[i]) }
    if i + 2 == d.len() { return Err(d[i + 1]) }
    if !is(d[i + 1], HEX) { return Err(d[i + 1]) }
    if !is(d[i + 2], HEX) { return Err(d[i + 2]) }
    Ok(hexv(d[i + 1]) * 16 + hexv(d[i + 2]))
}
struct Want { log: Log, err: bool, utf: bool, items: usize }
fn check_text(s: &str) { let b = s.as_bytes(); sx::check(b.len() <= sx::size(800), 704); if sx::on(750) { sx::check(utf8_bad(b).is_none(), 750) } }
fn compare(got: &Log, want: &Want, code: u32) {
    if want.utf { sx::check(got.n == want.log.n, 751); sx::check_eq(got.raw(got.n), want.log.raw(got.n), 752) }
    else { sx::check(got.n == want.log.n, code); sx::check_eq(got.raw(got.n), want.log.raw(got.n), code + 1) }
    sx::reach(if want.utf { 3 } else if want.err { 2 } else if want.items == 0 { 0 } else { 1 });
}
fn ref_decode(d: &[u8]) -> Want {
    let mut w = Want { log: Log::new(), err: false, utf: false, items: 1 };
    let mut o = Buf::new();
    let mut i = 0;
    while i < d.len() {
        if d[i] == b'+' { o.push(b' ') }
        else if d[i] == b'%' {
            match hex(d, i) { Ok(b) => o.push(b), Err(b) => { w.err = true; w.log.ev(EHEX); w.log.num(b as u64, 1); return w } }
            i += 2;
        } else if is(d[i], VIS) { o.push(d[i]) }
        else { w.err = true; w.log.ev(EBYTE); w.log.num(d[i] as u64, 1); return w }
        i += 1;
    }
    match o.bad() { Some(b) => { w.utf = true; w.log.ev(EBYTE); w.log.num(b as u64, 1) } None => put(&mut w.log, TEXT, o.get()) }
    w
}
#[no_mangle]
pub extern "C" fn u_decode() {
    let i = input();
    let d = i.b[..i.len].to_vec();
    let w = ref_decode(&d);
    let mut l = Log::new();
    match decode(&d) {
        Ok(s) => { check_text(&s); put(&mut l, TEXT, s.as_bytes()) }
        Err(DecodeError::Byte(b)) => { l.ev(EBYTE); l.num(b as u64, 1) }
        Err(DecodeError::HexSequence(b)) => { l.ev(EHEX); l.num(b as u64, 1) }
    }
    compare(&l, &w, 420);
}
/// one item; false: its text is not valid
fn item(w: &mut Want, name: &Buf, value: Option<&Buf>) -> bool {
    w.items += 1;
    if let Some(b) = name.bad() { w.utf = true; w.log.ev(ENAME); w.log.num(b as u64, 1); return false }
    if let Some(v) = value { if let Some(b) = v.bad() { w.utf = true; w.log.ev(EVALUE); w.log.num(b as u64, 1); return false } }
    put(&mut w.log, NAME, name.get());
    match value { Some(v) => put(&mut w.log, VALUE, v.get()), None => w.log.ev(NOVALUE) }
    true
}
fn ref_query(d: &[u8]) -> Want {
    let mut w = Want { log: Log::new(), err: false, utf: false, items: 0 };
    let (mut name, mut value) = (Buf::new(), Buf::new());
    let mut in_value = false;
    let mut open = false; // a field has begun and is not yet delivered
    let mut i = 0;
    while i < d.len() {
        let b = d[i];
        let mut bad = None;
        open = true;
        if b == b'&' || b == b';' {
            if i == 0 { bad = Some(b) } else {
                if !item(&mut w, &name, if in_value { Some(&value) } else { None }) { return w }
                name = Buf::new(); value = Buf::new(); in_value = false; open = false;
            }
        } else if b == b'=' && !in_value { if i == 0 { bad = Some(b) } else { in_value = true } }
        else {
            let c = if b == b'+' { Ok(b' ') } else if b == b'%' { let r = hex(d, i); i += 2; r } else if is(b, VIS) { Ok(b) } else { Err(b) };
            match c { Ok(c) => if in_value { value.push(c) } else { name.push(c) }, Err(c) => bad = Some(c) }
        }
        if let Some(c) = bad { w.err = true; w.log.ev(if in_value { EVALUE } else { ENAME }); w.log.num(c as u64, 1); return w }
        i += 1;
    }
    if open { item(&mut w, &name, if in_value { Some(&value) } else { None }); }
    w
}
fn drain<I: Iterator<Item = (String, Option<String>)>, J: Iterator<Item = (String, Option<String>)>>(mut it: I, silent: J, max: usize, err: &Cell<u32>, w: &Want, code: u32) {
    let mut l = Log::new();
    let mut n = 0;
    loop {
        match it.next() {
            Some((name, value)) => {
                sx::check(err.get() == 0, 702);
                n += 1;
                sx::check(n <= max, 701);
                if n > max { sx::end() }
                check_text(&name);
                put(&mut l, NAME, name.as_bytes());
                match value { Some(v) => { check_text(&v); put(&mut l, VALUE, v.as_bytes()) } None => l.ev(NOVALUE) }
            }
            None => break,
        }
    }
    // without an error callback: the same items
    if sx::on(code) {
        let mut s = Log::new();
        let mut m = 0;
        for (name, value) in silent {
            m += 1;
            sx::check(m <= n, code + 5);
            if m > n { sx::end() }
            put(&mut s, NAME, name.as_bytes());
            match value { Some(v) => put(&mut s, VALUE, v.as_bytes()), None => s.ev(NOVALUE) }
        }
        sx::check(s.n == l.n, code + 5);
        sx::check_eq(s.raw(s.n), l.raw(s.n), code + 5);
    }
    let e = err.get();
    sx::check(e >> 24 <= 1, 703);
    if e != 0 { l.ev(if e >> 8 & 1 == 0 { ENAME } else { EVALUE }); l.num(e as u64 & 0xff, 1) }
    // it stays ended, and silent
    for _ in 0..2 { sx::check(it.next().is_none(), 705); sx::check(err.get() == e, 706) }
    compare(&l, w, code);
}
#[no_mangle]
pub extern "C" fn u_query() {
    let i = input();
    let d = i.b[..i.len].to_vec();
    let w = ref_query(&d);
    let e = Cell::new(0u32);
    let mut it = QueryIterator::new(&d);
    it.on_error(|x| { let n = (e.get() >> 24) + 1; e.set(n << 24 | match x { QueryError::Name(b) => b as u32, QueryError::Value(b) => 256 | b as u32 }) });
    drain(it, QueryIterator::new(&d), d.len(), &e, &w, 430);
}
fn ref_field(d: &[u8], delim: u8, norm: bool) -> Want {
    let mut w = Want { log: Log::new(), err: false, utf: false, items: 0 };
    let mut i = 0;
    macro_rules! fail { ($k:expr, $b:expr) => {{ w.err = true; w.log.ev($k); w.log.num($b as u64, 1); return w }} }
    while i < d.len() {
        while i < d.len() && is(d[i], LWS) { i += 1 }
        if i == d.len() { break }
        let mut name = Buf::new();
        // name
        let mut value = false;
        loop {
            if i == d.len() { break }
            let b = d[i];
            i += 1;
            if b == b'=' { value = true; break }
            if b == b'/' { name.push(b) }
            else if b == delim { break }
            else if is(b, TOK) { name.push(if norm && is(b, UP) { low(b) } else { b }) }
            else { fail!(ENAME, b) }
        }
        if value { while i < d.len() && is(d[i], LWS) { i += 1 } if i == d.len() { value = false } }
        if !value { if !item(&mut w, &name, None) { return w } continue }
        let mut v = Buf::new();
        if d[i] == b'"' {
            i += 1;
            loop {
                if i == d.len() { fail!(EVALUE, d[i - 1]) }
                let b = d[i];
                i += 1;
                if b == b'"' { break }
                if b == b'\\' {
                    if i == d.len() { fail!(EVALUE, b) }
                    v.push(d[i]);
                    i += 1;
                } else if is(b, QTD) { v.push(b) } else { fail!(EVALUE, b) }
            }
            while i < d.len() && is(d[i], LWS) { i += 1 }
            if i < d.len() { if d[i] != delim { fail!(EVALUE, d[i]) } i += 1 }
        } else {
            while i < d.len() && d[i] != delim { if !is(d[i], FLD) { fail!(EVALUE, d[i]) } v.push(d[i]); i += 1 }
            if i < d.len() { i += 1 }
        }
        if !item(&mut w, &name, Some(&v)) { return w }
    }
    w
}
#[no_mangle]
pub extern "C" fn u_field() {
    let i = input();
    let d = i.b[..i.len].to_vec();
    let norm = sx::param(5) != 0;
    let delim = if sx::param(4) < 0 { sx::byte() } else { sx::param(4) as u8 };
    let any = sx::param(4) < 0;
    let w = if any { Want { log: Log::new(), err: false, utf: false, items: 0 } } else { ref_field(&d, delim, norm) };
    let e = Cell::new(0u32);
    let mut it = FieldIterator::new(&d, delim, norm);
    it.on_error(|x| { let n = (e.get() >> 24) + 1; e.set(n << 24 | match x { FieldError::Name(b) => b as u32, FieldError::Value(b) => 256 | b as u32 }) });
    if any {
        // only: it ends, stays ended, and reports at most one error
        let mut n = 0;
        while let Some((a, b)) = it.next() {
            check_text(&a);
            if let Some(b) = b { check_text(&b) }
            sx::check(e.get() == 0, 702);
            n += 1;
            sx::check(n <= d.len(), 701);
            if n > d.len() { sx::end() }
        }
        sx::check(e.get() >> 24 <= 1, 703);
        let x = e.get();
        for _ in 0..2 { sx::check(it.next().is_none(), 705); sx::check(e.get() == x, 706) }
        sx::reach(if x != 0 { 2 } else if n == 0 { 0 } else { 1 });
        return
    }
    drain(it, FieldIterator::new(&d, delim, norm), d.len(), &e, &w, 440);
}
