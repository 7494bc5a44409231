//! Code points and byte classes, for every value (RFC 7540 sections 6, 7, 11; RFC 7230 tokens).
use crate::sx;
use http_box::byte;
use http_box::http2::{ErrorCode, Flags, FrameFormat, FrameType, Setting};

/// bit k of the result is answer k
fn bits(a: &[bool]) -> u32 { let mut r = 0; for (i, &b) in a.iter().enumerate() { r |= (b as u32) << i } r }
fn want(known: bool, k: u32) -> u32 { if known { 1 << k } else { 0 } }

#[no_mangle]
pub extern "C" fn c_byte() {
    let b = sx::byte();
    let letter = (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z');
    let digit = b >= b'0' && b <= b'9';
    let mark = match b { b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~' => true, _ => false };
    let field = (b == 9 || b >= 32) && b != 127 && b != b'"';
    sx::check(byte::is_token(b) == (letter || digit || mark), 450);
    sx::check(byte::is_header_field(b) == field, 451);
    sx::check(byte::is_quoted_header_field(b) == (field && b != b'\\'), 452);
    sx::reach(0);
}
#[no_mangle]
pub extern "C" fn c_flags() {
    let b = sx::byte();
    let f = Flags::from_u8(b);
    sx::check(f.as_byte() == b, 460);
    sx::check(f.is_ack() == (b & 1 != 0), 461);
    sx::check(f.is_end_stream() == (b & 1 != 0), 461);
    sx::check(f.is_end_headers() == (b & 4 != 0), 461);
    sx::check(f.is_padded() == (b & 8 != 0), 461);
    sx::check(f.is_priority() == (b & 0x20 != 0), 461);
    sx::check(f.is_empty() == (b == 0), 461);
    let c = sx::byte();
    sx::check((Flags::from_u8(c) == f) == (b == c), 462);
    sx::reach(0);
}
fn frame_type(t: FrameType, b: u8) {
    let got = bits(&[t.is_data(), t.is_headers(), t.is_priority(), t.is_rst_stream(), t.is_settings(), t.is_push_promise(), t.is_push_ping(), t.is_go_away(), t.is_window_update(), t.is_continuation(), t.is_unsupported()]);
    sx::check(got == 1 << if b <= 9 { b as u32 } else { 10 }, 464);
    sx::check(t.as_byte() == if b <= 9 { b } else { 0xff }, 465);
}
#[no_mangle]
pub extern "C" fn c_frame_type() {
    let b = sx::byte();
    let t = FrameType::from_u8(b);
    frame_type(t, b);
    sx::check(FrameType::from_u8(t.as_byte()) == t, 466);
    sx::reach(if b <= 9 { 0 } else { 1 });
}
#[no_mangle]
pub extern "C" fn c_error_code() {
    let b = sx::byte();
    let e = ErrorCode::from_u8(b);
    let got = bits(&[e.is_no_error(), e.is_protocol(), e.is_internal(), e.is_flow_control(), e.is_settings_timeout(), e.is_stream_closed(), e.is_frame_size(), e.is_refused_stream(),
        e.is_cancel(), e.is_compression(), e.is_connect(), e.is_enhance_your_calm(), e.is_inadequate_security(), e.is_http_1_1_required()]);
    sx::check(got == want(b <= 13, b as u32 & 15), 468);
    sx::check(e.as_byte() == if b <= 13 { b } else { 0xff }, 469);
    sx::check(ErrorCode::from_u8(e.as_byte()) == e, 470);
    sx::check((e == ErrorCode::Unsupported) == (b > 13), 470);
    sx::reach(if b <= 13 { 0 } else { 1 });
}
fn num<const N: usize>() -> u64 { let mut b = [0u8; N]; sx::bytes(&mut b); let mut v = 0; for x in b { v = v << 8 | x as u64 } v }
#[no_mangle]
pub extern "C" fn c_setting() {
    let id = num::<2>() as u16;
    let v = num::<4>() as u32;
    let s = Setting::new(id, v);
    let got = bits(&[s.is_unsupported(), s.is_header_table_size(), s.is_enable_push(), s.is_max_concurrent_streams(), s.is_initial_window_size(), s.is_max_frame_size(), s.is_max_header_list_size()]);
    let k = if id >= 1 && id <= 6 { id as u32 } else { 0 };
    sx::check(got == 1 << k, 472);
    sx::check(s.value() == v, 473);
    sx::reach(if k != 0 { 0 } else { 1 });
}
#[no_mangle]
pub extern "C" fn c_frame_format() {
    let n = num::<3>() as u32; // a frame length has 24 bits
    let (t, f) = (sx::byte(), sx::byte());
    let id = num::<4>() as u32;
    let x = FrameFormat::new(n, t, f, id);
    sx::check(x.payload_length() == n, 475);
    sx::check(x.stream_id() == id, 476);
    sx::check(x.flags().as_byte() == f, 477);
    frame_type(x.frame_type(), t);
    sx::reach(0);
}
