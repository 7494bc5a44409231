//! Replays recorded inputs against the natively compiled code.
//! stdin: blocks of  H <harness> <params...> / B n hex / C n v / R hash (hash of markers reached, for sampled paths) / END
//! With one argument (a number k) only block k is run and panics, failed checks and crashes end the process.
use harness::sx::imp::{Ev, Replay, R, RH};
use std::alloc::{GlobalAlloc, Layout};
use std::io::Read;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
}
/// Every small allocation ends right before an inaccessible page, and freed memory becomes inaccessible.
struct Guard;
const PG: usize = 4096;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = (l.size() + PG - 1) / PG * PG;
        let p = mmap(core::ptr::null_mut(), n + PG, 3, 0x4022, -1, 0); // private, anonymous, no reserve
        if p as isize == -1 { return core::ptr::null_mut() }
        mprotect(p.add(n), PG, 0);
        p.add((n - l.size()) / l.align() * l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = (l.size() + PG - 1) / PG * PG;
        let s = (p as usize / PG * PG) as *mut u8;
        munmap(s, n + PG);
    }
}
#[global_allocator]
static G: Guard = Guard;

fn run(h: &str) {
    match h {
        "h1_ref" => harness::main1::h1_ref(), "h1_diff" => harness::main1::h1_diff(),
        "h1_safe" => harness::main1::h1_safe(), "h1_final" => harness::main1::h1_final(),
        "h2_ref" => harness::main2::h2_ref(), "h2_diff" => harness::main2::h2_diff(), "h2_safe" => harness::main2::h2_safe(),
        "h2_final" => harness::main2::h2_final(), "h2_settings" => harness::main2::h2_settings(),
        "h2_long" => harness::main3::h2_long(), "h1_long" => harness::main3::h1_long(),
        "u_decode" => harness::main4::u_decode(), "u_query" => harness::main4::u_query(), "u_field" => harness::main4::u_field(),
        "c_byte" => harness::main5::c_byte(), "c_flags" => harness::main5::c_flags(), "c_frame_type" => harness::main5::c_frame_type(),
        "c_error_code" => harness::main5::c_error_code(), "c_setting" => harness::main5::c_setting(), "c_frame_format" => harness::main5::c_frame_format(),
        "h1_nil" => harness::main6::h1_nil(), "h2_nil" => harness::main6::h2_nil(), "f_text" => harness::main6::f_text(),
        _ => { println!("REPLAY-UNKNOWN {}", h); std::process::exit(5) }
    }
}
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let only: Option<usize> = std::env::args().nth(1).map(|a| a.parse().unwrap());
    for (k, block) in s.split("END\n").filter(|b| !b.is_empty()).enumerate() {
        if only.map_or(false, |o| o != k) { continue }
        let mut lines = block.lines();
        let head: Vec<&str> = lines.next().unwrap().split(' ').collect();
        let mut r = Replay { params: head[2..].iter().map(|x| x.parse().unwrap()).collect(), evs: Default::default() };
        let mut want = None;
        for l in lines {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "B" => r.evs.push_back(Ev::B((0..f.get(2).map_or(0, |x| x.len() / 2)).map(|i| u8::from_str_radix(&f[2][2 * i..2 * i + 2], 16).unwrap()).collect())),
                "C" => r.evs.push_back(Ev::C(f[1].parse().unwrap(), f[2].parse().unwrap())),
                "R" => want = Some(f[1].parse::<u64>().unwrap()),
                _ => {}
            }
        }
        R.with(|x| *x.borrow_mut() = r);
        RH.with(|x| x.set(0));
        run(head[1]);
        if let Some(w) = want { if RH.with(|x| x.get()) != w { println!("REPLAY-DIFF {} {}", k, block); std::process::exit(6) } }
        println!("REPLAY-OK {}", k);
    }
}
