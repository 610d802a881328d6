//! Runs one harness natively on concrete inputs: replay ENTRY PARAMS INPUTS
//!   PARAMS  comma separated numbers (or -)      INPUTS  width:value,... (or -)
//! Exit status: 0 completed, 10 an assertion failed, 11 an assumption failed, 101 panic, other: crash.
use std::cell::RefCell;

thread_local! {
    static INP: RefCell<(Vec<(u8, u64)>, usize)> = RefCell::new((vec![], 0));
    static PAR: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static OBS: RefCell<Vec<u8>> = RefCell::new(vec![]);
}
fn next(w: u8) -> u64 {
    INP.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        match i.0.get(k) {
            Some((iw, v)) => {
                if *iw != w {
                    println!("WIDTH-MISMATCH at input {}", k);
                    std::process::exit(12);
                }
                *v
            }
            None => {
                println!("INPUT-EXHAUSTED");
                0
            }
        }
    })
}
fn dump() {
    OBS.with(|o| {
        let s: String = o.borrow().iter().map(|b| format!("{:02x}", b)).collect();
        println!("OBS {}", s);
    });
}
#[no_mangle]
pub extern "C" fn __sym_byte() -> u8 {
    next(8) as u8
}
#[no_mangle]
pub extern "C" fn __sym_u16() -> u16 {
    next(16) as u16
}
#[no_mangle]
pub extern "C" fn __sym_u32() -> u32 {
    next(32) as u32
}
#[no_mangle]
pub extern "C" fn __sym_u64() -> u64 {
    next(64)
}
#[no_mangle]
pub extern "C" fn __sym_assume(b: bool) {
    if !b {
        println!("ASSUME-FAILED");
        std::process::exit(11);
    }
}
#[no_mangle]
pub extern "C" fn __sym_assert(b: bool, id: u32) {
    if !b {
        dump();
        println!("ASSERT {}", id);
        std::process::exit(10);
    }
}
#[no_mangle]
pub extern "C" fn __sym_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn __sym_observe(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    OBS.with(|o| o.borrow_mut().extend_from_slice(s));
}
#[no_mangle]
pub extern "C" fn __sym_log(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("LOG {}", String::from_utf8_lossy(s));
}
#[no_mangle]
pub extern "C" fn __sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn __sym_param(i: u32) -> u64 {
    PAR.with(|p| *p.borrow().get(i as usize).unwrap_or(&0))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[2] != "-" {
        PAR.with(|p| *p.borrow_mut() = a[2].split(',').map(|x| x.parse().unwrap()).collect());
    }
    if a[3] != "-" {
        INP.with(|p| {
            p.borrow_mut().0 = a[3]
                .split(',')
                .map(|x| {
                    let (w, v) = x.split_once(':').unwrap();
                    (w.parse().unwrap(), v.parse().unwrap())
                })
                .collect()
        });
    }
    let f = harness::ENTRIES
        .iter()
        .find(|e| e.0 == a[1])
        .unwrap_or_else(|| {
            println!("unknown entry {}", a[1]);
            std::process::exit(13)
        });
    (f.1)();
    dump();
    println!("DONE");
}
