//! Native replay of harness entry points on concrete inputs.
//!
//! replay ENTRY PARAMS INPUTHEX       one run; exit 0 ok, 10 assertion failed, 11 panic, 12 assumption not met
//! replay --batch                     lines "ENTRY PARAMS INPUTHEX" on stdin -> "ok HASH" / "fail ID" / "panic" / "assume"
mod h;
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Env {
    input: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    obs: u64,
    allow: bool,
    msg: String,
}
thread_local! {
    static ENV: RefCell<Env> = const { RefCell::new(Env { input: Vec::new(), pos: 0, params: Vec::new(), obs: 0, allow: false, msg: String::new() }) };
}
enum Out {
    Fail(u32),
    Assume,
}
#[no_mangle]
extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        for i in 0..n {
            let v = e.input.get(e.pos).copied().unwrap_or(0);
            e.pos += 1;
            unsafe { *p.add(i) = v };
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Out::Assume)
    }
}
#[no_mangle]
extern "C-unwind" fn sym_assert(c: bool, id: u32) {
    if !c {
        std::panic::panic_any(Out::Fail(id))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_reach(_id: u32) {}
#[no_mangle]
extern "C-unwind" fn sym_observe(v: u64) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        for b in v.to_le_bytes() {
            e.obs = (e.obs ^ b as u64).wrapping_mul(0x100000001b3);
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_param(i: u32) -> u64 {
    ENV.with(|e| e.borrow().params.get(i as usize).copied().unwrap_or(u64::MAX))
}
#[no_mangle]
extern "C-unwind" fn sym_allow_panic(on: bool) {
    ENV.with(|e| e.borrow_mut().allow = on)
}

fn run(entry: &str, params: &str, input: &str) -> (i32, String) {
    let f = match h::ENTRIES.iter().find(|x| x.0 == entry.trim_start_matches("h_")) {
        Some(f) => f.1,
        None => return (20, format!("no entry {}", entry)),
    };
    let bytes: Vec<u8> = if input == "-" {
        vec![]
    } else {
        (0..input.len() / 2).map(|i| u8::from_str_radix(&input[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let params: Vec<u64> = params.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect();
    ENV.with(|e| *e.borrow_mut() = Env { input: bytes, pos: 0, params, obs: 0xcbf29ce484222325, allow: false, msg: String::new() });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => (0, format!("ok {:016x}", ENV.with(|e| e.borrow().obs))),
        Err(p) => match p.downcast_ref::<Out>() {
            Some(Out::Fail(id)) => (10, format!("fail {}", id)),
            Some(Out::Assume) => (12, "assume".into()),
            None => {
                let (a, m) = ENV.with(|e| (e.borrow().allow, e.borrow().msg.clone()));
                if a {
                    (13, "panic-allowed".into())
                } else {
                    (11, format!("panic {}", m.replace('\n', " ")))
                }
            }
        },
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        ENV.with(|e| {
            if let Ok(mut e) = e.try_borrow_mut() {
                e.msg = m
            }
        })
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for e in h::ENTRIES {
            println!("{}", e.0);
        }
        return;
    }
    if a.len() == 2 && a[1] == "--batch" {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split(' ').collect();
            let (_, s) = run(w[0], w[1], w[2]);
            println!("{}", s);
        }
        return;
    }
    let (c, s) = run(&a[1], &a[2], &a[3]);
    println!("{}", s);
    std::process::exit(c);
}
