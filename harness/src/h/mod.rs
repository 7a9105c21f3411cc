//! Shared plumbing of the symbolic harnesses.
//!
//! The `sym_*` functions are supplied by the symbolic executor (input bytes are
//! symbolic variables, assertions are solver queries) and, for replays, by
//! `replay.rs` (input bytes are concrete, assertions are plain checks).
pub mod spec;

macro_rules! decl {
    ($abi:literal) => {
        extern $abi {
        pub fn sym_bytes(p: *mut u8, n: usize);
            pub fn sym_assume(c: bool);
            pub fn sym_assert(c: bool, id: u32);
            pub fn sym_reach(id: u32);
            pub fn sym_observe(v: u64);
            pub fn sym_param(i: u32) -> u64;
            pub fn sym_allow_panic(on: bool);
        }
    };
}
#[cfg(panic = "abort")]
decl!("C");
#[cfg(not(panic = "abort"))]
decl!("C-unwind");

pub const END: u64 = u64::MAX;

#[inline(never)]
pub fn param(i: u32) -> u64 {
    unsafe { sym_param(i) }
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn assert_id(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn allow_panic(on: bool) {
    unsafe { sym_allow_panic(on) }
}

/// Assertion identified by `FILE*10000 + line` (FILE is a per-module constant).
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::h::assert_id($c, FILE * 10000 + line!())
    };
}

/// One symbolic byte.
pub fn any_u8() -> u8 {
    let mut b = [0u8; 1];
    unsafe { sym_bytes(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn any_u64() -> u64 {
    let mut b = [0u8; 8];
    unsafe { sym_bytes(b.as_mut_ptr(), 8) };
    u64::from_le_bytes(b)
}
pub fn any_u32() -> u32 {
    let mut b = [0u8; 4];
    unsafe { sym_bytes(b.as_mut_ptr(), 4) };
    u32::from_le_bytes(b)
}

/// Build an input buffer from the template in params[start..].
///
/// Each template word is `count << 40 | kind << 32 | arg`:
/// kind 0: `count` concrete bytes of value arg; kind 1: `count` symbolic bytes;
/// kind 2: `count` symbolic bytes with `byte & mask == val`, arg = mask << 8 | val.
/// The buffer is exactly as long as the template (out-of-bounds reads are caught).
pub fn input(start: u32) -> Vec<u8> {
    let mut total = 0usize;
    let mut i = start;
    loop {
        let w = param(i);
        if w == END {
            break;
        }
        total += (w >> 40) as usize;
        i += 1;
    }
    let mut v: Vec<u8> = Vec::with_capacity(total);
    let mut i = start;
    loop {
        let w = param(i);
        if w == END {
            break;
        }
        let n = (w >> 40) as usize;
        let kind = (w >> 32) as u8;
        let at = v.len();
        match kind {
            0 => v.resize(at + n, w as u8),
            1 => {
                v.resize(at + n, 0);
                unsafe { sym_bytes(v.as_mut_ptr().add(at), n) };
            }
            _ => {
                let mask = (w >> 8) as u8;
                let val = w as u8;
                v.resize(at + n, 0);
                unsafe { sym_bytes(v.as_mut_ptr().add(at), n) };
                for k in at..at + n {
                    v[k] = (v[k] & !mask) | val;
                }
            }
        }
        i += 1;
    }
    v
}

/// Is `s` exactly the sub-slice `base[from..to]` (same memory, not a copy)?
pub fn is_sub(s: &[u8], base: &[u8], from: usize, to: usize) -> bool {
    if s.len() != to - from {
        return false;
    }
    // an empty slice carries no data: only its position would differ
    s.is_empty() || core::ptr::eq(s.as_ptr(), unsafe { base.as_ptr().add(from) })
}

macro_rules! entries {
    ($($m:ident :: { $($f:ident),* $(,)? })*) => {
        $(pub mod $m;)*
        pub const ENTRIES: &[(&str, fn())] = &[
            $($((stringify!($f), $m::$f as fn()),)*)*
            #[cfg(feature = "oid")]
            ("c20_oid", oidm::c20_oid as fn()),
        ];
        $($(
            const _: () = {
                #[export_name = concat!("h_", stringify!($f))]
                extern "C" fn e() { $m::$f() }
            };
        )*)*
    };
}
include!("entries.rs");
