//! C20: the object identifier encoder of der-oid-macro.
const FILE: u32 = 6;
use super::*;
use crate::ck;

mod m {
    /// Stand-in for the compiler's token stream: the macro only converts it from and to text.
    pub mod proc_macro {
        #[derive(Debug, Clone)]
        pub struct TokenStream(pub String);
        #[derive(Debug)]
        pub struct LexError;
        impl core::fmt::Display for TokenStream {
            fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl core::str::FromStr for TokenStream {
            type Err = LexError;
            fn from_str(s: &str) -> Result<Self, LexError> {
                Ok(TokenStream(s.to_string()))
            }
        }
    }
    include!(concat!(env!("OUT_DIR"), "/oid/lib.rs"));
}
use m::proc_macro::TokenStream;

/// The octets of an array expression of integer literals
fn octets(s: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    let ws = |c: u8| c == b' ' || c == b'\n' || c == b'&';
    while i < s.len() && ws(s[i]) {
        i += 1;
    }
    if i >= s.len() || s[i] != b'[' {
        return None;
    }
    i += 1;
    loop {
        while i < s.len() && (ws(s[i]) || s[i] == b',') {
            i += 1;
        }
        if i >= s.len() {
            return None;
        }
        if s[i] == b']' {
            i += 1;
            while i < s.len() {
                if !ws(s[i]) {
                    return None;
                }
                i += 1;
            }
            return Some(v);
        }
        let hex = s[i] == b'0' && i + 1 < s.len() && s[i + 1] == b'x';
        if hex {
            i += 2;
        }
        let mut x = 0u32;
        let mut n = 0;
        while i < s.len() && s[i] != b',' && s[i] != b']' && s[i] != b'u' && s[i] != b'_' && !ws(s[i]) {
            let c = s[i];
            // branch-free value of a digit
            let d = (c & 15) as u32 + if c >= 0x60 { 9 } else { 0 };
            let ok = c >= b'0' && c <= b'9' || hex && c >= b'a' && c <= b'f';
            if !ok {
                return None;
            }
            x = x * (if hex { 16 } else { 10 }) + d;
            n += 1;
            i += 1;
        }
        // optional suffix u8
        while i < s.len() && (s[i] == b'u' || s[i] == b'8' || s[i] == b'_') {
            i += 1;
        }
        if n == 0 || x > 255 {
            return None;
        }
        v.push(x as u8);
    }
}

fn base128(v: u128, out: &mut Vec<u8>) {
    let mut n = 1;
    while n < 19 && v >> (7 * n) != 0 {
        n += 1;
    }
    while n > 0 {
        n -= 1;
        out.push(((v >> (7 * n)) & 0x7f) as u8 | if n > 0 { 0x80 } else { 0 });
    }
}

/// The same for any number of decimal digits
fn base128_digits(d: &[u8], out: &mut Vec<u8>) {
    // 28 bits (four septets) in each limb, lowest first
    let mut l: Vec<u64> = vec![0];
    for x in d {
        let mut carry = *x as u64;
        let mut i = 0;
        while i < l.len() {
            let t = l[i] * 10 + carry;
            l[i] = t & 0xfff_ffff;
            carry = t >> 28;
            i += 1;
        }
        if carry != 0 {
            l.push(carry);
        }
    }
    let mut n = 4 * l.len();
    while n > 1 && (l[(n - 1) / 4] >> (7 * ((n - 1) % 4))) & 0x7f == 0 {
        n -= 1;
    }
    while n > 0 {
        n -= 1;
        out.push(((l[n / 4] >> (7 * (n % 4))) & 0x7f) as u8 | if n > 0 { 0x80 } else { 0 });
    }
}

/// params: relative; text of the identifier (symbolic octets are decimal digits)
pub fn c20_oid() {
    let rel = param(0) == 1;
    let b = input(1);
    let mut comps: Vec<u128> = vec![];
    // up to 19 digits are accumulated in 64 bits
    let (mut cur, mut big, mut nd) = (0u64, 0u128, 0);
    // components of more than 38 digits: index and digits
    let mut huge: Vec<(usize, Vec<u8>)> = vec![];
    let mut digits: Vec<u8> = vec![];
    let mut i = 0;
    while i <= b.len() {
        if i == b.len() || b[i] == b'.' {
            if nd > 38 {
                huge.push((comps.len(), core::mem::take(&mut digits)));
            }
            digits.clear();
            comps.push(if nd <= 19 { cur as u128 } else { big });
            (cur, big, nd) = (0, 0, 0);
        } else if b[i] != b' ' {
            assume(b[i] <= b'9');
            let d = b[i] - b'0';
            nd += 1;
            digits.push(d);
            if nd > 38 {
            } else if nd <= 19 {
                cur = cur * 10 + d as u64;
                big = cur as u128;
            } else {
                big = big * 10 + d as u128;
            }
        }
        i += 1;
    }
    let mut want = vec![];
    let mut first = 0;
    let mut must_fail = false;
    let mut may_fail = false;
    if !rel {
        if comps.len() < 2 || comps[0] > 2 || comps[1] > 39 && comps[0] < 2 {
            // not an object identifier
            must_fail = true;
            // documented nowhere: the single component 0
            may_fail = comps.len() < 2 && comps[0] == 0;
        } else {
            // limitation: refused, although valid
            may_fail = comps[1] > 39;
            base128(comps[0] * 40 + comps[1], &mut want);
            first = 2;
        }
    }
    let mut k = first;
    while k < comps.len() {
        match huge.iter().find(|(i, _)| *i == k) {
            Some((_, d)) => base128_digits(d, &mut want),
            None => base128(comps[k], &mut want),
        }
        k += 1;
    }
    let mut text = String::new();
    if rel {
        text.push_str("rel ");
    }
    text.push_str(unsafe { core::str::from_utf8_unchecked(&b) });
    if must_fail || may_fail {
        reach(2);
        allow_panic(true);
    } else {
        reach(1);
    }
    let r = m::encode_oid(TokenStream(text));
    allow_panic(false);
    if must_fail {
        ck!(may_fail);
        return;
    }
    let got = octets(r.0.as_bytes());
    ck!(got.is_some());
    let got = got.unwrap();
    observe(got.len() as u64);
    ck!(got.len() == want.len());
    let mut diff = 0u8;
    let mut k = 0;
    while k < want.len() {
        diff |= got[k] ^ want[k];
        k += 1;
    }
    ck!(diff == 0);
}
