//! Reference semantics (X.690 plus the documented limits of the library),
//! written independently of der-parser, asn1-rs and nom.
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone};
use der_parser::ber::*;

use super::is_sub;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R<T> {
    Ok(T),
    /// the input ends before the encoding does
    Short,
    Bad,
}

#[derive(Clone, Copy)]
pub struct Hd {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub tl: usize,
    pub indef: bool,
    /// definite length (0 when indefinite)
    pub len: u64,
    /// header size
    pub hl: usize,
    /// definite length field uses the fewest octets
    pub min: bool,
    /// tag number does not fit 32 bits (value not specified)
    pub bigtag: bool,
}

/// Decode identifier and length octets.
pub fn hdr(b: &[u8], der: bool) -> R<Hd> {
    let n = b.len();
    if n == 0 {
        return R::Short;
    }
    let b0 = b[0];
    let class = b0 >> 6;
    let cons = b0 & 0x20 != 0;
    let mut tag = (b0 & 0x1f) as u64;
    let mut p = 1;
    if b0 & 0x1f == 0x1f {
        tag = 0;
        loop {
            if p == n {
                return R::Short;
            }
            if p == 6 {
                return R::Bad; // more than 5 tag-number octets
            }
            let c = b[p];
            p += 1;
            tag = (tag << 7) | (c & 0x7f) as u64;
            if c & 0x80 == 0 {
                break;
            }
        }
    }
    let bigtag = tag >> 32 != 0;
    let tag = tag as u32;
    let tl = p;
    if p == n {
        return R::Short;
    }
    let l0 = b[p];
    p += 1;
    if l0 & 0x80 == 0 {
        return R::Ok(Hd { class, cons, tag, tl, indef: false, len: l0 as u64, hl: p, min: true, bigtag });
    }
    if l0 == 0x80 {
        if der || !cons {
            return R::Bad;
        }
        return R::Ok(Hd { class, cons, tag, tl, indef: true, len: 0, hl: p, min: true, bigtag });
    }
    if l0 == 0xff {
        return R::Bad;
    }
    let cnt = (l0 & 0x7f) as usize;
    // `cnt` may be symbolic: the comparison forks once, the loop is bounded by the input
    if n - p < cnt {
        return R::Short;
    }
    let mut len: u64 = 0;
    let mut k = 0;
    let mut over = false;
    let first = b[p];
    while k < cnt {
        if len >> 56 != 0 {
            over = true;
        }
        len = (len << 8) | b[p + k] as u64;
        k += 1;
    }
    if over {
        return R::Bad;
    }
    let min = first != 0 && len >= 0x80;
    R::Ok(Hd { class, cons, tag, tl, indef: false, len, hl: p + cnt, min, bigtag })
}

/// Is this element the two octets 00 00?
fn is_eoc(b: &[u8]) -> bool {
    b.len() >= 2 && b[0] == 0 && b[1] == 0
}

/// Set when a header with tag number 0 and length 0 other than `00 00` was met
/// directly inside indefinite-length content (see KNOWN_FINDINGS).
pub struct Fl {
    pub fake: bool,
    /// reference variant: such a header terminates the content (recorded finding)
    pub lax: bool,
}
impl Fl {
    pub fn new() -> Fl {
        Fl { fake: false, lax: false }
    }
}

#[derive(Clone, Copy)]
pub struct Sp {
    pub h: Hd,
    /// content = b[h.hl..ce], element = b[..end]
    pub ce: usize,
    pub end: usize,
}

/// Extent of the element at the start of `b`.
pub fn span(b: &[u8], der: bool, fl: &mut Fl) -> R<Sp> {
    let h = match hdr(b, der) {
        R::Ok(h) => h,
        R::Short => return R::Short,
        R::Bad => return R::Bad,
    };
    content_span(b, h, fl)
}

pub fn content_span(b: &[u8], h: Hd, fl: &mut Fl) -> R<Sp> {
    if !h.indef {
        if h.len > (b.len() - h.hl) as u64 {
            return R::Short;
        }
        let end = h.hl + h.len as usize;
        return R::Ok(Sp { h, ce: end, end });
    }
    let mut p = h.hl;
    loop {
        let r = &b[p..];
        if is_eoc(r) {
            return R::Ok(Sp { h, ce: p, end: p + 2 });
        }
        match span(r, false, fl) {
            R::Ok(s) => {
                if s.h.tag == 0 && !s.h.indef && s.h.len == 0 {
                    fl.fake = true;
                    if fl.lax {
                        return R::Ok(Sp { h, ce: p + s.end - 2, end: p + s.end });
                    }
                }
                p += s.end;
            }
            R::Short => return R::Short,
            R::Bad => return R::Bad,
        }
    }
}

/// Verdict of the reference on acceptance.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Yes,
    No,
    /// tolerated non-conformity: either outcome is fine, but an accepted value must be right
    Any,
}

impl Acc {
    pub fn and(self, o: Acc) -> Acc {
        match (self, o) {
            (Acc::No, _) | (_, Acc::No) => Acc::No,
            (Acc::Yes, Acc::Yes) => Acc::Yes,
            _ => Acc::Any,
        }
    }
    fn b(c: bool) -> Acc {
        if c {
            Acc::Yes
        } else {
            Acc::No
        }
    }
    /// `Any` unless c
    fn lax(c: bool) -> Acc {
        if c {
            Acc::Yes
        } else {
            Acc::Any
        }
    }
}

pub fn all(d: &[u8], f: fn(u8) -> bool) -> bool {
    for &c in d {
        if !f(c) {
            return false;
        }
    }
    true
}
fn ascii(c: u8) -> bool {
    c < 0x80
}
fn visible(c: u8) -> bool {
    c >= 0x20 && c < 0x80
}
fn numeric(c: u8) -> bool {
    (c >= b'0' && c <= b'9') || c == b' '
}
fn printable(c: u8) -> bool {
    matches!(c, b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b' ' | b'\'' | b'(' | b')' | b'+' | b','
        | b'-' | b'.' | b'/' | b':' | b'=' | b'?')
}

/// RFC 3629 (Unicode table 3-7)
pub fn utf8_ok(d: &[u8]) -> bool {
    let mut i = 0;
    let n = d.len();
    while i < n {
        let a = d[i];
        if a < 0x80 {
            i += 1;
            continue;
        }
        let (k, lo, hi) = match a {
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if n - i <= k {
            return false;
        }
        if d[i + 1] < lo || d[i + 1] > hi {
            return false;
        }
        let mut j = 2;
        while j <= k {
            if d[i + j] & 0xc0 != 0x80 {
                return false;
            }
            j += 1;
        }
        i += k + 1;
    }
    true
}

pub fn utf16_ok(d: &[u8]) -> bool {
    if d.len() % 2 != 0 {
        return false;
    }
    let mut i = 0;
    while i < d.len() {
        let hi = d[i] & 0xfc;
        if hi == 0xd8 {
            if i + 2 >= d.len() || d[i + 2] & 0xfc != 0xdc {
                return false;
            }
            i += 4;
        } else if hi == 0xdc {
            return false;
        } else {
            i += 2;
        }
    }
    true
}

fn dig(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn two(d: &[u8], i: usize) -> Option<u8> {
    if i + 2 <= d.len() && dig(d[i]) && dig(d[i + 1]) {
        Some((d[i] - b'0') * 10 + (d[i + 1] - b'0'))
    } else {
        None
    }
}

fn tz(d: &[u8]) -> Option<ASN1TimeZone> {
    if d.len() == 1 && d[0] == b'Z' {
        return Some(ASN1TimeZone::Z);
    }
    if d.len() == 5 && (d[0] == b'+' || d[0] == b'-') {
        let h = two(d, 1)?;
        let m = two(d, 3)?;
        let h = if d[0] == b'-' { -(h as i8) } else { h as i8 };
        return Some(ASN1TimeZone::Offset(h, m as i8));
    }
    None
}

/// UTCTime: YYMMDDhhmm[ss](Z|+hhmm|-hhmm)
pub fn utctime(d: &[u8]) -> T {
    let r = two(d, 0).and_then(|y| common(d, 2, y as u32));
    let (mut t, rest) = match r {
        Some(x) => x,
        None => return T::No,
    };
    if rest == 10 && d.len() != 11 {
        // local offset without seconds: allowed by X.680, not required here
        return if d.len() == 15 && (d[10] == b'+' || d[10] == b'-') { T::Any } else { T::No };
    }
    match tz(&d[rest..]) {
        Some(z) => t.tz = z,
        None => return T::No,
    }
    T::Ok(t)
}

/// Outcome of a time decoding.
pub enum T {
    Ok(ASN1DateTime),
    /// not decided by the reference
    Any,
    No,
}

/// month to (optional) seconds, from offset i; second component: offset of what follows
fn common(d: &[u8], i: usize, y: u32) -> Option<(ASN1DateTime, usize)> {
    let mo = two(d, i)?;
    let da = two(d, i + 2)?;
    let h = two(d, i + 4)?;
    let mi = two(d, i + 6)?;
    if mo > 12 || da > 31 || h > 23 || mi > 59 {
        return None;
    }
    let (s, e) = match two(d, i + 8) {
        Some(s) => (s, i + 10),
        None => (0, i + 8),
    };
    if s > 59 {
        return None;
    }
    Some((ASN1DateTime::new(y, mo, da, h, mi, s, None, ASN1TimeZone::Undefined), e))
}

/// GeneralizedTime: YYYYMMDDhhmm[ss[(.|,)f{1,3}]][Z|+hhmm|-hhmm]
pub fn gentime(d: &[u8]) -> T {
    if d.len() >= 10 && d.len() < 13 {
        return T::Any; // hours (and minutes) only
    }
    let r = two(d, 0).and_then(|hi| two(d, 2).and_then(|lo| common(d, 4, hi as u32 * 100 + lo as u32)));
    let (mut t, rest) = match r {
        Some(x) => x,
        None => return T::No,
    };
    let mut r = &d[rest..];
    if rest == 12 && d.len() != 13 {
        let c = r[0];
        return if c == b'+' || c == b'-' || c == b'.' || c == b',' { T::Any } else { T::No };
    }
    if rest == 14 && !r.is_empty() && (r[0] == b'.' || r[0] == b',') {
        let mut f = 0u16;
        let mut k = 0;
        while k < 3 && 1 + k < r.len() && dig(r[1 + k]) {
            f = f * 10 + (r[1 + k] - b'0') as u16;
            k += 1;
        }
        // more digits than milliseconds, or a decimal mark without digits
        if (k == 3 && r.len() > 4 && dig(r[4])) || (k == 0 && r.len() > 1) {
            return T::Any;
        }
        if k == 0 {
            return T::No;
        }
        if k == 1 {
            f *= 100;
        }
        if k == 2 {
            f *= 10;
        }
        t.millisecond = Some(f);
        r = &r[1 + k..];
    }
    if !r.is_empty() {
        match tz(r) {
            Some(z) => t.tz = z,
            None => return T::No,
        }
    }
    T::Ok(t)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Mode {
    pub der: bool,
    pub lax: bool,
}
pub const BER: Mode = Mode { der: false, lax: false };
pub const DER: Mode = Mode { der: true, lax: false };
/// BER with the recorded deviation on end-of-contents octets
pub const LAX: Mode = Mode { der: false, lax: true };

/// Does the content `d` (delimited) decode as universal type `tag`?
/// `dlen1`: the length field is definite and equal to 1 (for BOOLEAN).
/// depth: number of nested levels allowed, this object included.
pub fn content_acc(tag: u32, cons: bool, indef: bool, d: &[u8], m: Mode, depth: usize, fl: &mut Fl) -> Acc {
    if depth == 0 {
        return Acc::No;
    }
    match tag {
        1 => {
            if indef || d.len() != 1 {
                return Acc::No;
            }
            let ok = !m.der || d[0] == 0 || d[0] == 0xff;
            Acc::b(ok).and(Acc::lax(!cons))
        }
        2 => {
            let a = Acc::lax(!cons);
            if d.is_empty() {
                return if m.der { Acc::No } else { Acc::Any };
            }
            if !m.der || d.len() < 2 {
                return a;
            }
            if d[0] == 0 && d[1] < 0x80 {
                return Acc::No;
            }
            if d[0] == 0xff && d[1] >= 0x80 {
                return Acc::Any;
            }
            a
        }
        3 => {
            if cons || d.is_empty() {
                return Acc::No;
            }
            if m.der {
                let u = d[0];
                if u > 7 {
                    return Acc::No;
                }
                if d.len() == 1 {
                    return Acc::lax(u == 0);
                }
                let last = d[d.len() - 1];
                return Acc::b(last & ((1u8 << (u & 7)) - 1) == 0);
            }
            if d[0] > 7 || d.len() == 1 && d[0] != 0 {
                return Acc::Any;
            }
            Acc::Yes
        }
        4 => Acc::lax(!cons),
        5 => Acc::lax(!cons && d.is_empty()),
        6 | 13 => Acc::lax(!cons && oid_wf(d)),
        7 | 22 | 25 | 27 => Acc::b(!cons && all(d, ascii)),
        10 => {
            if cons {
                return Acc::No;
            }
            match enum_val_ok(d) {
                false => Acc::No,
                true => Acc::lax(!d.is_empty() && d[0] < 0x80),
            }
        }
        12 => Acc::b(!cons && utf8_ok(d)),
        18 => Acc::b(!cons && all(d, numeric)),
        19 => Acc::b(!cons && all(d, printable)),
        20 | 21 | 26 => Acc::b(!cons && all(d, visible)),
        28 => Acc::b(!cons),
        30 => Acc::b(!cons && utf16_ok(d)),
        16 | 17 => {
            if !cons {
                return Acc::No;
            }
            let mut p = 0;
            let mut a = Acc::Yes;
            while p < d.len() {
                let r = &d[p..];
                match elem(r, m, depth - 1, fl) {
                    R::Ok((x, e)) => {
                        a = a.and(x);
                        if a == Acc::No {
                            return a;
                        }
                        p += e;
                    }
                    _ => return Acc::No,
                }
            }
            a
        }
        23 | 24 => {
            if m.der && (d.is_empty() || d[d.len() - 1] != b'Z') {
                return Acc::No;
            }
            time_acc(tag, d).and(Acc::lax(!cons))
        }
        0 => Acc::lax(!cons && d.is_empty()),
        _ => Acc::Yes,
    }
}

fn enum_val_ok(d: &[u8]) -> bool {
    // value fits 32 bits: everything but the last 4 octets is zero
    let n = d.len();
    let mut i = 0;
    while i + 4 < n {
        if d[i] != 0 {
            return false;
        }
        i += 1;
    }
    true
}

/// OID contents are stored raw; well-formedness is not checked by the library.
fn oid_wf(d: &[u8]) -> bool {
    !d.is_empty() && d[d.len() - 1] < 0x80
}

pub fn time_acc(tag: u32, d: &[u8]) -> Acc {
    let r = if tag == 23 { utctime(d) } else { gentime(d) };
    match r {
        // month/day zero are not calendar dates: tolerated
        T::Ok(t) => Acc::lax(t.month > 0 && t.day > 0),
        T::Any => Acc::Any,
        T::No => Acc::No,
    }
}

/// Acceptance and total size of the element at the start of `b`.
pub fn elem(b: &[u8], m: Mode, depth: usize, fl: &mut Fl) -> R<(Acc, usize)> {
    if depth == 0 {
        return R::Bad;
    }
    fl.lax = m.lax;
    let s = match span(b, m.der, fl) {
        R::Ok(s) => s,
        R::Short => return R::Short,
        R::Bad => return R::Bad,
    };
    let mut a = Acc::Yes;
    if s.h.bigtag {
        a = Acc::Any;
    }
    if m.der && !s.h.min {
        a = Acc::Any;
    }
    let d = &b[s.h.hl..s.ce];
    if s.h.class == 0 {
        a = a.and(content_acc(s.h.tag, s.h.cons, s.h.indef, d, m, depth, fl));
    }
    R::Ok((a, s.end))
}

/// Does the header object say what the octets say?
pub fn same_hdr(h: &Header, b: &[u8], s: &Hd) -> bool {
    if h.class() as u8 != s.class || h.is_constructed() != s.cons || h.is_primitive() == s.cons {
        return false;
    }
    if !s.bigtag && h.tag().0 != s.tag {
        return false;
    }
    match h.length() {
        Length::Definite(l) => {
            if s.indef || l as u64 != s.len {
                return false;
            }
        }
        Length::Indefinite => {
            if !s.indef {
                return false;
            }
        }
    }
    match h.raw_tag() {
        Some(r) => is_sub(r, b, 0, s.tl),
        None => false,
    }
}

/// Does `c` say what the content octets `d = b[from..to]` say, for universal type `tag`?
/// (only meaningful when the content was accepted)
pub fn same_content(c: &BerObjectContent, tag: u32, b: &[u8], from: usize, to: usize, m: Mode) -> bool {
    let d = &b[from..to];
    let is = |s: &[u8]| is_sub(s, b, from, to);
    use BerObjectContent as C;
    match (tag, c) {
        (0, C::EndOfContent) => true,
        (1, C::Boolean(v)) => d.len() == 1 && *v == (d[0] != 0),
        (2, C::Integer(s)) => is(s),
        (3, C::BitString(u, o)) => !d.is_empty() && *u == d[0] && is_sub(o.data, b, from + 1, to),
        (4, C::OctetString(s)) => is(s),
        (5, C::Null) => true,
        (6, C::OID(o)) => is(o.as_bytes()),
        (13, C::RelativeOID(o)) => is(o.as_bytes()),
        (7, C::ObjectDescriptor(s)) => is(s.as_bytes()),
        (22, C::IA5String(s)) => is(s.as_bytes()),
        (25, C::GraphicString(s)) => is(s.as_bytes()),
        (27, C::GeneralString(s)) => is(s.as_bytes()),
        (18, C::NumericString(s)) => is(s.as_bytes()),
        (19, C::PrintableString(s)) => is(s.as_bytes()),
        (20, C::T61String(s)) => is(s.as_bytes()),
        (21, C::VideotexString(s)) => is(s.as_bytes()),
        (26, C::VisibleString(s)) => is(s.as_bytes()),
        (12, C::UTF8String(s)) => is(s.as_bytes()),
        (28, C::UniversalString(s)) => is(s),
        (30, C::BmpString(s)) => is(s),
        (10, C::Enum(v)) => {
            let mut x = 0u64;
            let mut i = if d.len() > 4 { d.len() - 4 } else { 0 };
            while i < d.len() {
                x = (x << 8) | d[i] as u64;
                i += 1;
            }
            *v == x
        }
        (23, C::UTCTime(t)) => match utctime(d) {
            T::Ok(r) => same_time(t, &r),
            _ => true,
        },
        (24, C::GeneralizedTime(t)) => match gentime(d) {
            T::Ok(r) => same_time(t, &r),
            _ => true,
        },
        (16, C::Sequence(v)) | (17, C::Set(v)) => {
            let mut p = from;
            for o in v.iter() {
                match same_elem(o, b, p, to, m) {
                    Some(e) => p = e,
                    None => return false,
                }
            }
            p == to
        }
        (8, C::Unknown(a)) | (9, C::Unknown(a)) | (11, C::Unknown(a)) | (14, C::Unknown(a)) | (15, C::Unknown(a))
        | (29, C::Unknown(a)) => is(a.data),
        (t, C::Unknown(a)) if t >= 31 => is(a.data),
        _ => false,
    }
}

pub fn same_time(a: &ASN1DateTime, r: &ASN1DateTime) -> bool {
    let tzs = match (a.tz, r.tz) {
        (ASN1TimeZone::Undefined, ASN1TimeZone::Undefined) => true,
        (ASN1TimeZone::Z, ASN1TimeZone::Z) => true,
        (ASN1TimeZone::Offset(a1, a2), ASN1TimeZone::Offset(r1, r2)) => (a1 == r1) & (a2 == r2),
        _ => false,
    };
    let ms = match (a.millisecond, r.millisecond) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    };
    tzs & ms
        & (a.year == r.year)
        & (a.month == r.month)
        & (a.day == r.day)
        & (a.hour == r.hour)
        & (a.minute == r.minute)
        & (a.second == r.second)
}

/// Check that object `o` is the decoding of the element at b[at..lim]; returns its end.
pub fn same_elem(o: &BerObject, b: &[u8], at: usize, lim: usize, m: Mode) -> Option<usize> {
    let mut fl = Fl { fake: false, lax: m.lax };
    let e = &b[at..lim];
    let s = match span(e, m.der, &mut fl) {
        R::Ok(s) => s,
        _ => return None,
    };
    if !same_hdr(&o.header, e, &s.h) {
        return None;
    }
    let (from, to) = (at + s.h.hl, at + s.ce);
    let ok = if s.h.class != 0 {
        match &o.content {
            BerObjectContent::Unknown(a) => is_sub(a.data, b, from, to) && same_hdr(&a.header, e, &s.h),
            _ => false,
        }
    } else {
        same_content(&o.content, s.h.tag, b, from, to, m)
    };
    if ok {
        Some(at + s.end)
    } else {
        None
    }
}

/// Digest of a value for native/symbolic cross-validation.
pub fn digest(o: &BerObject) -> u64 {
    use BerObjectContent as C;
    let k = match &o.content {
        C::EndOfContent => 0,
        C::Boolean(b) => 1 + 100 * (*b as u64),
        C::Integer(s) => 2 + 100 * s.len() as u64,
        C::BitString(u, s) => 3 + 100 * (*u as u64) + 100_000 * s.data.len() as u64,
        C::OctetString(s) => 4 + 100 * s.len() as u64,
        C::Null => 5,
        C::Enum(v) => 6 + 100u64.wrapping_mul(*v),
        C::OID(o) => 7 + 100 * o.as_bytes().len() as u64,
        C::Sequence(v) => {
            let mut h = 8u64;
            for x in v {
                h = h.wrapping_mul(31).wrapping_add(digest(x));
            }
            h
        }
        C::Set(v) => {
            let mut h = 9u64;
            for x in v {
                h = h.wrapping_mul(37).wrapping_add(digest(x));
            }
            h
        }
        C::Unknown(a) => 10 + 100 * a.data.len() as u64,
        C::Tagged(_, t, x) => 11 + (t.0 as u64) + 7 * digest(x),
        C::Optional(None) => 12,
        C::Optional(Some(x)) => 13 + 7u64.wrapping_mul(digest(x)),
        C::UTCTime(t) | C::GeneralizedTime(t) => 14 + t.second as u64 * 100 + t.year as u64 * 10000,
        c => 15 + 100 * c.as_slice().map(|s| s.len()).unwrap_or(0) as u64,
    };
    k.wrapping_add((o.header.tag().0 as u64) << 32)
}

/// Classification of a parser error for assertions and digests.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ek {
    Incomplete,
    MaxDepth,
    TooLarge,
    Negative,
    DerConstraint,
    UnexpectedTag,
    Other,
}

pub fn ek(e: &nom::Err<der_parser::error::BerError>) -> Ek {
    match e {
        nom::Err::Incomplete(_) => Ek::Incomplete,
        nom::Err::Error(e) | nom::Err::Failure(e) => eke(e),
    }
}

pub fn eke(e: &der_parser::error::BerError) -> Ek {
    use der_parser::error::BerError as B;
    match e {
        B::BerMaxDepth => Ek::MaxDepth,
        B::IntegerTooLarge => Ek::TooLarge,
        B::IntegerNegative => Ek::Negative,
        B::DerConstraintFailed(_) => Ek::DerConstraint,
        B::UnexpectedTag { .. } => Ek::UnexpectedTag,
        _ => Ek::Other,
    }
}

pub fn dig_res(r: &der_parser::error::BerResult) -> u64 {
    match r {
        Ok((rem, o)) => (rem.len() as u64).wrapping_mul(1_000_003).wrapping_add(digest(o)),
        Err(e) => 0xe000 + ek(e) as u64,
    }
}
