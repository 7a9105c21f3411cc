//! Serialization: C13 round trip, C14 header encoding
use super::comb::item;
use super::parse::same_obj;
use super::spec::*;
use super::val::{build, tree, KTAG};
use super::*;
use cookie_factory::gen_simple;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Oid};
use der_parser::ber::*;
use der_parser::der::*;

const FILE: u32 = 4;

/// Same value, whatever memory it lives in; the length field may differ.
pub fn eq_abs(x: &BerObject, y: &BerObject) -> bool {
    use BerObjectContent as C;
    let (a, b) = (&x.header, &y.header);
    if a.class() != b.class() || a.tag() != b.tag() || a.is_constructed() != b.is_constructed() {
        return false;
    }
    match (&x.content, &y.content) {
        (C::Sequence(a), C::Sequence(b)) | (C::Set(a), C::Set(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut i = 0;
            while i < a.len() {
                if !eq_abs(&a[i], &b[i]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        (C::Unknown(a), C::Unknown(b)) => a.data == b.data,
        (C::OID(a), C::OID(b)) | (C::RelativeOID(a), C::RelativeOID(b)) => a.as_bytes() == b.as_bytes(),
        (C::UTCTime(a), C::UTCTime(b)) | (C::GeneralizedTime(a), C::GeneralizedTime(b)) => same_time(a, b),
        (C::BitString(i, a), C::BitString(j, b)) => i == j && a.data == b.data,
        (C::Enum(a), C::Enum(b)) => a == b,
        (C::Boolean(a), C::Boolean(b)) => a == b,
        (C::Null, C::Null) | (C::EndOfContent, C::EndOfContent) => true,
        (a, b) => {
            core::mem::discriminant(a) == core::mem::discriminant(b)
                && match (a.as_slice(), b.as_slice()) {
                    (Ok(s), Ok(t)) => s == t,
                    _ => false,
                }
        }
    }
}

/// The header octets X.690 asks for: minimal definite length.
pub fn enc_hdr(class: u8, cons: bool, tag: u32, len: Option<u64>) -> Vec<u8> {
    let mut v = vec![];
    let b0 = class << 6 | (cons as u8) << 5;
    if tag < 31 {
        v.push(b0 | tag as u8);
    } else {
        v.push(b0 | 0x1f);
        let mut n = 1;
        while n < 5 && tag >> (7 * n) != 0 {
            n += 1;
        }
        while n > 1 {
            n -= 1;
            v.push(0x80 | (tag >> (7 * n)) as u8 & 0x7f);
        }
        v.push(tag as u8 & 0x7f);
    }
    match len {
        None => v.push(0x80),
        Some(l) if l < 128 => v.push(l as u8),
        Some(l) => {
            let mut n = 1;
            while n < 8 && l >> (8 * n) != 0 {
                n += 1;
            }
            v.push(0x80 | n as u8);
            while n > 0 {
                n -= 1;
                v.push((l >> (8 * n)) as u8);
            }
        }
    }
    v
}

fn cls(c: u8) -> Class {
    match c & 3 {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}

/// C14: every header encodes to the octets which decode to it.
/// params: 0 tag below 31, 1 any tag ; 0 definite, 1 indefinite, 2 short definite
pub fn c14_hdr() {
    let k = any_u8();
    let tag = if param(0) == 0 { (any_u8() & 0x1f) as u32 } else { any_u32() };
    if param(0) == 0 {
        assume(tag < 31);
    }
    let l = match param(1) {
        0 => Some(any_u64()),
        1 => None,
        _ => Some(any_u8() as u64),
    };
    let cons = k & 4 != 0;
    let len = match l {
        Some(l) => Length::Definite(l as usize),
        None => Length::Indefinite,
    };
    let h = Header::new(cls(k), cons, Tag(tag), len);
    let r = gen_simple(ber_encode_header(&h), Vec::new());
    ck!(r.is_ok());
    let v = r.unwrap();
    observe(v.len() as u64);
    let want = enc_hdr(k & 3, cons, tag, l);
    ck!(v == want);
    // whatever octets a header was read from, what it says is what is written
    for raw in [&[0x1f, 0x81, 0x00][..], &[0x04][..], &[][..]] {
        let g = h.clone().with_raw_tag(Some(raw.into()));
        let w = gen_simple(ber_encode_header(&g), Vec::new());
        ck!(matches!(w, Ok(w) if w == want));
    }
    // and it decodes to the same header
    let d = ber_read_element_header(&v);
    match d {
        Ok((rem, g)) => {
            reach(1);
            ck!(rem.is_empty());
            ck!(g.class() == h.class() && g.tag() == h.tag() && g.is_constructed() == cons && g.length() == h.length());
        }
        Err(_) => {
            reach(2);
            ck!(l.is_none() && !cons);
        }
    }
    if l.is_some() {
        match der_read_element_header(&v) {
            Ok((rem, g)) => ck!(rem.is_empty() && g.tag() == h.tag() && g.class() == h.class() && g.length() == h.length()),
            Err(_) => ck!(false),
        }
    }
}

/// C14: raw object encoding: the given header as is, then the content octets.
pub fn c14_raw() {
    let k = param(0);
    let w = param(1);
    let d = input(2);
    let o = BerObject::from_obj(build(k, &d));
    let hk = any_u8();
    let l = match w {
        0 => Some(any_u8() as u64),
        1 => None,
        _ => Some(any_u64()),
    };
    let tag = if w == 2 { any_u32() } else { 7 };
    let len = match l {
        Some(l) => Length::Definite(l as usize),
        None => Length::Indefinite,
    };
    let h = Header::new(cls(hk), hk & 4 != 0, Tag(tag), len);
    let v = gen_simple(ber_encode_object_raw(&h, &o.content), Vec::new()).unwrap();
    let hv = enc_hdr(hk & 3, hk & 4 != 0, tag, l);
    let full = o.to_vec().unwrap();
    observe(v.len() as u64);
    // content octets of the complete encoding
    if let R::Ok(x) = hdr(&full, false) {
        reach(1);
        ck!(v[..hv.len()] == hv[..]);
        ck!(v[hv.len()..] == full[x.hl..]);
    } else {
        ck!(false);
    }
}

/// C13: objects built from values. params: kind; data
pub fn c13_build() {
    let k = param(0);
    let d = input(1);
    let o = BerObject::from_obj(build(k, &d));
    let v = o.to_vec();
    ck!(v.is_ok());
    let v = v.unwrap();
    observe(v.len() as u64);
    // independent expectation of the octets
    let mut c: Vec<u8> = vec![];
    match k {
        1 => c.push(if !d.is_empty() && d[0] != 0 { 0xff } else { 0 }),
        2 | 4 | 7..=17 | 22..=24 => c.extend_from_slice(&d),
        3 => {
            c.push(if d.is_empty() { 0 } else { d[0] & 7 });
            if !d.is_empty() {
                c.extend_from_slice(&d[1..]);
            }
        }
        6 => {
            let mut i = 0;
            while i + 1 < d.len() && d[i] == 0 {
                i += 1;
            }
            if d.is_empty() {
                c.push(0);
            } else {
                c.extend_from_slice(&d[i..]);
            }
        }
        18 => {
            c.extend_from_slice(&enc_hdr(0, false, 2, Some(d.len() as u64)));
            c.extend_from_slice(&d);
            c.extend_from_slice(&[5, 0]);
        }
        19 => {
            c.extend_from_slice(&enc_hdr(0, false, 4, Some(d.len() as u64)));
            c.extend_from_slice(&d);
            c.extend_from_slice(&[1, 1, 0xff]);
        }
        20 => c.extend_from_slice(b"991231235959Z"),
        21 => c.extend_from_slice(b"20230102030405.678Z"),
        25 => c.extend_from_slice(&d),
        28 | 34 => c.extend_from_slice(&d),
        33 => {
            c.extend_from_slice(&enc_hdr(0, false, 2, Some(d.len() as u64)));
            c.extend_from_slice(&d);
        }
        35 => c.extend_from_slice(b"00010228000060-0330"),
        36 => {
            let mut i = enc_hdr(0, false, 2, Some(d.len() as u64));
            i.extend_from_slice(&d);
            c.extend_from_slice(&enc_hdr(0, true, 17, Some(i.len() as u64)));
            c.extend_from_slice(&i);
            c.extend_from_slice(&[0x30, 0]);
            let mut i = vec![0x31, 0];
            i.extend_from_slice(&enc_hdr(0, false, 4, Some(d.len() as u64)));
            i.extend_from_slice(&d);
            c.extend_from_slice(&enc_hdr(0, true, 16, Some(i.len() as u64)));
            c.extend_from_slice(&i);
        }
        _ => (),
    }
    match k {
        26 => return, // an absent optional has no encoding of its own
        27 | 31 | 32 => {
            reach(1);
            return; // see c13_tagged
        }
        _ => (),
    }
    let cons = super::val::is_cont(k) || k == 33; // an optional has the tag of what it holds
    let mut want = enc_hdr(0, cons, KTAG[k as usize], Some(c.len() as u64));
    want.extend_from_slice(&c);
    ck!(v == want);
    reach(1);
    // decoding gives the value back
    if k == 25 || k == 28 || k == 33 || k == 34 || k == 35 || (k == 6 && d.len() > 4) || (k == 16 && !utf16_ok(&d)) || ((9..=15).contains(&k) || (22..=24).contains(&k)) && !str_ok(KTAG[k as usize], &d) {
        return;
    }
    match parse_ber(&v) {
        Ok((rem, p)) => {
            reach(2);
            ck!(rem.is_empty());
            ck!(eq_abs(&p, &o));
        }
        Err(_) => ck!(k == 0 && false || (k == 7 || k == 8) && d.is_empty()),
    }
}

fn str_ok(tag: u32, d: &[u8]) -> bool {
    let mut fl = Fl::new();
    content_acc(tag, false, false, d, BER, 1, &mut fl) == Acc::Yes
}

/// C13: members are written with the header they have, and all of their content.
/// params: kind, 0 any class and form, tag below 31/1 any tag/2 any length; data
pub fn c13_member() {
    let k = param(0);
    let w = param(1);
    let d = input(2);
    let o = BerObject::from_obj(build(k, &d));
    let full = o.to_vec().unwrap();
    let x = match hdr(&full, false) {
        R::Ok(x) => x,
        _ => {
            ck!(false);
            return;
        }
    };
    let c = any_u8();
    let tag = if w == 1 { any_u32() } else { (c >> 3) as u32 };
    assume(w == 1 || tag < 31);
    let len = if w == 2 { any_u64() } else { 3 };
    let mut m = o.clone();
    m.header = Header::new(cls(c), c & 4 != 0, Tag(tag), Length::Definite(len as usize));
    let mut one = enc_hdr(c & 3, c & 4 != 0, tag, Some((full.len() - x.hl) as u64));
    one.extend_from_slice(&full[x.hl..]);
    let mut body = one.clone();
    body.extend_from_slice(&full);
    body.extend_from_slice(&one);
    let alone = m.to_vec();
    ck!(matches!(alone, Ok(v) if v == one));
    reach(1);
    for set in [false, true] {
        let l = vec![m.clone(), o.clone(), m.clone()];
        let p = if set { BerObject::from_set(l) } else { BerObject::from_seq(l) };
        let v = p.to_vec();
        ck!(v.is_ok());
        let v = v.unwrap();
        observe(v.len() as u64);
        let mut want = enc_hdr(0, true, if set { 17 } else { 16 }, Some(body.len() as u64));
        want.extend_from_slice(&body);
        ck!(v == want);
    }
}

/// C13: what was parsed can be encoded again and means the same.
/// params: 0 BER/1 DER
pub fn c13_parsed() {
    let der = param(0) == 1;
    let b = input(1);
    let r = if der { parse_der(&b) } else { parse_ber(&b) };
    observe(dig_res(&r));
    let (rem, o) = match r {
        Ok(x) => x,
        Err(_) => {
            reach(1);
            return;
        }
    };
    let used = b.len() - rem.len();
    let v = match o.to_vec() {
        Ok(v) => v,
        Err(_) => {
            ck!(false);
            return;
        }
    };
    reach(2);
    // the length field of what is produced is definite, minimal and right
    match hdr(&v, true) {
        R::Ok(h) => ck!(h.min && !h.indef && h.len as usize == v.len() - h.hl),
        _ => ck!(false),
    }
    match parse_ber(&v) {
        Ok((rem2, p)) => {
            reach(3);
            ck!(rem2.is_empty());
            ck!(eq_abs(&p, &o));
            // encoding is stable
            let v2 = p.to_vec();
            ck!(matches!(v2, Ok(w) if w == v));
        }
        Err(_) => ck!(false),
    }
    if der {
        match parse_der(&v) {
            Ok((rem3, q)) => ck!(rem3.is_empty() && eq_abs(&q, &o)),
            Err(_) => ck!(false),
        }
    }
    // an encoding which is already canonical is reproduced octet for octet
    if canonical(&b[..used]) {
        reach(4);
        ck!(v == b[..used]);
    }
}

/// Strictly canonical: everything the reference is sure about, and no type with
/// several accepted spellings.
fn canonical(b: &[u8]) -> bool {
    let h = match hdr(b, true) {
        R::Ok(h) => h,
        _ => return false,
    };
    if !h.min || h.bigtag || h.len as usize != b.len() - h.hl {
        return false;
    }
    // high-tag form only when needed, without leading zero groups
    if h.tl > 1 && (h.tag < 31 || b[1] == 0x80) {
        return false;
    }
    if h.class != 0 {
        return true;
    }
    let d = &b[h.hl..];
    match h.tag {
        1 => !h.cons && d.len() == 1 && (d[0] == 0 || d[0] == 0xff),
        0 | 5 => d.is_empty(),
        10 => !d.is_empty() && (d.len() == 1 || d[0] != 0),
        23 | 24 => false,
        16 | 17 => {
            let mut p = 0;
            while p < d.len() {
                let mut fl = Fl::new();
                match span(&d[p..], true, &mut fl) {
                    R::Ok(s) => {
                        if !canonical(&d[p..p + s.end]) {
                            return false;
                        }
                        p += s.end;
                    }
                    _ => return false,
                }
            }
            true
        }
        _ => true,
    }
}

/// C13: explicit and implicit tagging of an encoding.
/// params: kind, 0 explicit/1 implicit, 0 tag below 31/1 small set of larger tags; data
pub fn c13_tagged() {
    let k = param(0);
    let imp = param(1) == 1;
    let tag = match param(2) {
        0 => (any_u8() % 31) as u32,
        x => x as u32,
    };
    let c = any_u8();
    let d = input(3);
    let o = BerObject::from_obj(build(k, &d));
    let inner = o.to_vec().unwrap();
    let ih = match hdr(&inner, false) {
        R::Ok(h) => h,
        _ => {
            ck!(false);
            return;
        }
    };
    let v: Vec<u8> = if imp {
        gen_simple(ber_encode_tagged_implicit(Tag(tag), cls(c), &o), Vec::new()).unwrap()
    } else {
        gen_simple(ber_encode_tagged_explicit(Tag(tag), cls(c), &o), Vec::new()).unwrap()
    };
    observe(v.len() as u64);
    let (cons, body) = if imp { (o.is_constructed(), &inner[ih.hl..]) } else { (true, &inner[..]) };
    let mut want = enc_hdr(c & 3, cons, tag, Some(body.len() as u64));
    want.extend_from_slice(body);
    ck!(v == want);
    reach(1);
    // decoding with the matching combinators
    if imp {
        if k != 2 && k != 4 && !super::val::is_cont(k) {
            return;
        }
        let r = parse_ber_tagged_implicit(Tag(tag), parse_ber_content(o.tag()))(&v);
        match r {
            Ok((rem, p)) => {
                reach(2);
                ck!(rem.is_empty() && p.tag().0 == tag && p.class() == cls(c));
                let q = BerObject::from_obj(p.content);
                ck!(eq_abs(&q, &o));
            }
            Err(_) => ck!(false),
        }
        return;
    }
    if k != 2 && k != 4 && !super::val::is_cont(k) || c & 3 == 0 {
        return;
    }
    let r = parse_ber_tagged_explicit(Tag(tag), item(2))(&v);
    match r {
        Ok((rem, p)) => {
            reach(2);
            ck!(rem.is_empty());
            match p.as_tagged() {
                Ok((cc, t, x)) => ck!(cc == cls(c) && t.0 == tag && eq_abs(x, &o)),
                Err(_) => ck!(false),
            }
            // a parsed tagged object encodes to the same octets
            ck!(p.to_vec().unwrap() == v);
        }
        Err(_) => ck!(false),
    }
}

/// C13: a tree of objects.
pub fn c13_tree() {
    let src = param(0);
    let d = input(1);
    let o = tree(src >> 8, src & 0xff, &d);
    let v = o.to_vec().unwrap();
    observe(v.len() as u64);
    match parse_ber(&v) {
        Ok((rem, p)) => {
            reach(1);
            ck!(rem.is_empty());
            ck!(eq_abs(&p, &o));
        }
        Err(_) => ck!(false),
    }
}

/// C13: date and time values. params: 0 UTCTime/1 GeneralizedTime, which field is arbitrary, time zone
pub fn c13_time() {
    let gen = param(0) == 1;
    let f = param(1);
    let z = param(2);
    let x = any_u8();
    let mut t = ASN1DateTime::new(if gen { 2023 } else { 23 }, 11, 12, 13, 14, 15, None, ASN1TimeZone::Z);
    match f {
        0 => {
            assume(x < 100);
            t.year = if gen { 1900 + x as u32 } else { x as u32 };
        }
        1 => {
            assume(x >= 1 && x <= 12);
            t.month = x;
        }
        2 => {
            assume(x >= 1 && x <= 31);
            t.day = x;
        }
        3 => {
            assume(x < 24);
            t.hour = x;
        }
        4 => {
            assume(x < 60);
            t.minute = x;
        }
        5 => {
            assume(x < 60);
            t.second = x;
        }
        6 => {
            assume(gen);
            t.millisecond = Some(x as u16);
        }
        7 => {
            assume(gen);
            t.millisecond = Some(744 + x as u16);
        }
        8 => {
            assume(x <= 14);
            t.tz = ASN1TimeZone::Offset(x as i8, 30);
        }
        9 => {
            assume(x <= 12 && x > 0);
            t.tz = ASN1TimeZone::Offset(-(x as i8), 0);
        }
        _ => {
            assume(x < 60);
            t.tz = ASN1TimeZone::Offset(1, x as i8);
        }
    }
    if z == 1 && gen {
        t.tz = ASN1TimeZone::Undefined;
    }
    assume(t.day <= 28 || t.month != 2);
    assume(t.day <= 30 || matches!(t.month, 1 | 3 | 5 | 7 | 8 | 10 | 12));
    let c = if gen { BerObjectContent::GeneralizedTime(t.clone()) } else { BerObjectContent::UTCTime(t.clone()) };
    let o = BerObject::from_obj(c);
    let v = o.to_vec().unwrap();
    observe(v.len() as u64);
    // the octets say so
    let h = match hdr(&v, true) {
        R::Ok(h) => h,
        _ => {
            ck!(false);
            return;
        }
    };
    ck!(h.len as usize == v.len() - h.hl);
    let r = if gen { gentime(&v[h.hl..]) } else { utctime(&v[h.hl..]) };
    ck!(matches!(r, T::Ok(ref q) if same_time(q, &t)));
    // and the library decodes them
    match parse_ber(&v) {
        Ok((rem, p)) => {
            reach(1);
            ck!(rem.is_empty() && eq_abs(&p, &o));
        }
        Err(_) => ck!(false),
    }
    if matches!(t.tz, ASN1TimeZone::Z) {
        match parse_der(&v) {
            Ok((rem, p)) => ck!(rem.is_empty() && eq_abs(&p, &o)),
            Err(_) => ck!(false),
        }
    }
}

/// C13: enumerated values of any size, object identifiers.
pub fn c13_enum() {
    let v = any_u64();
    let o = BerObject::from_obj(BerObjectContent::Enum(v));
    let e = o.to_vec().unwrap();
    observe(e.len() as u64);
    ck!(e[0] == 10 && e[1] as usize == e.len() - 2 && e.len() > 2);
    let mut x = 0u64;
    let mut i = 2;
    while i < e.len() {
        x = x << 8 | e[i] as u64;
        i += 1;
    }
    ck!(x == v);
    ck!(e.len() == 3 || e[2] != 0);
    match parse_ber(&e) {
        Ok((rem, p)) => {
            reach(1);
            ck!(rem.is_empty() && p.as_u64() == Ok(v));
        }
        Err(_) => {
            reach(2);
            ck!(v > 0xffff_ffff); // documented limit of the parser
        }
    }
    let _ = Oid::from(&[1, 2]);
    let _ = same_obj(&o, &o);
}
