//! Values: C07 integers, C08 bit strings, C16 visitors, C17 iteration, C18 accessors, C19 try_from(Any)
use super::parse::same_obj;
use super::spec::*;
use super::*;
use der_parser::asn1_rs::{ASN1DateTime, Any, FromBer, Oid};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::*;

const FILE: u32 = 2;

// ---------------------------------------------------------------- integers

/// Unsigned value of two's complement octets, if it fits n octets.
pub fn ref_u(d: &[u8], n: usize) -> Result<u64, Ek> {
    if !d.is_empty() && d[0] >= 0x80 {
        return Err(Ek::Negative);
    }
    let mut p = 0;
    while p < d.len() && d[p] == 0 {
        p += 1;
    }
    if d.len() - p > n {
        return Err(Ek::TooLarge);
    }
    let mut v = 0u64;
    while p < d.len() {
        v = (v << 8) | d[p] as u64;
        p += 1;
    }
    Ok(v)
}

/// Signed value of two's complement octets, if it fits n octets.
pub fn ref_i(d: &[u8], n: usize) -> Result<i64, Ek> {
    if d.is_empty() || d[0] < 0x80 {
        let u = ref_u(d, n)?;
        if u >> (8 * n - 1) != 0 {
            return Err(Ek::TooLarge);
        }
        return Ok(u as i64);
    }
    let mut p = 0;
    while p + 1 < d.len() && d[p] == 0xff && d[p + 1] >= 0x80 {
        p += 1;
    }
    if d.len() - p > n {
        return Err(Ek::TooLarge);
    }
    let mut v = -1i64;
    while p < d.len() {
        v = ((v as u64) << 8 | d[p] as u64) as i64;
        p += 1;
    }
    Ok(v)
}

fn eq_u(r: &Result<u64, Ek>, e: &Result<u64, Ek>) -> bool {
    match (r, e) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
/// `pad`: redundant sign octets beyond the width (may be refused as too large)
fn eq_i(r: &Result<i64, Ek>, e: &Result<i64, Ek>, pad: bool) -> bool {
    match (r, e) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a == b,
        (Err(a), Ok(_)) => pad && *a == Ek::TooLarge,
        _ => false,
    }
}

fn obs_u(r: &Result<u64, Ek>) {
    match r {
        Ok(v) => {
            reach(1);
            observe(*v);
        }
        Err(k) => {
            reach(2);
            observe(0x100 + *k as u64);
        }
    }
}

/// C07: accessors of an INTEGER object.
pub fn c07_acc() {
    let d = input(0);
    let o = BerObject::from_int_slice(&d);
    let neg = !d.is_empty() && d[0] >= 0x80;
    let u64r = o.as_u64().map_err(|e| eke(&e));
    let u32r = o.as_u32().map(|x| x as u64).map_err(|e| eke(&e));
    let i64r = o.as_i64().map_err(|e| eke(&e));
    let i32r = o.as_i32().map(|x| x as i64).map_err(|e| eke(&e));
    obs_u(&u64r);
    obs_u(&u32r);
    obs_u(&i64r.map(|x| x as u64));
    obs_u(&i32r.map(|x| x as u64));
    ck!(eq_u(&u64r, &ref_u(&d, 8)));
    ck!(eq_u(&u32r, &ref_u(&d, 4)));
    ck!(eq_i(&i64r, &ref_i(&d, 8), neg && d.len() > 8));
    ck!(eq_i(&i32r, &ref_i(&d, 4), neg && d.len() > 4));
    ck!(o.content.as_u64().is_ok() == u64r.is_ok());
    ck!(matches!(o.as_slice(), Ok(s) if is_sub(s, &d, 0, d.len())));
}

/// C07: arbitrary precision.
pub fn c07_big() {
    let d = input(0);
    let o = BerObject::from_int_slice(&d);
    let b = o.as_bigint();
    ck!(b.is_ok());
    // minimal two's complement octets of the value
    let mut p = 0;
    while p + 1 < d.len() && ((d[p] == 0xff && d[p + 1] >= 0x80) || (d[p] == 0 && d[p + 1] < 0x80)) {
        p += 1;
    }
    let bytes = b.unwrap().to_signed_bytes_be();
    observe(bytes.len() as u64);
    if d.is_empty() {
        ck!(bytes.len() == 1 && bytes[0] == 0);
    } else {
        ck!(bytes.len() == d.len() - p);
        ck!(bytes[..] == d[p..]);
    }
    let u = o.as_biguint();
    if !d.is_empty() && d[0] >= 0x80 {
        reach(1);
        ck!(matches!(u, Err(BerError::IntegerNegative)));
    } else {
        reach(2);
        ck!(u.is_ok());
        let bytes = u.unwrap().to_bytes_be();
        let mut p = 0;
        while p < d.len() && d[p] == 0 {
            p += 1;
        }
        if p == d.len() {
            ck!(bytes.len() == 1 && bytes[0] == 0);
        } else {
            ck!(bytes[..] == d[p..]);
        }
    }
}

/// C07: parsers returning machine integers. params: 0..=3 BER i32 i64 u32 u64, 4..=7 DER
pub fn c07_parse() {
    let which = param(0);
    let b = input(1);
    let der = which >= 4;
    macro_rules! run {
        ($f:ident, $t:ty, $signed:expr, $n:expr) => {{
            let r = $f(&b);
            check_int(r.map(|(rem, v)| (rem, v as i64)), &b, der, $signed, $n);
        }};
    }
    match which {
        0 => run!(parse_ber_i32, i32, true, 4),
        1 => run!(parse_ber_i64, i64, true, 8),
        2 => run!(parse_ber_u32, u32, false, 4),
        3 => run!(parse_ber_u64, u64, false, 8),
        4 => run!(parse_der_i32, i32, true, 4),
        5 => run!(parse_der_i64, i64, true, 8),
        6 => run!(parse_der_u32, u32, false, 4),
        _ => run!(parse_der_u64, u64, false, 8),
    }
}

fn check_int(r: BerResult<i64>, b: &[u8], der: bool, signed: bool, n: usize) {
    let h = match hdr(b, der) {
        R::Ok(h) => h,
        _ => {
            ck!(r.is_err());
            return;
        }
    };
    let mut fl = Fl::new();
    let s = match content_span(b, h, &mut fl) {
        R::Ok(s) => s,
        R::Short | R::Bad => {
            ck!(r.is_err() || fl.fake);
            return;
        }
    };
    if h.tag != 2 && !h.bigtag {
        reach(3);
        ck!(r.is_err());
        return;
    }
    if h.cons {
        ck!(r.is_err());
        return;
    }
    let d = &b[h.hl..s.ce];
    let e = if signed { ref_i(d, n).map(|x| x as u64) } else { ref_u(d, n) };
    match &r {
        Ok((rem, v)) => {
            reach(1);
            observe(*v as u64);
            ck!(rem.len() == b.len() - s.end && is_sub(rem, b, s.end, b.len()));
            ck!(e == Ok(*v as u64));
            // DER: fewest octets (X.690 8.3.2)
            ck!(!der || !(d.is_empty() || (d.len() > 1 && d[0] == 0 && d[1] < 0x80)));
        }
        Err(k) => {
            reach(2);
            observe(ek(k) as u64);
            let lax = h.class != 0
                || h.bigtag
                || d.is_empty()
                || (der && (!h.min || (d.len() > 1 && (d[0] == 0 && d[1] < 0x80 || d[0] == 0xff && d[1] >= 0x80))))
                || (signed && d[0] >= 0x80 && d.len() > n);
            match e {
                Ok(_) => ck!(lax),
                Err(x) => ck!(lax || ek(k) == x),
            }
        }
    }
}

// ---------------------------------------------------------------- bit strings

/// C08. input: unused-bit count, then data
pub fn c08_bits() {
    let b = input(0);
    let u = b[0];
    let data = &b[1..];
    let o = BerObject::from_obj(BerObjectContent::BitString(u, BitStringObject { data }));
    check_bits(&o, u, data);
}

/// C08, long strings. params: first of the 32 bit numbers tried; input
pub fn c08_long() {
    let n = param(0) as usize + (any_u8() & 31) as usize;
    let b = input(1);
    let (u, data) = (b[0], &b[1..]);
    let o = BerObject::from_obj(BerObjectContent::BitString(u, BitStringObject { data }));
    ck!(eq_u(&o.as_u64().map_err(|e| eke(&e)), &Err(Ek::TooLarge)));
    ck!(eq_u(&o.as_u32().map(|x| x as u64).map_err(|e| eke(&e)), &Err(Ek::TooLarge)));
    let bs = o.as_bitstring().unwrap();
    ck!(is_sub(bs.data, data, 0, data.len()));
    ck!(matches!(o.as_slice(), Ok(s) if is_sub(s, data, 0, data.len())));
    let e = n / 8 < data.len() && data[n / 8] >> (7 - n % 8) & 1 == 1;
    reach(1);
    ck!(bs.is_set(n) == e);
    let sl = o.as_bitslice().unwrap();
    let sl2 = bs.as_bitslice().unwrap();
    ck!(sl.len() == data.len() * 8 && sl2.len() == data.len() * 8);
    if n < sl.len() {
        reach(2);
        ck!(sl[n] == e);
        ck!(sl2[n] == e);
    } else {
        ck!(sl.get(n).is_none() && sl2.get(n).is_none());
    }
}

/// C08 through the parser. params: 0 BER/1 DER
pub fn c08_parse() {
    let der = param(0) == 1;
    let b = input(1);
    let r = if der { parse_der_bitstring(&b) } else { parse_ber_bitstring(&b) };
    match &r {
        Ok((_, o)) => {
            reach(1);
            let h = match hdr(&b, der) {
                R::Ok(h) => h,
                _ => {
                    ck!(false);
                    return;
                }
            };
            let end = h.hl + h.len as usize;
            check_bits(o, b[h.hl], &b[h.hl + 1..end]);
        }
        Err(_) => reach(2),
    }
}

fn check_bits(o: &BerObject, u: u8, data: &[u8]) {
    let bits = data.len() as i64 * 8 - u as i64;
    let r64 = o.as_u64().map_err(|e| eke(&e));
    let r32 = o.as_u32().map(|x| x as u64).map_err(|e| eke(&e));
    obs_u(&r64);
    obs_u(&r32);
    if bits < 0 {
        reach(3);
        ck!(r64.is_err() && r32.is_err());
    } else if bits > 64 {
        reach(4);
        ck!(eq_u(&r64, &Err(Ek::TooLarge)));
        ck!(eq_u(&r32, &Err(Ek::TooLarge)));
    } else {
        reach(5);
        let mut v = 0u64;
        let mut k = 0usize;
        while (k as i64) < bits {
            v = (v << 1) | (data[k / 8] >> (7 - k % 8) & 1) as u64;
            k += 1;
        }
        ck!(eq_u(&r64, &Ok(v)));
        ck!(eq_u(&r32, &if v >> 32 == 0 { Ok(v) } else { Err(Ek::TooLarge) }));
    }
    let bs = o.as_bitstring().unwrap();
    let br = o.as_bitstring_ref().unwrap();
    ck!(is_sub(bs.data, data, 0, data.len()));
    ck!(is_sub(br.data, data, 0, data.len()));
    ck!(is_sub(bs.as_ref(), data, 0, data.len()));
    ck!(matches!(o.as_slice(), Ok(s) if is_sub(s, data, 0, data.len())));
    ck!(o.as_i64().is_err() && o.as_i32().is_err());
    // bit numbering: bit 0 is the most significant bit of the first octet
    let n = any_u64() as usize;
    let e = n / 8 < data.len() && data[n / 8] >> (7 - n % 8) & 1 == 1;
    ck!(bs.is_set(n) == e);
    let sl = o.as_bitslice().unwrap();
    ck!(sl.len() == data.len() * 8);
    let sl2 = bs.as_bitslice().unwrap();
    ck!(sl2.len() == data.len() * 8);
    // one arbitrary bit (bitvec hands out references: a branch per bit read)
    let i = (any_u8() as usize) | ((any_u8() as usize & 1) << 8);
    if i < sl.len() {
        reach(6);
        let bit = data[i / 8] >> (7 - i % 8) & 1 == 1;
        ck!(sl[i] == bit);
        ck!(sl2[i] == bit);
    } else {
        ck!(sl.get(i).is_none() && sl2.get(i).is_none());
    }
}

// ---------------------------------------------------------------- building objects

pub const NKIND: u64 = 37;

pub fn txt(b: &[u8]) -> &str {
    // only ever built from bytes below 0x80
    core::str::from_utf8(b).unwrap_or("?")
}

/// An object of every content variant; `d` supplies data octets.
pub fn build<'a>(k: u64, d: &'a [u8]) -> BerObjectContent<'a> {
    use BerObjectContent as C;
    let num = |n: usize| {
        let mut v = 0u64;
        let mut i = 0;
        while i < n && i < d.len() {
            v = (v << 8) | d[i] as u64;
            i += 1;
        }
        v
    };
    match k {
        0 => C::EndOfContent,
        1 => C::Boolean(!d.is_empty() && d[0] != 0),
        2 => C::Integer(d),
        3 => {
            if d.is_empty() {
                C::BitString(0, BitStringObject { data: d })
            } else {
                C::BitString(d[0] & 7, BitStringObject { data: &d[1..] })
            }
        }
        4 => C::OctetString(d),
        5 => C::Null,
        6 => C::Enum(num(8)),
        7 => C::OID(Oid::new(d.into())),
        8 => C::RelativeOID(Oid::new_relative(d.into())),
        9 => C::NumericString(txt(d)),
        10 => C::VisibleString(txt(d)),
        11 => C::PrintableString(txt(d)),
        12 => C::IA5String(txt(d)),
        13 => C::UTF8String(txt(d)),
        14 => C::T61String(txt(d)),
        15 => C::VideotexString(txt(d)),
        16 => C::BmpString(d),
        17 => C::UniversalString(d),
        18 => C::Sequence(vec![BerObject::from_obj(C::Integer(d)), BerObject::from_obj(C::Null)]),
        19 => C::Set(vec![BerObject::from_obj(C::OctetString(d)), BerObject::from_obj(C::Boolean(true))]),
        20 => C::UTCTime(ASN1DateTime::new(99, 12, 31, 23, 59, 59, None, der_parser::asn1_rs::ASN1TimeZone::Z)),
        21 => C::GeneralizedTime(ASN1DateTime::new(2023, 1, 2, 3, 4, 5, Some(678), der_parser::asn1_rs::ASN1TimeZone::Z)),
        22 => C::ObjectDescriptor(txt(d)),
        23 => C::GraphicString(txt(d)),
        24 => C::GeneralString(txt(d)),
        25 => C::Optional(Some(Box::new(BerObject::from_obj(C::Integer(d))))),
        26 => C::Optional(None),
        27 => C::Tagged(Class::ContextSpecific, Tag(3), Box::new(BerObject::from_obj(C::Integer(d)))),
        28 => C::Unknown(Any::new(Header::new(Class::Private, false, Tag(9), Length::Definite(d.len())), d)),
        29 => C::Sequence(vec![]),
        30 => C::Set(vec![]),
        31 => C::Tagged(
            Class::Application,
            Tag(70000),
            Box::new(BerObject::from_seq(vec![BerObject::from_obj(C::Integer(d)), BerObject::from_set(vec![])])),
        ),
        32 => C::Tagged(
            Class::Private,
            Tag(0),
            Box::new(BerObject::from_obj(C::Tagged(
                Class::Universal,
                Tag(u32::MAX),
                Box::new(BerObject::from_obj(C::OctetString(d))),
            ))),
        ),
        33 => C::Optional(Some(Box::new(BerObject::from_set(vec![BerObject::from_obj(C::Integer(d))])))),
        34 => C::Unknown(Any::new(Header::new(Class::Application, true, Tag(0x10001), Length::Indefinite), d)),
        35 => C::GeneralizedTime(ASN1DateTime::new(1, 2, 28, 0, 0, 60, None, der_parser::asn1_rs::ASN1TimeZone::Offset(-3, 30))),
        _ => C::Sequence(vec![
            BerObject::from_set(vec![BerObject::from_obj(C::Integer(d))]),
            BerObject::from_seq(vec![]),
            BerObject::from_seq(vec![BerObject::from_set(vec![]), BerObject::from_obj(C::OctetString(d))]),
        ]),
    }
}

/// Kinds holding members.
pub fn is_cont(k: u64) -> bool {
    k == 18 || k == 19 || k == 29 || k == 30 || k == 36
}

/// Universal tag number of each kind (u32::MAX: not specified)
pub const KTAG: [u32; 37] = [
    0, 1, 2, 3, 4, 5, 10, 6, 13, 18, 26, 19, 22, 12, 20, 21, 30, 28, 16, 17, 23, 24, 7, 25, 27, 2, u32::MAX, 3, 9,
    16, 17, 70000, 0, 17, 0x10001, 24, 16,
];

// ---------------------------------------------------------------- accessors

/// C18. params: kind; input: data octets
pub fn c18_access() {
    let k = param(0);
    let d = input(1);
    let c = build(k, &d);
    let o: BerObject = if param(0) % 2 == 0 { BerObject::from_obj(c) } else { c.into() };
    // header of an object built from a value
    ck!(o.class() == Class::Universal);
    if KTAG[k as usize] != u32::MAX {
        ck!(o.tag().0 == KTAG[k as usize]);
    }
    let cons = is_cont(k) || k == 33; // an optional has the tag of what it holds
    ck!(o.is_constructed() == cons);
    ck!(o.is_primitive() == !cons);
    ck!(o.is_universal() && !o.is_application() && !o.is_contextspecific() && !o.is_private());
    ck!(o.assert_class(Class::Universal).is_ok() && o.assert_class(Class::Private).is_err());
    ck!(o.assert_tag(o.tag()).is_ok() && o.assert_tag(Tag(0x7fff)).is_err());
    ck!(o.assert_constructed().is_ok() == cons && o.assert_primitive().is_ok() == !cons);
    check_access(&o, k, &d);
    // the raw tag only annotates
    let raw = [0x1fu8, 0x81, 0x00];
    let o2 = o.clone().set_raw_tag(Some(&raw));
    ck!(o2.header.raw_tag() == Some(&raw[..]));
    ck!(o2.tag() == o.tag() && o2.class() == o.class() && o2.is_constructed() == o.is_constructed());
    check_access(&o2, k, &d);
    if k == 7 {
        let o3: BerObject = Oid::new((&d[..]).into()).into();
        ck!(o3 == o);
        ck!(o3.is_universal() && o3.is_primitive() && o3.tag().0 == 6);
    }
    if k == 2 {
        let o3 = BerObject::from_int_slice(&d);
        ck!(o3 == o);
    }
    if k == 18 || k == 29 || k == 36 {
        let v = o.as_sequence().unwrap().clone();
        ck!(BerObject::from_seq(v) == o);
    }
    if k == 19 || k == 30 {
        let v = o.as_set().unwrap().clone();
        ck!(BerObject::from_set(v) == o);
    }
}

fn check_access(o: &BerObject, k: u64, d: &[u8]) {
    reach(1);
    let num = k == 2 || k == 3 || k == 6;
    if !num {
        ck!(o.as_u64().is_err());
        ck!(o.as_u32().is_err());
    }
    if k != 2 {
        ck!(o.as_i64().is_err());
        ck!(o.as_i32().is_err());
        ck!(o.as_bigint().is_err());
        ck!(o.as_biguint().is_err());
    }
    if k == 6 {
        let v = match build(6, d) {
            BerObjectContent::Enum(v) => v,
            _ => 0,
        };
        ck!(o.as_u64() == Ok(v));
        match o.as_u32() {
            Ok(x) => ck!(x as u64 == v),
            Err(e) => ck!(eke(&e) == Ek::TooLarge && v > 0xffff_ffff),
        }
    }
    match o.as_bool() {
        Ok(b) => ck!(k == 1 && b == (!d.is_empty() && d[0] != 0)),
        Err(_) => ck!(k != 1),
    }
    match o.as_oid() {
        Ok(x) => ck!((k == 7 || k == 8) && is_sub(x.as_bytes(), d, 0, d.len())),
        Err(_) => ck!(k != 7 && k != 8),
    }
    match o.as_oid_val() {
        Ok(x) => ck!((k == 7 || k == 8) && x.as_bytes() == d),
        Err(_) => ck!(k != 7 && k != 8),
    }
    match o.as_optional() {
        Ok(Some(x)) => ck!(
            k == 25 && matches!(x.content, BerObjectContent::Integer(s) if is_sub(s, d, 0, d.len()))
                || k == 33 && matches!(&x.content, BerObjectContent::Set(v) if v.len() == 1)
        ),
        Ok(None) => ck!(k == 26),
        Err(_) => ck!(k != 25 && k != 26 && k != 33),
    }
    match o.as_tagged() {
        Ok((c, t, x)) => ck!(
            k == 27
                && c == Class::ContextSpecific
                && t == Tag(3)
                && matches!(x.content, BerObjectContent::Integer(s) if is_sub(s, d, 0, d.len()))
                || k == 31
                    && c == Class::Application
                    && t == Tag(70000)
                    && matches!(&x.content, BerObjectContent::Sequence(v) if v.len() == 2)
                || k == 32
                    && c == Class::Private
                    && t == Tag(0)
                    && matches!(&x.content, BerObjectContent::Tagged(Class::Universal, Tag(u32::MAX), _))
        ),
        Err(_) => ck!(k != 27 && k != 31 && k != 32),
    }
    ck!(o.as_bitstring_ref().is_ok() == (k == 3));
    ck!(o.as_bitstring().is_ok() == (k == 3));
    match o.as_sequence() {
        Ok(v) => ck!(k == 18 && v.len() == 2 || k == 29 && v.is_empty() || k == 36 && v.len() == 3),
        Err(_) => ck!(k != 18 && k != 29 && k != 36),
    }
    match o.as_set() {
        Ok(v) => ck!(k == 19 && v.len() == 2 || k == 30 && v.is_empty()),
        Err(_) => ck!(k != 19 && k != 30),
    }
    let str_k = (9..=15).contains(&k) || (22..=24).contains(&k);
    match o.as_str() {
        Ok(s) => ck!(str_k && is_sub(s.as_bytes(), d, 0, d.len())),
        Err(_) => ck!(!str_k),
    }
    let sl_k = str_k || k == 2 || k == 3 || k == 4 || k == 16 || k == 17 || k == 28 || k == 34;
    match o.as_slice() {
        Ok(s) => {
            let from = if k == 3 && !d.is_empty() { 1 } else { 0 };
            ck!(sl_k && is_sub(s, d, from, d.len()));
        }
        Err(_) => ck!(!sl_k),
    }
    match o.as_bitslice() {
        Ok(s) => {
            let from = if k == 3 && !d.is_empty() { 1 } else { 0 };
            ck!(sl_k && s.len() == 8 * (d.len() - from));
        }
        Err(_) => ck!(!sl_k),
    }
}

// ---------------------------------------------------------------- iteration and indexing

/// Does `a` hold the same value as `b` (by content octets, not by address)?
pub fn eq_val(a: &BerObject, b: &BerObject) -> bool {
    same_obj(a, b)
}

/// C17. params: kind of object (END: parse the input), ; input
pub fn c17_iter() {
    let k = param(0);
    let b = input(1);
    let parsed;
    let o: BerObject = if k == END {
        parsed = parse_ber(&b);
        match parsed {
            Ok((_, o)) => o,
            Err(_) => return,
        }
    } else {
        BerObject::from_obj(build(k, &b))
    };
    let kids: Option<&Vec<BerObject>> = match &o.content {
        BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => Some(v),
        _ => None,
    };
    let n = kids.map(|v| v.len()).unwrap_or(0);
    observe(n as u64);
    // by reference
    let mut it = o.ref_iter();
    let mut i = 0;
    while i < n {
        match it.next() {
            Some(x) => ck!(core::ptr::eq(x, &kids.unwrap()[i])),
            None => ck!(false),
        }
        i += 1;
    }
    ck!(it.next().is_none());
    ck!(it.next().is_none());
    ck!(o.ref_iter().count() == n);
    // consuming
    let mut it = o.clone().into_iter();
    match kids {
        Some(v) => {
            reach(1);
            let mut i = 0;
            while i < n {
                match it.next() {
                    Some(x) => ck!(eq_val(&x, &v[i])),
                    None => ck!(false),
                }
                i += 1;
            }
        }
        None => {
            reach(2);
            match it.next() {
                Some(x) => ck!(eq_val(&x, &o)),
                None => ck!(false),
            }
        }
    }
    ck!(it.next().is_none());
    ck!(it.next().is_none());
    // indexing
    let idx = any_u64() as usize;
    if idx < n {
        reach(3);
        ck!(core::ptr::eq(&o[idx], &kids.unwrap()[idx]));
    } else {
        reach(4);
        allow_panic(true);
        let x = &o[idx];
        observe(x.tag().0 as u64);
        ck!(false);
    }
}

// ---------------------------------------------------------------- try_from(Any)

/// C19: converting a generic Any gives what parsing gives.
pub fn c19_any() {
    let b = input(0);
    let a = parse_ber_any(&b);
    let a2 = Any::from_ber(&b);
    ck!(a.is_ok() == a2.is_ok());
    let (rem, any) = match a {
        Ok(x) => x,
        Err(_) => {
            reach(1);
            ck!(parse_ber(&b).is_err());
            return;
        }
    };
    if any.class() != Class::Universal {
        reach(2);
        return;
    }
    let r = parse_ber(&b);
    observe(dig_res(&r));
    let mut fl = Fl::new();
    let _ = span(&b, false, &mut fl);
    if fl.fake {
        reach(5); // extent of the element in dispute: see C09
        return;
    }
    let by_ref = BerObject::try_from(&any);
    let by_val = BerObject::try_from(any.clone());
    match (&r, &by_ref, &by_val) {
        (Ok((rem2, o)), Ok(x), Ok(y)) => {
            reach(3);
            ck!(rem.len() == rem2.len());
            ck!(same_obj(o, x));
            ck!(same_obj(o, y));
            ck!(x.header.raw_tag() == o.header.raw_tag() && y.header.raw_tag() == o.header.raw_tag());
        }
        (Err(_), Err(_), Err(_)) => reach(4),
        _ => ck!(false),
    }
}

// ---------------------------------------------------------------- visitors

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ev {
    kind: u8,
    depth: usize,
    a: usize,
    b: usize,
}

fn ev(kind: u8, depth: usize, a: usize, b: usize) -> Ev {
    Ev { kind, depth, a, b }
}
fn sp(s: &[u8]) -> usize {
    if s.is_empty() {
        0
    } else {
        s.as_ptr() as usize
    }
}

/// The calls a visitor has to receive, in order.
fn walk(o: &BerObject, depth: usize, out: &mut Vec<Ev>) {
    use BerObjectContent as C;
    out.push(ev(100, depth, o as *const _ as usize, 0));
    let s = |k: u8, s: &[u8]| ev(k, depth, sp(s), s.len());
    let e = match &o.content {
        C::EndOfContent => ev(0, depth, 0, 0),
        C::Boolean(b) => ev(1, depth, *b as usize, 0),
        C::Integer(d) => s(2, d),
        C::BitString(u, d) => ev(3, depth, sp(d.data), d.data.len() * 256 + *u as usize),
        C::OctetString(d) => s(4, d),
        C::Null => ev(5, depth, 0, 0),
        C::Enum(v) => ev(6, depth, *v as usize, 0),
        C::OID(d) => s(7, d.as_bytes()),
        C::RelativeOID(d) => s(8, d.as_bytes()),
        C::NumericString(d) => s(9, d.as_bytes()),
        C::VisibleString(d) => s(10, d.as_bytes()),
        C::PrintableString(d) => s(11, d.as_bytes()),
        C::IA5String(d) => s(12, d.as_bytes()),
        C::UTF8String(d) => s(13, d.as_bytes()),
        C::T61String(d) => s(14, d.as_bytes()),
        C::VideotexString(d) => s(15, d.as_bytes()),
        C::BmpString(d) => s(16, d),
        C::UniversalString(d) => s(17, d),
        C::Sequence(v) => ev(18, depth, if v.is_empty() { 0 } else { v.as_ptr() as usize }, v.len()),
        C::Set(v) => ev(19, depth, if v.is_empty() { 0 } else { v.as_ptr() as usize }, v.len()),
        C::UTCTime(t) => ev(20, depth, t as *const _ as usize, 0),
        C::GeneralizedTime(t) => ev(21, depth, t as *const _ as usize, 0),
        C::ObjectDescriptor(d) => s(22, d.as_bytes()),
        C::GraphicString(d) => s(23, d.as_bytes()),
        C::GeneralString(d) => s(24, d.as_bytes()),
        C::Optional(Some(x)) => ev(25, depth, &**x as *const _ as usize, 0),
        C::Optional(None) => ev(25, depth, 0, 0),
        C::Tagged(c, t, x) => ev(27, depth, &**x as *const _ as usize, *c as usize * 1000 + t.0 as usize),
        C::Unknown(a) => ev(28, depth, sp(a.data), a.data.len()),
    };
    out.push(e);
    if let C::Sequence(v) | C::Set(v) = &o.content {
        for x in v {
            walk(x, depth + 1, out);
        }
    }
}

pub struct Vis {
    pub log: Vec<Ev>,
    /// drop the last member of each container before it is descended into (VisitMut)
    pub pop: bool,
    /// negate booleans (VisitMut)
    pub neg: bool,
    /// add members to each container before it is descended into (VisitMut)
    pub grow: bool,
    /// replace objects when they are first shown (VisitMut)
    pub swap: bool,
}

macro_rules! str_cb {
    ($($name:ident $k:literal),*) => { $(fn $name(&mut self, s: &'a str, depth: usize) {
        self.log.push(ev($k, depth, sp(s.as_bytes()), s.len()));
    })* };
}
macro_rules! bytes_cb {
    ($($name:ident $k:literal),*) => { $(fn $name(&mut self, s: &'a [u8], depth: usize) {
        self.log.push(ev($k, depth, sp(s), s.len()));
    })* };
}

impl<'a> Visit<'a> for Vis {
    fn visit_ber(&mut self, ber: &'_ BerObject<'a>, depth: usize) {
        self.log.push(ev(100, depth, ber as *const _ as usize, 0));
    }
    fn visit_ber_bitstring(&mut self, ignored: u8, data: &'a BitStringObject, depth: usize) {
        self.log.push(ev(3, depth, sp(data.data), data.data.len() * 256 + ignored as usize));
    }
    fn visit_ber_boolean(&mut self, b: bool, depth: usize) {
        self.log.push(ev(1, depth, b as usize, 0));
    }
    fn visit_ber_endofcontent(&mut self, depth: usize) {
        self.log.push(ev(0, depth, 0, 0));
    }
    fn visit_ber_enum(&mut self, e: u64, depth: usize) {
        self.log.push(ev(6, depth, e as usize, 0));
    }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.push(ev(21, depth, t as *const _ as usize, 0));
    }
    fn visit_ber_null(&mut self, depth: usize) {
        self.log.push(ev(5, depth, 0, 0));
    }
    fn visit_ber_oid(&mut self, oid: &'a Oid, depth: usize) {
        self.log.push(ev(7, depth, sp(oid.as_bytes()), oid.as_bytes().len()));
    }
    fn visit_ber_optional(&mut self, obj: Option<&'a BerObject<'a>>, depth: usize) {
        let p = match obj {
            Some(x) => x as *const _ as usize,
            None => 0,
        };
        self.log.push(ev(25, depth, p, 0));
    }
    fn visit_ber_relative_oid(&mut self, oid: &'a Oid, depth: usize) {
        self.log.push(ev(8, depth, sp(oid.as_bytes()), oid.as_bytes().len()));
    }
    fn visit_ber_sequence(&mut self, l: &'_ [BerObject<'a>], depth: usize) {
        self.log.push(ev(18, depth, if l.is_empty() { 0 } else { l.as_ptr() as usize }, l.len()));
    }
    fn visit_ber_set(&mut self, l: &'_ [BerObject<'a>], depth: usize) {
        self.log.push(ev(19, depth, if l.is_empty() { 0 } else { l.as_ptr() as usize }, l.len()));
    }
    fn visit_ber_tagged(&mut self, class: Class, tag: Tag, obj: &'_ BerObject<'a>, depth: usize) {
        self.log.push(ev(27, depth, obj as *const _ as usize, class as usize * 1000 + tag.0 as usize));
    }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.push(ev(20, depth, t as *const _ as usize, 0));
    }
    fn visit_ber_unknown(&mut self, a: &'_ Any<'a>, depth: usize) {
        self.log.push(ev(28, depth, sp(a.data), a.data.len()));
    }
    bytes_cb!(visit_ber_bmpstring 16, visit_ber_integer 2, visit_ber_octetstring 4, visit_ber_universalstring 17);
    str_cb!(visit_ber_generalstring 24, visit_ber_graphicstring 23, visit_ber_ia5string 12, visit_ber_numericstring 9,
        visit_ber_objectdescriptor 22, visit_ber_printablestring 11, visit_ber_teletexstring 14, visit_ber_utf8string 13,
        visit_ber_videotextstring 15, visit_ber_visiblestring 10);
}

macro_rules! str_cbm {
    ($($name:ident $k:literal),*) => { $(fn $name(&mut self, s: &'a mut &'_ str, depth: usize) {
        self.log.push(ev($k, depth, sp(s.as_bytes()), s.len()));
    })* };
}
macro_rules! bytes_cbm {
    ($($name:ident $k:literal),*) => { $(fn $name(&mut self, s: &'a mut &'_ [u8], depth: usize) {
        self.log.push(ev($k, depth, sp(s), s.len()));
    })* };
}

impl<'a> VisitMut<'a> for Vis {
    fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, depth: usize) {
        if self.swap {
            match ber.content {
                BerObjectContent::Null => {
                    ber.content = BerObjectContent::Set(vec![
                        BerObject::from_obj(BerObjectContent::Boolean(true)),
                        BerObject::from_obj(BerObjectContent::EndOfContent),
                    ])
                }
                BerObjectContent::Boolean(true) => ber.content = BerObjectContent::Enum(77),
                BerObjectContent::Integer(d) => ber.content = BerObjectContent::OctetString(d),
                BerObjectContent::Unknown(_) => ber.content = BerObjectContent::Sequence(vec![]),
                _ => (),
            }
        }
        self.log.push(ev(100, depth, ber as *const _ as usize, 0));
    }
    fn visit_ber_bitstring_mut(&mut self, ignored: &mut u8, data: &'a mut BitStringObject, depth: usize) {
        self.log.push(ev(3, depth, sp(data.data), data.data.len() * 256 + *ignored as usize));
    }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, depth: usize) {
        self.log.push(ev(1, depth, *b as usize, 0));
        if self.neg {
            *b = !*b;
        }
    }
    fn visit_ber_endofcontent_mut(&mut self, depth: usize) {
        self.log.push(ev(0, depth, 0, 0));
    }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, depth: usize) {
        self.log.push(ev(6, depth, *e as usize, 0));
        if self.neg {
            *e = !*e;
        }
    }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.push(ev(21, depth, t as *const _ as usize, 0));
    }
    fn visit_ber_null_mut(&mut self, depth: usize) {
        self.log.push(ev(5, depth, 0, 0));
    }
    fn visit_ber_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) {
        self.log.push(ev(7, depth, sp(oid.as_bytes()), oid.as_bytes().len()));
    }
    fn visit_ber_optional_mut(&mut self, obj: Option<&'a mut BerObject<'a>>, depth: usize) {
        let p = match obj {
            Some(x) => x as *const _ as usize,
            None => 0,
        };
        self.log.push(ev(25, depth, p, 0));
    }
    fn visit_ber_relative_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) {
        self.log.push(ev(8, depth, sp(oid.as_bytes()), oid.as_bytes().len()));
    }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, depth: usize) {
        if self.grow {
            grow(l);
        }
        self.log.push(ev(18, depth, if l.is_empty() { 0 } else { l.as_ptr() as usize }, l.len()));
        if self.pop {
            l.pop();
        }
    }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, depth: usize) {
        if self.grow {
            grow(l);
        }
        self.log.push(ev(19, depth, if l.is_empty() { 0 } else { l.as_ptr() as usize }, l.len()));
        if self.pop {
            l.pop();
        }
    }
    fn visit_ber_tagged_mut(&mut self, class: &'a mut Class, tag: &'a mut Tag, obj: &'a mut BerObject<'a>, depth: usize) {
        self.log.push(ev(27, depth, obj as *const _ as usize, *class as usize * 1000 + tag.0 as usize));
    }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.push(ev(20, depth, t as *const _ as usize, 0));
    }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, depth: usize) {
        self.log.push(ev(13, depth, sp(s.as_bytes()), s.len()));
    }
    fn visit_ber_octetstring_mut(&mut self, s: &'a [u8], depth: usize) {
        self.log.push(ev(4, depth, sp(s), s.len()));
    }
    fn visit_ber_unknown_mut(&mut self, a: &'_ mut Any<'a>, depth: usize) {
        self.log.push(ev(28, depth, sp(a.data), a.data.len()));
    }
    bytes_cbm!(visit_ber_bmpstring_mut 16, visit_ber_integer_mut 2, visit_ber_universalstring_mut 17);
    str_cbm!(visit_ber_generalstring_mut 24, visit_ber_graphicstring_mut 23, visit_ber_ia5string_mut 12, visit_ber_numericstring_mut 9,
        visit_ber_objectdescriptor_mut 22, visit_ber_printablestring_mut 11, visit_ber_teletexstring_mut 14,
        visit_ber_videotextstring_mut 15, visit_ber_visiblestring_mut 10);
}

fn same_log(a: &[Ev], b: &[Ev]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// A container holding one object of each kind given, nested one level deeper at each step.
pub fn tree<'a>(from: u64, to: u64, d: &'a [u8]) -> BerObject<'a> {
    let mut v = vec![];
    let mut k = from;
    while k < to {
        v.push(BerObject::from_obj(build(k, d)));
        if k % 3 == 0 {
            let inner = if k % 2 == 0 { BerObject::from_seq(v) } else { BerObject::from_set(v) };
            v = vec![inner];
        }
        k += 1;
    }
    BerObject::from_seq(v)
}

/// C16. params: 0 Visit / 1 VisitMut / 2 VisitMut that removes members / 3 VisitMut that modifies values /
/// 4 VisitMut that adds members / 5 VisitMut that replaces objects,
/// source (END: parse the input; from<<8|to: built objects); input
pub fn c16_visit() {
    let mode = param(0);
    let src = param(1);
    let b = input(2);
    let o = if src == END {
        match parse_ber(&b) {
            Ok((_, o)) => o,
            Err(_) => return,
        }
    } else {
        tree(src >> 8, src & 0xff, &b)
    };
    reach(1);
    let depth = any_u8() as usize;
    let mut v = Vis { log: vec![], pop: mode == 2, neg: mode == 3, grow: mode == 4, swap: mode == 5 };
    let mut want = vec![];
    if mode == 0 {
        walk(&o, 0, &mut want);
        Visit::run(&mut v, &o);
        observe(v.log.len() as u64);
        ck!(same_log(&v.log, &want));
        want.clear();
        v.log.clear();
        walk(&o, depth, &mut want);
        Visit::run_at(&mut v, &o, depth);
        ck!(same_log(&v.log, &want));
        return;
    }
    // the object is leaked: the visitor borrows it for its whole life
    let p: *mut BerObject = Box::into_raw(Box::new(o));
    let reft: &BerObject = unsafe { &*p };
    if mode == 2 {
        walk_pop(reft, depth, &mut want);
    } else if mode < 4 {
        walk(reft, depth, &mut want);
    }
    let before = reft.clone();
    VisitMut::run_at(&mut v, unsafe { &mut *p }, depth);
    observe(v.log.len() as u64);
    let after: &BerObject = unsafe { &*p };
    if mode >= 4 {
        // each handler was shown what the object became before it was descended into
        walk(after, depth, &mut want);
    }
    ck!(same_log(&v.log, &want));
    match mode {
        1 => {
            ck!(same_obj(after, &before));
            v.log.clear();
            want.clear();
            walk(after, 0, &mut want);
            VisitMut::run(&mut v, unsafe { &mut *p });
            ck!(same_log(&v.log, &want));
        }
        2 => ck!(count(after) <= count(&before)),
        4 => ck!(grown(after, &before)),
        5 => ck!(swapped(after, &before)),
        _ => ck!(negated(after, &before)),
    }
}

fn grow(l: &mut Vec<BerObject>) {
    if !l.is_empty() {
        l.push(BerObject::from_set(vec![]));
    }
    l.push(BerObject::from_obj(BerObjectContent::EndOfContent));
}

/// a is b with the members added by `grow`
fn grown(a: &BerObject, b: &BerObject) -> bool {
    use BerObjectContent as C;
    match (&a.content, &b.content) {
        (C::Sequence(x), C::Sequence(y)) | (C::Set(x), C::Set(y)) => {
            let more = if y.is_empty() { 1 } else { 2 };
            if x.len() != y.len() + more {
                return false;
            }
            let mut i = 0;
            while i < y.len() {
                if !grown(&x[i], &y[i]) {
                    return false;
                }
                i += 1;
            }
            matches!(x[x.len() - 1].content, C::EndOfContent)
                && (more == 1 || matches!(&x[x.len() - 2].content, C::Set(v) if v.len() == 1 && matches!(v[0].content, C::EndOfContent)))
        }
        _ => same_obj(a, b),
    }
}

/// a is b with the replacements made by the visitor
fn swapped(a: &BerObject, b: &BerObject) -> bool {
    use BerObjectContent as C;
    match (&a.content, &b.content) {
        (C::Set(x), C::Null) => x.len() == 2 && matches!(x[0].content, C::Enum(77)) && matches!(x[1].content, C::EndOfContent),
        (C::Enum(77), C::Boolean(true)) => true,
        (C::OctetString(x), C::Integer(y)) => x.len() == y.len() && sp(x) == sp(y),
        (C::Sequence(x), C::Unknown(_)) => x.is_empty(),
        (_, C::Null) | (_, C::Boolean(true)) | (_, C::Integer(_)) | (_, C::Unknown(_)) => false,
        (C::Sequence(x), C::Sequence(y)) | (C::Set(x), C::Set(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut i = 0;
            while i < x.len() {
                if !swapped(&x[i], &y[i]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        _ => same_obj(a, b),
    }
}

fn count(o: &BerObject) -> usize {
    match &o.content {
        BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => {
            let mut n = 1;
            for x in v {
                n += count(x);
            }
            n
        }
        _ => 1,
    }
}

/// as `walk`, when the visitor removes the last member of each container it is shown
fn walk_pop(o: &BerObject, depth: usize, out: &mut Vec<Ev>) {
    match &o.content {
        BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => {
            out.push(ev(100, depth, o as *const _ as usize, 0));
            let k = if matches!(o.content, BerObjectContent::Sequence(_)) { 18 } else { 19 };
            out.push(ev(k, depth, if v.is_empty() { 0 } else { v.as_ptr() as usize }, v.len()));
            let n = v.len();
            let mut i = 0;
            while i + 1 < n {
                walk_pop(&v[i], depth + 1, out);
                i += 1;
            }
        }
        _ => walk(o, depth, out),
    }
}

fn negated(a: &BerObject, b: &BerObject) -> bool {
    use BerObjectContent as C;
    match (&a.content, &b.content) {
        (C::Boolean(x), C::Boolean(y)) => *x != *y,
        (C::Enum(x), C::Enum(y)) => *x == !*y,
        (C::Sequence(x), C::Sequence(y)) | (C::Set(x), C::Set(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut i = 0;
            while i < x.len() {
                if !negated(&x[i], &y[i]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        _ => same_obj(a, b),
    }
}
