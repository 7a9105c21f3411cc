//! Generic decoding: C01 C02 C03 C04 C05 C06 C09 C15
use super::spec::*;
use super::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::*;

const FILE: u32 = 1;

pub type PF = for<'a> fn(&'a [u8]) -> BerResult<'a>;

/// All type-specific parsers: (BER version, DER version, universal tag number)
pub const TYPED: &[(PF, PF, u32)] = &[
    (parse_ber_endofcontent, parse_der_endofcontent, 0),
    (parse_ber_bool, parse_der_bool, 1),
    (parse_ber_integer, parse_der_integer, 2),
    (parse_ber_bitstring, parse_der_bitstring, 3),
    (parse_ber_octetstring, parse_der_octetstring, 4),
    (parse_ber_null, parse_der_null, 5),
    (parse_ber_oid, parse_der_oid, 6),
    (parse_ber_objectdescriptor, parse_der_objectdescriptor, 7),
    (parse_ber_enum, parse_der_enum, 10),
    (parse_ber_utf8string, parse_der_utf8string, 12),
    (parse_ber_relative_oid, parse_der_relative_oid, 13),
    (parse_ber_sequence, parse_der_sequence, 16),
    (parse_ber_set, parse_der_set, 17),
    (parse_ber_numericstring, parse_der_numericstring, 18),
    (parse_ber_printablestring, parse_der_printablestring, 19),
    (parse_ber_t61string, parse_der_t61string, 20),
    (parse_ber_videotexstring, parse_der_videotexstring, 21),
    (parse_ber_ia5string, parse_der_ia5string, 22),
    (parse_ber_utctime, parse_der_utctime, 23),
    (parse_ber_generalizedtime, parse_der_generalizedtime, 24),
    (parse_ber_graphicstring, parse_der_graphicstring, 25),
    (parse_ber_visiblestring, parse_der_visiblestring, 26),
    (parse_ber_generalstring, parse_der_generalstring, 27),
    (parse_ber_universalstring, parse_der_universalstring, 28),
    (parse_ber_bmpstring, parse_der_bmpstring, 30),
];

/// Does result `r` on input `b` agree with the reference verdict `e`?
pub fn agree(r: &BerResult, b: &[u8], e: R<(Acc, usize)>, m: Mode) -> bool {
    match e {
        R::Ok((a, end)) => match r {
            Ok((rem, o)) => {
                if a == Acc::No || rem.len() != b.len() - end || !is_sub(rem, b, end, b.len()) {
                    return false;
                }
                match same_elem(o, b, 0, b.len(), m) {
                    Some(x) => x == end,
                    None => false,
                }
            }
            Err(_) => a != Acc::Yes,
        },
        _ => r.is_err(),
    }
}

/// Agreement with the reference or, when end-of-contents look-alikes are involved, with
/// the recorded deviation (judged by C09).
pub fn agree_ber(r: &BerResult, b: &[u8], d: usize) -> bool {
    let mut fl = Fl::new();
    let e = elem(b, BER, d, &mut fl);
    let ok = agree(r, b, e, BER);
    if ok || !fl.fake {
        return ok;
    }
    reach(1);
    let mut fl = Fl::new();
    let e = elem(b, LAX, d, &mut fl);
    agree(r, b, e, LAX)
}

fn marks(r: &BerResult) {
    match r {
        Ok((_, o)) => {
            reach(2);
            match o.content {
                BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => reach(3),
                BerObjectContent::Unknown(_) => reach(4),
                _ => reach(5),
            }
        }
        Err(nom::Err::Incomplete(_)) => reach(6),
        Err(_) => reach(7),
    }
}

/// C04: parse_ber decodes exactly what the octets say.
pub fn c04_ber() {
    let b = input(0);
    let r = parse_ber(&b);
    observe(dig_res(&r));
    marks(&r);
    ck!(agree_ber(&r, &b, 50));
}

/// C05: parse_der decodes exactly what the octets say, and enforces the DER restrictions.
pub fn c05_der() {
    let b = input(0);
    let r = parse_der(&b);
    observe(dig_res(&r));
    marks(&r);
    let mut fl = Fl::new();
    let e = elem(&b, DER, 50, &mut fl);
    ck!(agree(&r, &b, e, DER));
}

/// C03: identifier and length octets.
pub fn c03_hdr() {
    let der = param(0) == 1;
    let b = input(1);
    let r = if der { der_read_element_header(&b) } else { ber_read_element_header(&b) };
    let e = hdr(&b, der);
    match (&r, e) {
        (Ok((rem, h)), R::Ok(x)) => {
            reach(1);
            if x.indef {
                reach(2);
            }
            if x.tl > 1 {
                reach(3);
            }
            observe(h.length().definite().unwrap_or(7777) as u64);
            observe(h.tag().0 as u64);
            ck!(is_sub(rem, &b, x.hl, b.len()));
            ck!(same_hdr(h, &b, &x));
            ck!(h.class() as u8 == x.class);
            ck!(h.is_universal() == (x.class == 0));
            ck!(h.is_application() == (x.class == 1));
            ck!(h.is_contextspecific() == (x.class == 2));
            ck!(h.is_private() == (x.class == 3));
            ck!(h.constructed() == x.cons);
        }
        (Err(k), e) => {
            reach(4);
            observe(ek(k) as u64);
            match e {
                R::Ok(x) => ck!(x.bigtag || (der && !x.min)),
                // a truncated header can be completed by more input
                R::Short => {
                    reach(5);
                    if b.is_empty() || b[0] & 0x1f != 0x1f {
                        ck!(matches!(k, nom::Err::Incomplete(_)));
                    }
                }
                R::Bad => {
                    reach(6);
                    ck!(!matches!(k, nom::Err::Incomplete(_)));
                }
            }
        }
        (Ok(_), _) => ck!(false),
    }
}

/// C06: the recursion limit of parse_ber_recursive / parse_der_recursive.
/// params: 0 BER/1 DER, limit (END: symbolic)
pub fn c06_depth() {
    let der = param(0) == 1;
    let d = match param(1) {
        END => any_u64(),
        x => x,
    };
    let b = input(2);
    let m = if der { DER } else { BER };
    let d = d as usize;
    let r = if der { parse_der_recursive(&b, d) } else { parse_ber_recursive(&b, d) };
    observe(dig_res(&r));
    marks(&r);
    if d == 0 {
        ck!(r.is_err());
        return;
    }
    let mut fl = Fl::new();
    let e = elem(&b, m, d, &mut fl);
    ck!(if der { agree(&r, &b, e, m) } else { agree_ber(&r, &b, d) });
    if fl.fake {
        return;
    }
    if let Err(nom::Err::Error(BerError::BerMaxDepth)) = &r {
        reach(8);
        // the limit is only reported when it is really exceeded
        let mut fl = Fl::new();
        ck!(match elem(&b, m, 1000, &mut fl) {
            R::Ok((_, _)) => exceeds(&b, m, d),
            _ => true,
        });
    }
}

/// Is there an element nested deeper than d levels in the (complete) element b?
fn exceeds(b: &[u8], m: Mode, d: usize) -> bool {
    if d == 0 {
        return true;
    }
    let mut fl = Fl::new();
    if let R::Ok(s) = span(b, m.der, &mut fl) {
        if s.h.class == 0 && (s.h.tag == 16 || s.h.tag == 17) && s.h.cons {
            let mut p = s.h.hl;
            while p < s.ce {
                if exceeds(&b[p..s.ce], m, d - 1) {
                    return true;
                }
                match span(&b[p..s.ce], m.der, &mut fl) {
                    R::Ok(x) => p += x.end,
                    _ => return false,
                }
            }
        }
        // indefinite lengths nest one level per element skipped
        return s.h.indef && indef_depth(b) >= d.min(49);
    }
    false
}

/// Nesting of indefinite lengths in the element at the start of b (0: definite).
fn indef_depth(b: &[u8]) -> usize {
    fn go(b: &[u8]) -> Option<(usize, usize)> {
        let h = match hdr(b, false) {
            R::Ok(h) => h,
            _ => return None,
        };
        if !h.indef {
            if h.len > (b.len() - h.hl) as u64 {
                return None;
            }
            return Some((0, h.hl + h.len as usize));
        }
        let mut p = h.hl;
        let mut best = 0;
        loop {
            if b.len() >= p + 2 && b[p] == 0 && b[p + 1] == 0 {
                return Some((best + 1, p + 2));
            }
            let (d, e) = go(&b[p..])?;
            if d > best {
                best = d;
            }
            p += e;
        }
    }
    match go(b) {
        Some((d, _)) => d,
        None => 0,
    }
}

/// C06: the content readers with an explicit limit.
/// params: 0 BER/1 DER, tag, constructed, limit (END: symbolic), function
pub fn c06_content() {
    let der = param(0) == 1;
    let tag = param(1) as u32;
    let cons = param(2) == 1;
    let d = match param(3) {
        END => any_u64() as usize,
        x => x as usize,
    };
    let b = input(5);
    let m = if der { DER } else { BER };
    let len = Length::Definite(b.len());
    let h = Header::new(Class::ContextSpecific, cons, Tag(1), len);
    let r = match (der, param(4)) {
        (true, 0) => der_read_element_content_as(&b, Tag(tag), len, cons, d),
        (false, 0) => ber_read_element_content_as(&b, Tag(tag), len, cons, d),
        (true, 1) => parse_der_content(Tag(tag))(&b, &h, d),
        (false, 1) => parse_ber_content(Tag(tag))(&b, &h, d),
        (true, _) => parse_der_content2(Tag(tag))(&b, h, d),
        (false, _) => parse_ber_content2(Tag(tag))(&b, h, d),
    };
    let mut fl = Fl::new();
    let a = content_acc(tag, cons, false, &b, m, d, &mut fl);
    if fl.fake {
        return;
    }
    match &r {
        Ok((rem, c)) => {
            reach(1);
            observe(rem.len() as u64);
            ck!(a != Acc::No);
            ck!(rem.is_empty());
            ck!(same_content(c, tag, &b, 0, b.len(), m));
        }
        Err(e) => {
            reach(2);
            observe(ek(e) as u64);
            ck!(a != Acc::Yes);
            if d == 0 {
                reach(3);
                ck!(!matches!(e, nom::Err::Incomplete(_)));
            }
        }
    }
}

fn same_res(a: &BerResult, b: &BerResult) -> bool {
    match (a, b) {
        (Ok((_, x)), Ok((_, y))) => same_obj(x, y),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

fn ptr_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
}

/// Structural identity of two decodings of the same memory.
pub fn same_obj(x: &BerObject, y: &BerObject) -> bool {
    use BerObjectContent as C;
    if x.header.tag() != y.header.tag()
        || x.header.class() != y.header.class()
        || x.header.constructed() != y.header.constructed()
        || x.header.length() != y.header.length()
    {
        return false;
    }
    match (&x.content, &y.content) {
        (C::Sequence(a), C::Sequence(b)) | (C::Set(a), C::Set(b)) => {
            if a.len() != b.len() {
                return false;
            }
            for i in 0..a.len() {
                if !same_obj(&a[i], &b[i]) {
                    return false;
                }
            }
            true
        }
        (C::Tagged(c, t, a), C::Tagged(d, u, b)) => c == d && t == u && same_obj(a, b),
        (C::Optional(Some(a)), C::Optional(Some(b))) => same_obj(a, b),
        (C::Unknown(a), C::Unknown(b)) => ptr_eq(a.data, b.data),
        (C::OID(a), C::OID(b)) | (C::RelativeOID(a), C::RelativeOID(b)) => ptr_eq(a.as_bytes(), b.as_bytes()),
        (C::UTCTime(a), C::UTCTime(b)) | (C::GeneralizedTime(a), C::GeneralizedTime(b)) => same_time(a, b),
        (C::BitString(i, a), C::BitString(j, b)) => i == j && ptr_eq(a.data, b.data),
        (C::Enum(a), C::Enum(b)) => a == b,
        (C::Boolean(a), C::Boolean(b)) => a == b,
        (C::Null, C::Null) | (C::EndOfContent, C::EndOfContent) => true,
        (C::Optional(None), C::Optional(None)) => true,
        (a, b) => {
            if core::mem::discriminant(a) != core::mem::discriminant(b) {
                return false;
            }
            match (a.as_slice(), b.as_slice()) {
                (Ok(s), Ok(t)) => ptr_eq(s, t),
                _ => false,
            }
        }
    }
}

pub fn pick(i: u64) -> PF {
    match i {
        0 => parse_ber,
        1 => parse_der,
        x if x < 100 => TYPED[x as usize - 2].0,
        x => TYPED[x as usize - 100].1,
    }
}

/// Does all the data of o lie in the memory of b?
fn inside(o: &BerObject, b: &[u8]) -> bool {
    use BerObjectContent as C;
    let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    let inn = |s: &[u8]| s.is_empty() || (s.as_ptr() as usize >= lo && s.as_ptr() as usize + s.len() <= hi);
    if let Some(t) = o.header.raw_tag() {
        if !inn(t) {
            return false;
        }
    }
    match &o.content {
        C::Sequence(v) | C::Set(v) => {
            for x in v {
                if !inside(x, b) {
                    return false;
                }
            }
            true
        }
        C::OID(x) | C::RelativeOID(x) => inn(x.as_bytes()),
        _ => match o.as_slice() {
            Ok(s) => inn(s),
            Err(_) => true,
        },
    }
}

fn cut(f: PF, b: &[u8], k: usize) {
    let r3 = f(&b[..k]);
    ck!(r3.is_err());
    // streaming: more input is what is missing (a cut inside the octets of a
    // long-form tag number is reported as an invalid tag)
    let indef = matches!(hdr(b, false), R::Ok(h) if h.indef);
    if b[0] & 0x1f != 0x1f && !(indef && b[..k].iter().any(|c| c & 0x1f == 0x1f)) {
        ck!(matches!(r3, Err(nom::Err::Incomplete(_))));
    }
}

/// C02: what a parser returns as remaining input is exactly the rest after the
/// one element it consumed; the value depends on the element's own bytes only;
/// a truncated element is never accepted, and can be completed.
/// params: parser
pub fn c02_span() {
    let which = param(0);
    let f = pick(which);
    let b = input(1);
    let r = f(&b);
    observe(dig_res(&r));
    match &r {
        Ok((rem, _)) => {
            reach(1);
            let used = b.len() - rem.len();
            ck!(rem.len() <= b.len());
            ck!(is_sub(rem, &b, used, b.len()));
            let mut fl = Fl::new();
            let der = which == 1 || which >= 100;
            let mut e = match span(&b, der, &mut fl) {
                R::Ok(s) => s.end,
                _ => 0,
            };
            if fl.fake && e != used {
                reach(2);
                let mut fl = Fl::new();
                fl.lax = true;
                e = match span(&b, der, &mut fl) {
                    R::Ok(s) => s.end,
                    _ => 0,
                };
            }
            ck!(e == used);
            ck!(used > 0);
            // everything borrowed lies in the consumed part of the input
            if let Ok((_, o)) = &r {
                ck!(inside(o, &b[..used]));
            }
            if !rem.is_empty() {
                reach(3);
                let r2 = f(&b[..used]);
                ck!(same_res(&r, &r2));
            }
            if b.len() < 100 {
                let mut k = 0;
                while k < used {
                    cut(f, &b, k);
                    k += 1;
                }
            } else {
                let mut i = 1;
                while i < 7 {
                    if i < used {
                        cut(f, &b, i);
                        cut(f, &b, used - i);
                    }
                    i += 1;
                }
                cut(f, &b, used / 2);
            }
        }
        Err(nom::Err::Incomplete(_)) => {
            reach(4);
            // never claimed for an input holding a complete, acceptable element
            let m = if which == 1 || which >= 100 { DER } else { BER };
            let mut fl = Fl::new();
            ck!(!matches!(elem(&b, m, 50, &mut fl), R::Ok((Acc::Yes, _))) || which > 1 || fl.fake);
        }
        Err(_) => reach(5),
    }
}

/// C09: indefinite length.  params: 0 container / 1 typed sequence/set / 2 generic / 3 content reader
pub fn c09_indef() {
    let which = param(0);
    let b = input(1);
    let mut fl = Fl::new();
    match which {
        0 => {
            let mut seen: Option<(usize, usize)> = None;
            let r: nom::IResult<&[u8], (), BerError> = parse_ber_container(|c: &[u8], h: Header| {
                seen = Some((c.as_ptr() as usize - b.as_ptr() as usize, c.len()));
                ck!(h.length() == Length::Indefinite || h.length() == Length::Definite(c.len()));
                Ok((&c[..0], ()))
            })(&b);
            match span(&b, false, &mut fl) {
                // nesting limit of the scanner
                R::Ok(_) if b.len() >= 100 && indef_depth(&b) >= 50 => {
                    reach(3);
                    ck!(r.is_err());
                }
                R::Ok(s) => {
                    reach(1);
                    ck!(r.is_ok());
                    let (rem, _) = r.unwrap();
                    ck!(is_sub(rem, &b, s.end, b.len()));
                    ck!(rem.len() == b.len() - s.end);
                    let (off, len) = seen.unwrap();
                    ck!(len == s.ce - s.h.hl);
                    ck!(len == 0 || off == s.h.hl);
                    observe(off as u64 * 1000 + len as u64);
                }
                _ => {
                    reach(2);
                    ck!(r.is_err());
                    ck!(seen.is_none());
                }
            }
        }
        1 => {
            let tag = (b[0] & 0x1f) as u32;
            let r = parse_ber_with_tag(&b, tag);
            observe(dig_res(&r));
            match span(&b, false, &mut fl) {
                R::Ok(s) => {
                    let mut fl2 = Fl::new();
                    let a = content_acc(tag, s.h.cons, s.h.indef, &b[s.h.hl..s.ce], BER, 50, &mut fl2);
                    match &r {
                        Ok((rem, o)) => {
                            reach(1);
                            ck!(rem.len() == b.len() - s.end && is_sub(rem, &b, s.end, b.len()));
                            ck!(same_hdr(&o.header, &b, &s.h));
                            // the members are decoded by the dependency (see known_findings.txt)
                            let ok = a != Acc::No && same_content(&o.content, tag, &b, s.h.hl, s.ce, BER);
                            if fl.fake {
                                let l = content_acc(tag, s.h.cons, s.h.indef, &b[s.h.hl..s.ce], LAX, 50, &mut fl2);
                                ck!(ok || l != Acc::No && same_content(&o.content, tag, &b, s.h.hl, s.ce, LAX));
                                assert_id(ok, 902);
                            } else {
                                ck!(ok);
                            }
                        }
                        Err(_) => {
                            reach(2);
                            if fl.fake {
                                let l = content_acc(tag, s.h.cons, s.h.indef, &b[s.h.hl..s.ce], LAX, 50, &mut fl2);
                                ck!(a != Acc::Yes || l != Acc::Yes);
                                assert_id(a != Acc::Yes, 902);
                            } else {
                                ck!(a != Acc::Yes);
                            }
                        }
                    }
                }
                _ => ck!(r.is_err()),
            }
        }
        2 => {
            let r = parse_ber(&b);
            observe(dig_res(&r));
            if b.len() >= 100 && indef_depth(&b) >= 50 {
                reach(3);
                ck!(r.is_err());
                return;
            }
            let e = elem(&b, BER, 50, &mut fl);
            if r.is_ok() {
                reach(1);
            } else {
                reach(2);
            }
            ck!(agree_ber(&r, &b, 50));
            if fl.fake {
                assert_id(agree(&r, &b, e, BER), 901);
            }
        }
        _ => {
            // content reader: the header and the limit are given by the caller
            let d = any_u8() as usize;
            let tag = if which == 3 { 16 } else { 17 };
            let r = ber_read_element_content_as(&b, Tag(tag), Length::Indefinite, true, d);
            let h = Hd { class: 0, cons: true, tag, tl: 0, indef: true, len: 0, hl: 0, min: true, bigtag: false };
            match content_span(&b, h, &mut fl) {
                R::Ok(s) => {
                    let mut fl2 = Fl::new();
                    let mut a = content_acc(tag, true, true, &b[..s.ce], BER, d, &mut fl2);
                    // a small limit may be exhausted by the nesting
                    if d < 2 + b.len() / 2 && a == Acc::Yes {
                        a = Acc::Any;
                    }
                    match &r {
                        Ok((rem, c)) => {
                            reach(1);
                            ck!(rem.len() == b.len() - s.end && is_sub(rem, &b, s.end, b.len()));
                            let ok = a != Acc::No && same_content(c, tag, &b, 0, s.ce, BER);
                            if fl.fake {
                                let l = content_acc(tag, true, true, &b[..s.ce], LAX, d, &mut fl2);
                                ck!(ok || l != Acc::No && same_content(c, tag, &b, 0, s.ce, LAX));
                                assert_id(ok, 902);
                            } else {
                                ck!(ok);
                            }
                        }
                        Err(_) => {
                            reach(2);
                            if fl.fake {
                                let l = content_acc(tag, true, true, &b[..s.ce], LAX, d, &mut fl2);
                                ck!(a != Acc::Yes || l != Acc::Yes);
                                assert_id(a != Acc::Yes, 902);
                            } else {
                                ck!(a != Acc::Yes);
                            }
                        }
                    }
                }
                _ => ck!(r.is_err()),
            }
        }
    }
}

/// C15: a type-specific parser accepts exactly the elements carrying its tag, with the
/// value the generic parser gives.  params: index in TYPED, 0 BER / 1 DER
pub fn c15_typed() {
    let der = param(1) == 1;
    let m = if der { DER } else { BER };
    let b = input(2);
    let (r, tag) = match param(0) {
        // the parsers which take the tag as an argument (here 1000 + tag, or any)
        x if x >= 1000 => {
            let t = if x == END { any_u32() } else { x as u32 - 1000 };
            (if der { parse_der_with_tag(&b, t) } else { parse_ber_with_tag(&b, Tag(t)) }, t)
        }
        x => {
            let (fb, fd, tag) = TYPED[x as usize];
            (if der { fd(&b) } else { fb(&b) }, tag)
        }
    };
    observe(dig_res(&r));
    let h = match hdr(&b, der) {
        R::Ok(h) => h,
        _ => {
            reach(1);
            ck!(r.is_err());
            return;
        }
    };
    if h.tag != tag {
        reach(2);
        ck!(match &r {
            Err(e) => ek(e) == Ek::UnexpectedTag,
            _ => false,
        } || h.bigtag);
        return;
    }
    let mut fl = Fl::new();
    let s = match content_span(&b, h, &mut fl) {
        R::Ok(s) => s,
        _ => {
            reach(3);
            ck!(r.is_err());
            return;
        }
    };
    if fl.fake {
        return;
    }
    let mut a = content_acc(tag, h.cons, h.indef, &b[h.hl..s.ce], m, 50, &mut fl);
    if fl.fake {
        return; // the end of some member is in dispute: see C09
    }
    if h.class != 0 || h.bigtag || (der && !h.min) {
        a = a.and(Acc::Any);
    }
    match &r {
        Ok((rem, o)) => {
            reach(4);
            ck!(a != Acc::No);
            ck!(rem.len() == b.len() - s.end && is_sub(rem, &b, s.end, b.len()));
            ck!(same_hdr(&o.header, &b, &h));
            ck!(same_content(&o.content, tag, &b, h.hl, s.ce, m));
        }
        Err(_) => {
            reach(5);
            ck!(a != Acc::Yes);
        }
    }
    if h.class == 0 && !fl.fake {
        // agreement with the generic parser
        let g = if der { parse_der(&b) } else { parse_ber(&b) };
        if let (Ok((_, o)), Ok((_, p))) = (&r, &g) {
            reach(6);
            ck!(same_obj(o, p));
        }
        ck!(r.is_ok() == g.is_ok());
    }
}

/// C15: whatever parse_der accepts, parse_ber accepts with the same result.
pub fn c15_derber() {
    let b = input(0);
    let d = parse_der(&b);
    observe(dig_res(&d));
    if let Ok((rd, od)) = &d {
        reach(1);
        match parse_ber(&b) {
            Ok((rb, ob)) => {
                ck!(rd.len() == rb.len());
                ck!(same_obj(od, &ob));
                ck!(*od == ob);
            }
            Err(_) => ck!(false),
        }
    } else {
        reach(2);
    }
}

/// C01: no input makes a parser panic (also none of the accessors of what it returned).
/// params: parser (as in `pick`), or 50.. for the others
pub fn c01_all() {
    let which = param(0);
    let b = input(1);
    match which {
        50 => {
            let r = parse_ber_i32(&b);
            observe(r.is_ok() as u64);
        }
        51 => {
            let r = parse_ber_i64(&b);
            observe(r.is_ok() as u64);
        }
        52 => {
            let r = parse_ber_u32(&b);
            observe(r.is_ok() as u64);
        }
        53 => {
            let r = parse_ber_u64(&b);
            observe(r.is_ok() as u64);
        }
        54 => {
            let r = parse_der_i32(&b);
            observe(r.is_ok() as u64);
        }
        55 => {
            let r = parse_der_i64(&b);
            observe(r.is_ok() as u64);
        }
        56 => {
            let r = parse_der_u32(&b);
            observe(r.is_ok() as u64);
        }
        57 => {
            let r = parse_der_u64(&b);
            observe(r.is_ok() as u64);
        }
        58 => {
            let t = Tag(any_u8() as u32);
            let r = parse_ber_slice(&b, t);
            observe(r.is_ok() as u64);
            let r = parse_der_slice(&b, t);
            observe(r.is_ok() as u64);
        }
        59 => {
            let r = parse_ber_any(&b);
            observe(r.is_ok() as u64);
        }
        60 => {
            let t = Tag(any_u8() as u32);
            let d = any_u8() as usize;
            let r = parse_ber_any_with_tag_r(&b, t, d);
            observe(dig_res(&r));
        }
        61 | 62 => {
            // content readers, every argument arbitrary
            let t = Tag(any_u8() as u32);
            let k = any_u8();
            let l = any_u64();
            let len = if k & 1 == 0 { Length::Definite(l as usize) } else { Length::Indefinite };
            let d = (k >> 2) as usize;
            let r = if which == 61 {
                ber_read_element_content_as(&b, t, len, k & 2 != 0, d)
            } else {
                der_read_element_content_as(&b, t, len, k & 2 != 0, d)
            };
            observe(r.is_ok() as u64);
        }
        63 => {
            if let Ok((rem, h)) = der_read_element_header(&b) {
                let r = der_read_element_content(rem, h);
                observe(dig_res(&r));
            }
        }
        64 => {
            if let Ok((rem, h)) = ber_read_element_header(&b) {
                let r = der_read_element_content(rem, h);
                observe(dig_res(&r));
            }
        }
        70..=79 => {
            let t = Tag(any_u32());
            let ty = Tag(any_u8() as u32 & 31);
            let r = match which {
                70 => parse_ber_sequence_of(parse_ber)(&b),
                71 => parse_ber_set_of(parse_ber)(&b),
                72 => parse_der_sequence_of(parse_der)(&b),
                73 => parse_der_set_of(parse_der)(&b),
                74 => parse_ber_tagged_explicit(t, parse_ber)(&b),
                75 => parse_der_tagged_explicit(t, parse_der)(&b),
                76 => parse_ber_tagged_implicit(t, parse_ber_content(ty))(&b),
                77 => parse_der_tagged_implicit(t, parse_der_content(ty))(&b),
                78 => parse_ber_optional(parse_ber)(&b),
                _ => parse_der_explicit_optional(&b, t, parse_der),
            };
            observe(dig_res(&r));
            if let Ok((_, o)) = &r {
                use_obj(o);
                use_more(o);
            }
        }
        80 | 81 => {
            let r = if which == 80 { parse_ber(&b) } else { parse_der(&b) };
            observe(dig_res(&r));
            if let Ok((_, o)) = &r {
                use_more(o);
            }
            if let Ok((_, a)) = parse_ber_any(&b) {
                observe(BerObject::try_from(&a).is_ok() as u64);
                observe(BerObject::try_from(a).is_ok() as u64);
            }
        }
        _ => {
            let f = pick(which);
            let r = f(&b);
            observe(dig_res(&r));
            marks(&r);
            if let Ok((_, o)) = &r {
                use_obj(o);
            }
        }
    }
}

/// Visit, print and encode it.
pub fn use_more(o: &BerObject) {
    let mut v = super::val::Vis { log: vec![], pop: false, neg: false, grow: false, swap: false };
    Visit::run(&mut v, o);
    observe(v.log.len() as u64);
    let mut p = o.as_pretty(1, 2);
    p.set_flag(PrettyPrinterFlag::ShowHeader);
    observe(format!("{:?}", p).len() as u64);
    observe(match o.to_vec() {
        Ok(v) => v.len() as u64,
        Err(_) => 0,
    });
}

/// Call every accessor.
pub fn use_obj(o: &BerObject) {
    let mut n = 0u64;
    n += o.as_i64().is_ok() as u64;
    n += o.as_i32().is_ok() as u64 * 2;
    n += o.as_u64().is_ok() as u64 * 4;
    n += o.as_u32().is_ok() as u64 * 8;
    n += o.as_bool().is_ok() as u64 * 16;
    n += o.as_oid().is_ok() as u64 * 32;
    n += o.as_oid_val().is_ok() as u64 * 64;
    n += o.as_optional().is_ok() as u64 * 128;
    n += o.as_tagged().is_ok() as u64 * 256;
    n += o.as_bitstring_ref().is_ok() as u64 * 512;
    n += o.as_bitstring().is_ok() as u64 * 1024;
    n += o.as_bitslice().is_ok() as u64 * 2048;
    n += o.as_sequence().is_ok() as u64 * 4096;
    n += o.as_set().is_ok() as u64 * 8192;
    n += o.as_slice().is_ok() as u64 * 16384;
    n += o.as_str().is_ok() as u64 * 32768;
    if let Ok(bs) = o.as_bitstring() {
        n += bs.is_set(any_u64() as usize) as u64;
    }
    if matches!(o.as_slice(), Ok(s) if s.len() < 24) {
        n += o.as_bigint().is_ok() as u64;
        n += o.as_biguint().is_ok() as u64;
    }
    n += o.ref_iter().count() as u64 * 65536;
    n += o.clone().into_iter().count() as u64 * 65536;
    if let Ok(v) = o.as_sequence() {
        for x in v {
            use_obj(x);
        }
    }
    if let Ok(v) = o.as_set() {
        for x in v {
            use_obj(x);
        }
    }
    observe(n);
}
