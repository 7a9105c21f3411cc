//! Combinators: C10 containers, C11 tagged values, C12 optional values
use super::parse::{same_obj, PF};
use super::spec::*;
use super::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::*;
use std::cell::Cell;

const FILE: u32 = 3;

/// Extent of the element at the start of b, as the container combinators see it.
fn ext(b: &[u8], der: bool) -> R<Sp> {
    let mut fl = Fl::new();
    span(b, der, &mut fl)
}

fn off(s: &[u8], base: &[u8]) -> usize {
    (s.as_ptr() as usize).wrapping_sub(base.as_ptr() as usize)
}

/// Is `s` the content octets b[from..to]?
fn at(s: &[u8], b: &[u8], from: usize, to: usize) -> bool {
    s.len() == to - from && (s.is_empty() || off(s, b) == from)
}

pub fn item(i: u64) -> PF {
    match i {
        0 => parse_ber_integer,
        1 => parse_der_integer,
        2 => parse_ber,
        3 => parse_der,
        4 => parse_der_bool,
        5 => parse_ber_octetstring,
        // composed, failing for good, wanting more, or optional in turn
        6 => ber_ints,
        7 => der_ints,
        8 => |_| Err(nom::Err::Failure(BerError::InvalidDateTime)),
        9 => |_| Err(nom::Err::Incomplete(nom::Needed::Unknown)),
        10 => opt_int,
        11 => tagged_int,
        _ => |i| Err(nom::Err::Error(BerError::NomError(if i.is_empty() { nom::error::ErrorKind::Eof } else { nom::error::ErrorKind::Tag }))),
    }
}

fn ber_ints(i: &[u8]) -> BerResult {
    parse_ber_sequence_of(parse_ber_integer)(i)
}
fn der_ints(i: &[u8]) -> BerResult {
    parse_der_set_of(parse_der_integer)(i)
}
fn opt_int(i: &[u8]) -> BerResult {
    parse_ber_optional(parse_ber_integer)(i)
}
fn tagged_int(i: &[u8]) -> BerResult {
    parse_ber_tagged_explicit(Tag(1), parse_ber_integer)(i)
}

/// What a "list of f" has to return on content d: the items, or None.
fn items<'a>(f: PF, d: &'a [u8]) -> Option<Vec<BerObject<'a>>> {
    let mut v = vec![];
    let mut r = d;
    while !r.is_empty() {
        match f(r) {
            Ok((n, o)) => {
                v.push(o);
                r = n;
            }
            Err(_) => return None,
        }
    }
    Some(v)
}

/// C10: SEQUENCE OF / SET OF.
/// params: 0 BER seq, 1 BER set, 2 DER seq, 3 DER set; item parser; 0 object/1 vector
pub fn c10_of() {
    let w = param(0);
    let f = item(param(1));
    let v = param(2) == 1;
    let b = input(3);
    let der = w >= 2;
    let tag = if w % 2 == 0 { 16 } else { 17 };
    let (rem, got): (&[u8], Vec<BerObject>) = if v {
        let r: IR<Vec<BerObject>> = match w {
            0 => parse_ber_sequence_of_v(f)(&b),
            1 => parse_ber_set_of_v(f)(&b),
            2 => parse_der_sequence_of_v(f)(&b),
            _ => parse_der_set_of_v(f)(&b),
        };
        match r {
            Ok(x) => x,
            Err(e) => {
                observe(ek(&e) as u64);
                reject(&b, der, tag, f, &e);
                return;
            }
        }
    } else {
        let r = match w {
            0 => parse_ber_sequence_of(f)(&b),
            1 => parse_ber_set_of(f)(&b),
            2 => parse_der_sequence_of(f)(&b),
            _ => parse_der_set_of(f)(&b),
        };
        match r {
            Ok((rem, o)) => {
                ck!(o.tag().0 == tag);
                ck!(o.is_constructed() && o.is_universal());
                let c = match (tag, o.content) {
                    (16, BerObjectContent::Sequence(c)) => c,
                    (17, BerObjectContent::Set(c)) => c,
                    _ => {
                        ck!(false);
                        return;
                    }
                };
                (rem, c)
            }
            Err(e) => {
                observe(ek(&e) as u64);
                reject(&b, der, tag, f, &e);
                return;
            }
        }
    };
    reach(1);
    if got.len() >= 2 {
        reach(3);
    }
    observe(got.len() as u64 + 1000 * rem.len() as u64);
    match ext(&b, der) {
        R::Ok(s) => {
            ck!(s.h.tag == tag);
            ck!(is_sub(rem, &b, s.end, b.len()));
            match items(f, &b[s.h.hl..s.ce]) {
                Some(want) => {
                    ck!(want.len() == got.len());
                    let mut i = 0;
                    while i < got.len() {
                        ck!(same_obj(&got[i], &want[i]));
                        i += 1;
                    }
                }
                None => ck!(false),
            }
        }
        _ => ck!(false),
    }
}

type IR<'a, T> = nom::IResult<&'a [u8], T, BerError>;

fn reject(b: &[u8], der: bool, tag: u32, f: PF, e: &nom::Err<BerError>) {
    reach(2);
    let h = match ext(b, der) {
        R::Ok(s) => s,
        _ => return,
    };
    let conf = h.h.tag == tag && h.h.class == 0 && h.h.cons && !h.h.bigtag && (h.h.min || !der);
    ck!(!conf || items(f, &b[h.h.hl..h.ce]).is_none());
    // the container is complete: more input would not help
    ck!(!matches!(e, nom::Err::Incomplete(_)));
}

/// C10: "defined" containers: the function gets exactly the content and the header, once.
/// params: 0..3 defined_g, 4..7 defined, 8/9 container BER/DER, 10/11 slice; what f does: 0 consume all,
/// 1 consume nothing, 2 error, 3 failure, 4 parse two items ; slice tag
pub fn c10_def() {
    let w = param(0);
    let act = param(1);
    let t = param(2) as u32;
    let b = input(3);
    let calls = Cell::new(0u32);
    let seen = Cell::new((0usize, 0usize));
    let okhdr = Cell::new(true);
    let der = matches!(w, 2 | 3 | 6 | 7 | 9 | 11);
    let e = ext(&b, der);
    let body = |c: &[u8], h: Option<&Header>| -> Result<usize, nom::Err<BerError>> {
        calls.set(calls.get() + 1);
        seen.set((off(c, &b), c.len()));
        if let (Some(h), R::Ok(s)) = (h, e) {
            okhdr.set(same_hdr(h, &b, &s.h));
        }
        match act {
            2 => Err(nom::Err::Error(BerError::InvalidTag)),
            3 => Err(nom::Err::Failure(BerError::InvalidDateTime)),
            1 => Ok(0),
            _ => Ok(c.len()),
        }
    };
    let fg = |c, h: Header| -> IR<u64> { body(c, Some(&h)).map(|n| (&c[n..], 4242u64)) };
    let fd = |c| -> IR<Vec<BerObject>> { body(c, None).map(|n| (&c[n..], vec![BerObject::from_int_slice(c)])) };
    enum Out<'a> {
        G(IR<'a, u64>),
        O(BerResult<'a>),
        S(IR<'a, &'a [u8]>),
    }
    let r = match w {
        0 => Out::G(parse_ber_sequence_defined_g(fg)(&b)),
        1 => Out::G(parse_ber_set_defined_g(fg)(&b)),
        2 => Out::G(parse_der_sequence_defined_g(fg)(&b)),
        3 => Out::G(parse_der_set_defined_g(fg)(&b)),
        4 => Out::O(parse_ber_sequence_defined(fd)(&b)),
        5 => Out::O(parse_ber_set_defined(fd)(&b)),
        6 => Out::O(parse_der_sequence_defined(fd)(&b)),
        7 => Out::O(parse_der_set_defined(fd)(&b)),
        8 => Out::G(parse_ber_container(fg)(&b)),
        9 => Out::G(parse_der_container(fg)(&b)),
        10 => Out::S(parse_ber_slice(&b, Tag(t))),
        _ => Out::S(parse_der_slice(&b, Tag(t))),
    };
    let tag = match w {
        0 | 2 | 4 | 6 => Some(16),
        1 | 3 | 5 | 7 => Some(17),
        8 | 9 => None,
        _ => Some(t),
    };
    let slice = w >= 10;
    let err = match &r {
        Out::G(Err(e)) => Some(e.clone()),
        Out::O(Err(e)) => Some(e.clone()),
        Out::S(Err(e)) => Some(e.clone()),
        _ => None,
    };
    match &r {
        Out::G(Ok((m, v))) => {
            ck!(*v == 4242);
            observe(m.len() as u64);
        }
        Out::O(Ok((m, o))) => {
            observe(m.len() as u64);
            ck!(o.is_universal() && o.is_constructed() && Some(o.tag().0) == tag);
            ck!(match (&o.content, tag) {
                (BerObjectContent::Sequence(v), Some(16)) => v.len() == 1,
                (BerObjectContent::Set(v), Some(17)) => v.len() == 1,
                _ => false,
            });
        }
        _ => (),
    }
    let rem = match &r {
        Out::G(Ok((m, _))) => Some(*m),
        Out::O(Ok((m, _))) => Some(*m),
        Out::S(Ok((m, _))) => Some(*m),
        _ => None,
    };
    match e {
        R::Ok(s) if tag.is_none() || tag == Some(s.h.tag) || s.h.bigtag => {
            if s.h.bigtag || (der && !s.h.min) {
                return;
            }
            // DER has no indefinite length: excluded by ext()
            if slice {
                reach(1);
                match &r {
                    Out::S(Ok((m, c))) => {
                        ck!(is_sub(m, &b, s.end, b.len()));
                        ck!(is_sub(c, &b, s.h.hl, s.ce));
                        observe(c.len() as u64);
                    }
                    _ => ck!(s.h.class != 0),
                }
                return;
            }
            let lax = tag.is_some() && (s.h.class != 0 || !s.h.cons);
            if lax && calls.get() == 0 {
                ck!(err.is_some());
                return;
            }
            reach(2);
            ck!(calls.get() == 1);
            let (o, l) = seen.get();
            ck!(l == s.ce - s.h.hl && (l == 0 || o == s.h.hl));
            ck!(okhdr.get());
            match act {
                2 => ck!(matches!(err, Some(nom::Err::Error(BerError::InvalidTag)))),
                3 => ck!(matches!(err, Some(nom::Err::Failure(BerError::InvalidDateTime)))),
                _ => {
                    ck!(rem.is_some());
                    // whatever the function left inside the container is skipped
                    ck!(is_sub(rem.unwrap(), &b, s.end, b.len()) && rem.unwrap().len() == b.len() - s.end);
                }
            }
        }
        R::Ok(_) => {
            reach(3);
            ck!(calls.get() == 0);
            ck!(matches!(err, Some(nom::Err::Error(BerError::UnexpectedTag { .. }))));
        }
        _ => {
            reach(4);
            ck!(calls.get() == 0);
            ck!(err.is_some());
        }
    }
}

/// C10: a container whose function parses a fixed list of fields.
/// params: 0..3 as c10_of
pub fn c10_fields() {
    let w = param(0);
    let b = input(1);
    let der = w >= 2;
    let pi: PF = if der { parse_der_integer } else { parse_ber_integer };
    let pb: PF = if der { parse_der_bool } else { parse_ber_bool };
    fn two<'a>(pi: PF, pb: PF, i: &'a [u8]) -> BerResult<'a, Vec<BerObject<'a>>> {
        let (i, a) = pi(i)?;
        let (i, b) = pb(i)?;
        Ok((i, vec![a, b]))
    }
    let f = move |i| two(pi, pb, i);
    let r = match w {
        0 => parse_ber_sequence_defined(f)(&b),
        1 => parse_ber_set_defined(f)(&b),
        2 => parse_der_sequence_defined(f)(&b),
        _ => parse_der_set_defined(f)(&b),
    };
    observe(dig_res(&r));
    let s = match ext(&b, der) {
        R::Ok(s) => s,
        _ => {
            ck!(r.is_err());
            return;
        }
    };
    let want_tag = if w % 2 == 0 { 16 } else { 17 };
    let inner = two(pi, pb, &b[s.h.hl..s.ce]);
    match &r {
        Ok((rem, o)) => {
            reach(1);
            ck!(s.h.tag == want_tag);
            ck!(is_sub(rem, &b, s.end, b.len()));
            let kids = match &o.content {
                BerObjectContent::Sequence(v) if want_tag == 16 => v,
                BerObjectContent::Set(v) if want_tag == 17 => v,
                _ => {
                    ck!(false);
                    return;
                }
            };
            match &inner {
                Ok((_, v)) => {
                    ck!(kids.len() == 2 && same_obj(&kids[0], &v[0]) && same_obj(&kids[1], &v[1]));
                }
                _ => ck!(false),
            }
        }
        Err(_) => {
            reach(2);
            ck!(s.h.tag != want_tag || inner.is_err() || s.h.class != 0 || !s.h.cons || (der && !s.h.min));
        }
    }
}

/// C11: explicitly tagged values.
/// params: 0 BER/1 DER, form (0 object, 1 generic, 2 object via optional wrapper), tag number, item parser
pub fn c11_explicit() {
    let der = param(0) == 1;
    let form = param(1);
    let t = param(2) as u32;
    let f = item(param(3));
    let b = input(4);
    let s = ext(&b, der);
    // is this an explicitly tagged value with this tag, and what is inside?
    let ok = match s {
        R::Ok(s) => s.h.class != 0 && s.h.tag == t && s.h.cons && !s.h.bigtag,
        _ => false,
    };
    let lax = matches!(s, R::Ok(s) if s.h.bigtag || (der && !s.h.min));
    match form {
        0 | 2 => {
            let r = if form == 0 {
                if der {
                    parse_der_tagged_explicit(Tag(t), f)(&b)
                } else {
                    parse_ber_tagged_explicit(Tag(t), f)(&b)
                }
            } else {
                let r = if der {
                    parse_der_explicit_optional(&b, Tag(t), f)
                } else {
                    parse_ber_explicit_optional(&b, Tag(t), f)
                };
                match r {
                    Ok((rem, o)) => match o.content {
                        BerObjectContent::Optional(Some(x)) => {
                            ck!(o.header == x.header);
                            Ok((rem, *x))
                        }
                        BerObjectContent::Optional(None) => {
                            ck!(is_sub(rem, &b, 0, b.len()));
                            Err(nom::Err::Error(BerError::InvalidTag))
                        }
                        _ => {
                            ck!(false);
                            return;
                        }
                    },
                    Err(e) => {
                        ck!(false);
                        Err(e)
                    }
                }
            };
            observe(dig_res(&r));
            match &r {
                Ok((rem, o)) => {
                    reach(1);
                    ck!(ok || lax);
                    let s = match s {
                        R::Ok(s) => s,
                        _ => {
                            ck!(false);
                            return;
                        }
                    };
                    ck!(is_sub(rem, &b, s.end, b.len()) && rem.len() == b.len() - s.end);
                    ck!(same_hdr(&o.header, &b, &s.h));
                    match (&o.content, f(&b[s.h.hl..s.ce])) {
                        (BerObjectContent::Tagged(c, tt, x), Ok((_, y))) => {
                            ck!(*c as u8 == s.h.class && (tt.0 == t));
                            ck!(same_obj(x, &y));
                        }
                        _ => ck!(false),
                    }
                    ck!(matches!(o.as_tagged(), Ok((c, tt, _)) if c as u8 == s.h.class && tt.0 == t));
                }
                Err(_) => {
                    reach(2);
                    if ok && !lax {
                        if let R::Ok(s) = s {
                            ck!(f(&b[s.h.hl..s.ce]).is_err());
                        }
                    }
                }
            }
        }
        _ => {
            let calls = Cell::new(0u32);
            let seen = Cell::new((0usize, 0usize));
            let okh = Cell::new(false);
            let g = |c, h: Header| -> IR<u64> {
                calls.set(calls.get() + 1);
                seen.set((off(c, &b), c.len()));
                if let R::Ok(s) = s {
                    okh.set(same_hdr(&h, &b, &s.h));
                }
                Ok((&c[..0], 77))
            };
            let r: IR<u64> = if der {
                parse_der_tagged_explicit_g(Tag(t), g)(&b)
            } else {
                parse_ber_tagged_explicit_g(Tag(t), g)(&b)
            };
            check_g(&r, &b, s, ok, lax, calls.get(), seen.get(), okh.get());
        }
    }
}

fn check_g(r: &IR<u64>, b: &[u8], s: R<Sp>, ok: bool, lax: bool, calls: u32, seen: (usize, usize), okh: bool) {
    match r {
        Ok((rem, v)) => {
            reach(1);
            observe(rem.len() as u64);
            ck!(*v == 77 && calls == 1);
            ck!(ok || lax);
            match s {
                R::Ok(s) => {
                    ck!(okh);
                    ck!(is_sub(rem, b, s.end, b.len()) && rem.len() == b.len() - s.end);
                    ck!(seen.1 == s.ce - s.h.hl && (seen.1 == 0 || seen.0 == s.h.hl));
                }
                _ => ck!(false),
            }
        }
        Err(e) => {
            reach(2);
            observe(ek(e) as u64);
            ck!(calls == 0);
            ck!(!ok || lax);
        }
    }
}

/// C11: implicitly tagged values.
/// params: 0 BER/1 DER, form (0 object, 1 generic, 2 older name), tag number, type of the content
pub fn c11_implicit() {
    let der = param(0) == 1;
    let form = param(1);
    let t = param(2) as u32;
    let ty = param(3) as u32;
    let b = input(4);
    let m = if der { DER } else { BER };
    let s = ext(&b, der);
    let ok = match s {
        R::Ok(s) => s.h.tag == t && !s.h.bigtag,
        _ => false,
    };
    let lax = matches!(s, R::Ok(s) if s.h.bigtag || (der && !s.h.min));
    if form == 1 {
        let calls = Cell::new(0u32);
        let seen = Cell::new((0usize, 0usize));
        let okh = Cell::new(false);
        let g = |c, h: Header, d: usize| -> IR<u64> {
            calls.set(calls.get() + 1);
            seen.set((off(c, &b), c.len()));
            if let R::Ok(s) = s {
                okh.set(same_hdr(&h, &b, &s.h) && d == MAX_RECURSION);
            }
            Ok((&c[..0], 77))
        };
        let r: IR<u64> = if der {
            parse_der_tagged_implicit_g(Tag(t), g)(&b)
        } else {
            parse_ber_tagged_implicit_g(Tag(t), g)(&b)
        };
        check_g(&r, &b, s, ok, lax, calls.get(), seen.get(), okh.get());
        return;
    }
    if form >= 3 {
        part_implicit(der, form == 3, t, &b, s, ok, lax);
        return;
    }
    let tag = Tag(ty);
    let r = match (der, form) {
        (false, 0) => parse_ber_tagged_implicit(Tag(t), parse_ber_content(tag))(&b),
        (false, _) => parse_ber_implicit(&b, Tag(t), parse_ber_content(tag)),
        (true, 0) => parse_der_tagged_implicit(Tag(t), parse_der_content(tag))(&b),
        (true, _) => parse_der_implicit(&b, Tag(t), parse_der_content(tag)),
    };
    observe(dig_res(&r));
    let s = match s {
        R::Ok(s) => s,
        _ => {
            reach(3);
            ck!(r.is_err());
            return;
        }
    };
    let mut fl = Fl::new();
    let _ = span(&b, false, &mut fl);
    let a = content_acc(ty, s.h.cons, false, &b[s.h.hl..s.ce], m, 50, &mut fl);
    match &r {
        Ok((rem, o)) => {
            reach(1);
            ck!(ok || lax);
            ck!(is_sub(rem, &b, s.end, b.len()) && rem.len() == b.len() - s.end);
            // the object keeps the tagged header, with the content of the underlying type
            ck!(same_hdr(&o.header, &b, &s.h));
            if !fl.fake {
                ck!(a != Acc::No);
                ck!(same_content(&o.content, ty, &b, s.h.hl, s.ce, m));
            }
        }
        Err(_) => {
            reach(2);
            ck!(!ok || lax || a != Acc::Yes || fl.fake);
        }
    }
}

/// Implicit tagging with a content parser which takes at most one octet.
fn part_implicit(der: bool, new: bool, t: u32, b: &[u8], s: R<Sp>, ok: bool, lax: bool) {
    fn part<'a>(i: &'a [u8], _h: &Header, _d: usize) -> BerResult<'a, BerObjectContent<'a>> {
        match i.first() {
            None => Err(nom::Err::Error(BerError::InvalidLength)),
            Some(0x7f) => Err(nom::Err::Failure(BerError::BerValueError)),
            Some(_) => Ok((&i[1..], BerObjectContent::OctetString(&i[..1]))),
        }
    }
    let r = match (der, new) {
        (false, true) => parse_ber_tagged_implicit(Tag(t), part)(b),
        (false, false) => parse_ber_implicit(b, Tag(t), part),
        (true, true) => parse_der_tagged_implicit(Tag(t), part)(b),
        (true, false) => parse_der_implicit(b, Tag(t), part),
    };
    observe(dig_res(&r));
    let s = match s {
        R::Ok(s) => s,
        _ => {
            reach(3);
            ck!(r.is_err());
            return;
        }
    };
    match &r {
        Ok((rem, o)) => {
            reach(1);
            ck!(ok || lax);
            ck!(is_sub(rem, b, s.end, b.len()) && rem.len() == b.len() - s.end);
            ck!(same_hdr(&o.header, b, &s.h));
            ck!(s.ce > s.h.hl && matches!(o.content, BerObjectContent::OctetString(c) if is_sub(c, b, s.h.hl, s.h.hl + 1)));
        }
        Err(_) => {
            reach(2);
            ck!(!ok || lax || s.ce == s.h.hl || b[s.h.hl] == 0x7f);
        }
    }
}

/// C12: optional values. params: item parser
pub fn c12_opt() {
    let f = item(param(0));
    let b = input(1);
    let r = parse_ber_optional(f)(&b);
    observe(dig_res(&r));
    let want = f(&b);
    match (&r, &want) {
        (Ok((rem, o)), Ok((wrem, w))) => {
            reach(1);
            ck!(is_sub(rem, &b, b.len() - wrem.len(), b.len()) && rem.len() == wrem.len());
            ck!(matches!(o.as_optional(), Ok(Some(x)) if same_obj(x, w)));
            ck!(o.header.tag() == w.header.tag() && o.header.class() == w.header.class());
            ck!(o.header.length() == w.header.length() && o.header.is_constructed() == w.header.is_constructed());
        }
        (Ok((rem, o)), Err(_)) => {
            reach(2);
            // absent: nothing is consumed, no error
            ck!(is_sub(rem, &b, 0, b.len()) && rem.len() == b.len());
            ck!(matches!(o.as_optional(), Ok(None)));
        }
        _ => ck!(false),
    }
}

/// C12: two fields, the first one optional: an absent field leaves the next one parsable.
/// params: 0 BER/1 DER, explicit tag number, item parser of the optional field
pub fn c12_fields() {
    let der = param(0) == 1;
    let t = Tag(param(1) as u32);
    let f = item(param(2));
    let b = input(3);
    let first = if der { parse_der_explicit_optional(&b, t, f) } else { parse_ber_explicit_optional(&b, t, f) };
    let plain = if der {
        parse_der_tagged_explicit(t, f)(&b)
    } else {
        parse_ber_tagged_explicit(t, f)(&b)
    };
    observe(dig_res(&first));
    match (&first, &plain) {
        (Ok((rem, o)), Ok((wrem, w))) => {
            reach(1);
            ck!(rem.len() == wrem.len());
            ck!(matches!(o.as_optional(), Ok(Some(x)) if same_obj(x, w)));
        }
        (Ok((rem, o)), Err(_)) => {
            reach(2);
            ck!(is_sub(rem, &b, 0, b.len()) && rem.len() == b.len());
            ck!(matches!(o.as_optional(), Ok(None)));
            // so the next field sees the same input
            let a = if der { parse_der(rem) } else { parse_ber(rem) };
            let c = if der { parse_der(&b) } else { parse_ber(&b) };
            ck!(match (&a, &c) {
                (Ok((x, y)), Ok((z, w))) => x.len() == z.len() && same_obj(y, w),
                (Err(_), Err(_)) => true,
                _ => false,
            });
        }
        _ => ck!(false),
    }
}

