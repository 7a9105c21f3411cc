//! C21: pretty printing.
const FILE: u32 = 5;
use super::spec::*;
use super::val::*;
use super::*;
use crate::ck;
use der_parser::asn1_rs::{Class, Header, Length, Tag};
use der_parser::ber::*;

/// text under construction, `None` in `open` as long as all of it is prescribed
struct Out {
    s: Vec<u8>,
    /// everything after this point is unspecified
    open: bool,
}

impl Out {
    fn put(&mut self, s: &str) {
        if !self.open {
            self.s.extend_from_slice(s.as_bytes());
        }
    }
    fn pad(&mut self, n: usize) {
        if !self.open {
            let l = self.s.len();
            self.s.resize(l + n, b' ');
        }
    }
    fn num(&mut self, v: u64) {
        if self.open {
            return;
        }
        self.s.extend_from_slice(format!("{}", v).as_bytes());
    }
    fn hex(&mut self, d: &[u8]) {
        self.put("[");
        let mut i = 0;
        while i < d.len() {
            if i > 0 {
                self.put(" ");
            }
            let x = |n: u8| if n < 10 { b'0' + n } else { b'a' - 10 + n };
            if !self.open {
                self.s.push(x(d[i] >> 4));
                self.s.push(x(d[i] & 15));
            }
            i += 1;
        }
        self.put("]");
    }
    fn quoted(&mut self, k: &str, s: &str, q: bool) {
        self.put(k);
        self.put(if q { "(\"" } else { "(" });
        self.put(s);
        self.put(if q { "\")" } else { ")" });
    }
    fn hdr(&mut self, h: &Header) {
        self.put("[");
        match h.class() {
            Class::Universal => self.put(&format!("{}", h.tag())),
            Class::ContextSpecific => self.num(h.tag().0 as u64),
            Class::Application => {
                self.put("APPLICATION ");
                self.num(h.tag().0 as u64)
            }
            Class::Private => {
                self.put("PRIVATE ");
                self.num(h.tag().0 as u64)
            }
        }
        self.put(if h.is_constructed() { "]+ " } else { "] " });
        match h.length() {
            Length::Definite(n) => self.num(n as u64),
            Length::Indefinite => self.put("Indefinite"),
        }
        self.put(" ");
    }
}

fn utf16(d: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i + 1 < d.len() {
        let u = (d[i] as u32) << 8 | d[i + 1] as u32;
        i += 2;
        if u & 0xfc00 == 0xdc00 {
            return None;
        }
        if u & 0xfc00 == 0xd800 {
            if i + 1 >= d.len() {
                return None;
            }
            let l = (d[i] as u32) << 8 | d[i + 1] as u32;
            i += 2;
            if l & 0xfc00 != 0xdc00 {
                return None;
            }
            s.push(char::from_u32(0x10000 + ((u & 0x3ff) << 10) + (l & 0x3ff))?);
        } else {
            s.push(char::from_u32(u)?);
        }
    }
    Some(s)
}

fn utf32(d: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i + 3 < d.len() {
        let u = (d[i] as u32) << 24 | (d[i + 1] as u32) << 16 | (d[i + 2] as u32) << 8 | d[i + 3] as u32;
        if u > 0x10ffff || u >= 0xd800 && u <= 0xdfff {
            return None;
        }
        s.push(char::from_u32(u)?);
        i += 4;
    }
    Some(s)
}

/// The expected text.
fn expect(o: &BerObject, ind: usize, inc: usize, rec: bool, head: bool, out: &mut Out) {
    use BerObjectContent as C;
    out.pad(ind);
    if head {
        out.hdr(&o.header);
    }
    match &o.content {
        C::EndOfContent => out.put("EndOfContent"),
        C::Boolean(b) => out.put(if *b { "Boolean(true)" } else { "Boolean(false)" }),
        C::Integer(d) => {
            out.put("Integer(");
            out.hex(d);
            out.put(")");
        }
        C::Enum(n) => {
            out.put("Enum(");
            out.num(*n);
            out.put(")");
        }
        C::OID(v) => out.put(&format!("OID({:?})", v)),
        C::RelativeOID(v) => out.put(&format!("RelativeOID({:?})", v)),
        C::Null => out.put("Null"),
        C::OctetString(d) => {
            out.put("OctetString(");
            out.hex(d);
            out.put(")");
        }
        C::BitString(u, d) => {
            out.put("BitString(");
            out.num(*u as u64);
            out.put(",");
            out.hex(d.data);
            out.put(")");
        }
        C::GeneralizedTime(t) => out.quoted("GeneralizedTime", &format!("{}", t), true),
        C::UTCTime(t) => out.quoted("UTCTime", &format!("{}", t), true),
        C::VisibleString(s) => out.quoted("VisibleString", s, true),
        C::GeneralString(s) => out.quoted("GeneralString", s, true),
        C::GraphicString(s) => out.quoted("GraphicString", s, true),
        C::PrintableString(s) => out.quoted("PrintableString", s, true),
        C::NumericString(s) => out.quoted("NumericString", s, true),
        C::UTF8String(s) => out.quoted("UTF8String", s, true),
        C::IA5String(s) => out.quoted("IA5String", s, true),
        C::T61String(s) => out.quoted("T61String", s, false),
        C::VideotexString(s) => out.quoted("VideotexString", s, false),
        C::ObjectDescriptor(s) => out.quoted("ObjectDescriptor", s, true),
        C::BmpString(d) => match utf16(d) {
            Some(s) => {
                out.quoted("BmpString", &s, true);
                out.put("\n");
            }
            None => {
                out.put("BmpString(");
                out.open = true;
            }
        },
        C::UniversalString(d) => match utf32(d) {
            Some(s) => {
                out.quoted("UniversalString", &s, true);
                out.put("\n");
            }
            None => {
                out.put("UniversalString(");
                out.open = true;
            }
        },
        C::Optional(None) => out.put("NONE"),
        C::Optional(Some(_)) => {
            out.put("OPTION ");
            out.open = true;
        }
        C::Tagged(c, t, x) => {
            out.put(&format!("ContextSpecific [{} ", c));
            out.num(t.0 as u64);
            out.put("] {\n");
            expect(x, ind + inc, inc, rec, head, out);
            out.pad(ind);
            out.put("}");
        }
        C::Sequence(v) | C::Set(v) => {
            out.put(if let C::Sequence(_) = o.content { "Sequence" } else { "Set" });
            if rec {
                out.put("[\n");
                let mut i = 0;
                while i < v.len() {
                    expect(&v[i], ind + inc, inc, rec, head, out);
                    i += 1;
                }
                out.pad(ind);
                out.put("]");
            }
        }
        C::Unknown(a) => {
            out.put("Unknown ");
            out.hex(a.data);
        }
    }
}

fn check(p: &PrettyBer, o: &BerObject, ind: usize, inc: usize, rec: bool, head: bool) {
    let text = format!("{:?}", p);
    let t = text.as_bytes();
    let mut out = Out { s: vec![], open: false };
    expect(o, ind, inc, rec, head, &mut out);
    observe(t.len() as u64);
    reach(if out.open { 2 } else { 1 });
    ck!(if out.open { t.len() >= out.s.len() } else { t.len() == out.s.len() });
    ck!(t[..out.s.len()] == out.s[..]);
}

/// The parameter, or any value below n when it is END (one path each).
fn small(p: u64, n: usize) -> usize {
    if p != END {
        return p as usize;
    }
    let x = any_u8() as usize;
    let mut i = 0;
    while i < n - 1 && i != x {
        i += 1;
    }
    i
}

/// params: indent, increment (END: any small one), flags (bit 0 recursive, bit 1 header), source as in c16; input
pub fn c21_text() {
    let ind = small(param(0), 6);
    let inc = small(param(1), 4);
    let flags = param(2);
    let src = param(3);
    let b = input(4);
    let o = if src == END {
        match parse_ber(&b) {
            Ok((_, o)) => o,
            Err(_) => return,
        }
    } else {
        tree(src >> 8, src & 0xff, &b)
    };
    let mut p = o.as_pretty(ind, inc);
    ck!(p.is_flag_set(PrettyPrinterFlag::Recursive) && !p.is_flag_set(PrettyPrinterFlag::ShowHeader));
    if flags & 1 == 0 {
        p.unset_flag(PrettyPrinterFlag::Recursive);
    }
    if flags & 2 != 0 {
        p.set_flag(PrettyPrinterFlag::ShowHeader);
    }
    check(&p, &o, ind, inc, flags & 1 != 0, flags & 2 != 0);
    if src != END {
        // printing a part of the tree on its own
        if let Ok(v) = o.as_sequence() {
            if let Some(x) = v.last() {
                check(&p.next_indent(x), x, ind + inc, inc, flags & 1 != 0, flags & 2 != 0);
            }
        }
    }
}

/// one object of a kind.  params: kind, flags; input
pub fn c21_kind() {
    let k = param(0);
    let flags = param(1);
    let b = input(2);
    let mut o = BerObject::from_obj(build(k, &b));
    if flags & 4 != 0 {
        // any header
        let c = any_u8();
        let class = Class::try_from(c & 3).unwrap();
        let len = any_u8() as usize;
        // some tag numbers and lengths are spread over the whole range
        let tag = match c >> 3 {
            31 => Tag(0xffff_ffff),
            30 => Tag(0x1_0001),
            29 => Tag(1000),
            28 => Tag(0x8000_0000),
            27 => Tag(127),
            26 => Tag(128),
            t => Tag(t as u32),
        };
        let len = match len {
            0 => Length::Indefinite,
            255 => Length::Definite(usize::MAX),
            254 => Length::Definite(0x1_0000),
            253 => Length::Definite(0x1_0000_0000),
            n => Length::Definite(n),
        };
        o.header = Header::new(class, c & 4 != 0, tag, len);
    }
    let mut f = vec![];
    if flags & 1 != 0 {
        f.push(PrettyPrinterFlag::Recursive);
    }
    if flags & 2 != 0 {
        f.push(PrettyPrinterFlag::ShowHeader);
    }
    let (ind, inc) = if flags & 8 != 0 { (small(END, 6), small(END, 4)) } else { (3, 2) };
    let p = PrettyBer::new(&o, f, ind, inc);
    check(&p, &o, ind, inc, flags & 1 != 0, flags & 2 != 0);
}

/// flags behave as a set.  params: operations
pub fn c21_flags() {
    let n = param(0);
    let fl = [PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader];
    let o = BerObject::from_int_slice(&[5]);
    let first = any_u8();
    let mut init = vec![];
    let mut st = [false; 2];
    let mut i = 0;
    while i < (first & 3) as usize {
        let w = ((first >> (2 + i)) & 1) as usize;
        init.push(fl[w]);
        st[w] = true;
        i += 1;
    }
    let mut p = PrettyBer::new(&o, init, 0, 1);
    let mut i = 0;
    while i < n {
        let op = any_u8() & 7;
        let w = (op & 1) as usize;
        match op >> 1 {
            0 => {
                p.set_flag(fl[w]);
                st[w] = true;
            }
            1 => {
                p.unset_flag(fl[w]);
                st[w] = false;
            }
            _ => p = p.next_indent(&o),
        }
        ck!(p.is_flag_set(fl[0]) == st[0]);
        ck!(p.is_flag_set(fl[1]) == st[1]);
        i += 1;
    }
    reach(1);
    observe(st[0] as u64 * 2 + st[1] as u64);
}
