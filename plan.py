"""What is explored for each property: harness entry points, input templates, bounds."""
WORKERS = 8
BUDGET = {"quick": 800, "thorough": 3 * 3600}
SAMPLES = {"quick": 12, "thorough": 40}
VALIDATE = {"quick": 2000, "thorough": 10000}
Z3_ONLY_THOROUGH = False
END = (1 << 64) - 1

ASSUMPTIONS = [
    "LLVM IR produced by rustc (opt-level 1, fat LTO, overflow checks and debug assertions on) is what is executed; counterexamples and path samples are replayed natively in a debug and an optimised build",
    "the symbolic executor (/verif/symex) and Z3 4.8.12 are trusted; cross-validated on path samples of every run",
    "memory allocation never fails; 64-bit little-endian target; features bigint, serialize, as_bitvec, std enabled",
    "dependencies (asn1-rs, nom, cookie-factory, num-bigint, bitvec, std) are executed, not stubbed, at the versions in the cargo cache",
]
BOUNDS_NOTE = {}


def S(n):
    """n symbolic bytes"""
    return [(n << 40) | (1 << 32)] if n else []


def C(*bs):
    """concrete bytes"""
    out = []
    for b in bs:
        out.append((1 << 40) | b)
    return out


def F(b, n):
    """n times the concrete byte b"""
    return [(n << 40) | b] if n else []


def M(mask, val, n=1):
    """n symbolic bytes with byte & mask == val"""
    return [(n << 40) | (2 << 32) | (mask << 8) | val]


def K(t, v):
    """the template with its symbolic bytes made concrete"""
    return [w if (w >> 32) & 0xff == 0 else (w >> 40 << 40) | v for w in t]


def L(n):
    """minimal definite length octets"""
    if n < 128:
        return C(n)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return C(0x80 | len(b), *b)


def size(t):
    return sum(w >> 40 for w in t)


def syms(t):
    return sum(w >> 40 for w in t if (w >> 32) & 0xff)


class P:
    def __init__(self):
        self.l = []

    def add(self, name, entry, pre, tmpl, bounds=None, shards=1, weight=1.0, timeout=700, reach=()):
        self.l.append(dict(name=name, entry=entry, params=list(pre) + list(tmpl), shards=shards, weight=weight, timeout=timeout,
                           reach=list(reach), bounds=bounds or "input of %d bytes, %d of them symbolic" % (size(tmpl), syms(tmpl))))


def TLV(tag, body):
    """tag octet(s) + minimal definite length + body"""
    t = tag if isinstance(tag, (list, tuple)) else (tag,)
    return C(*t) + L(size(body)) + body


def ANY(n):
    """all inputs of n bytes, split on the first byte for balance: (suffix, template, shards)"""
    if n < 6:
        return [("", S(n), 1)]
    out = [("/p%02x" % v, M(0xe0, v) + S(n - 1), 1) for v in (0x00, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0)]
    out.append(("/p20", M(0xf0, 0x20) + S(n - 1), 1))
    out += [("/p%02x" % v, C(v) + S(n - 1), 16 if n < 7 else 64) for v in (0x30, 0x31)]
    out += [("/p32", M(0xfe, 0x32) + S(n - 1), 1), ("/p34", M(0xfc, 0x34) + S(n - 1), 1), ("/p38", M(0xf8, 0x38) + S(n - 1), 1)]
    return out


# universal tag numbers, and for each the content sizes explored in full
TAGS = [0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30]
UNKNOWN = [8, 9, 11, 14, 15, 29]
BIG = [126, 127, 128, 129, 255, 256, 257]
HUGE = [65535, 65536]
UTC = b"991231235959Z"
GEN = b"20231231235959.123Z"


def ident(t):
    return t | 0x20 if t in (16, 17) else t


def typed_family(th):
    """(name, template): one element of each universal type with longer symbolic content"""
    out = []
    for t in TAGS + UNKNOWN:
        i = ident(t)
        ks = [5, 8] if t not in (16, 17) else [4]
        if t in (23, 24):
            ks = []
        if t in (12,):
            ks = [4, 5]
        if t in (18, 19, 20, 21, 26, 7, 22, 25, 27):
            ks = [3, 7]
        if th:
            ks = ks + [k + 3 for k in ks[-1:]]
        for k in ks:
            out.append(("t%d/k%d" % (t, k), TLV(i, S(k)) + S(1)))
    # long contents, arbitrary at both ends and in the middle
    for t in (2, 3, 4, 6, 7, 12, 13, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30):
        for k in (18, 40, 67, 130, 260, 1001) + ((65, 66, 1000, 4100) if th else ()):
            if k > 500 and t not in (4, 3, 12, 2, 30, 28) and not th:
                continue
            h = k // 2 - 1
            out.append(("t%d/wide%d" % (t, k), TLV(t, S(1) + F(0x31, h - 1) + S(1) + F(0x31, k - h - 2) + S(1)) + S(1)))
    for k in (10, 11, 12, 13, 15, 17) + ((16, 19) if th else ()):
        out.append(("t23/k%d" % k, TLV(23, S(k)) + S(1)))
    for k in (10, 12, 13, 14, 15, 16, 17, 18, 19) + ((20, 23) if th else ()):
        out.append(("t24/k%d" % k, TLV(24, S(k))))
    # times followed by other data
    out.append(("t23/rest", TLV(23, C(*UTC[:-1]) + S(1)) + S(2)))
    out.append(("t24/rest", TLV(24, C(*GEN[:14]) + S(1)) + S(2)))
    out.append(("t24/rest0", TLV(24, C(*GEN[:14])) + S(2)))
    return out


def anylen_family(th):
    """every length of up to 16 bits (2-octet and 3-octet length fields), with all and with one too few octets present"""
    out = []
    for t in (4, 2, 0x85, 0x30, 0x1c, 0xbf):
        x = C(0x87, 0x01) if t == 0xbf else []
        for m in (300, 66000):
            out.append(("anylen/t%x/%d" % (t, m), C(t) + x + C(0x82) + S(2) + F(0x31, m)))
        out.append(("anylen3/t%x" % t, C(t) + x + C(0x83) + S(3) + F(0x31, 70000)))
    for t in (6, 12, 19, 27, 3, 18, 22, 26, 28):
        out.append(("anylen/t%x" % t, C(t, 0x82) + S(2) + F(0x31, 130 if not th else 300)))
    # any class and form
    for m in (130, 300, 66000):
        out.append(("anylen/class/%d" % m, M(0x1f, 5) + C(0x82) + S(2) + F(0x31, m)))
    out.append(("anylen/class/high", M(0x1f, 0x1f) + C(0x87, 0x01, 0x82) + S(2) + F(0x31, 130)))
    return out


def hightag(x, n):
    """identifier octets with a tag number in n octets of 7 bits (form and class bits: x, mask 0x3f)"""
    return M(0x3f, x | 0x1f) + (M(0x80, 0x80, n - 1) if n > 1 else []) + M(0x80, 0)


def long_family(th):
    """lengths around the boundaries of the length forms, everywhere symbolic at both ends"""
    out = []
    for n in BIG + (HUGE if th else [65536]):
        for t in (4, 12, 0x30, 0x85):
            body = S(2) + F(0x41, n - 4) + S(2) if t not in (0x30, 12) else (F(0x41, n - 1) + M(0x80, 0) if t == 12 else TLV(4, F(0x41, n - 2 - len(L(n)) - 1) + S(1)))
            if t == 0x30:
                body = TLV(4, F(0x41, n // 2) + S(1)) + TLV(4, F(0x42, n // 3) + S(1))
            out.append(("len%d/t%x" % (n, t), TLV(t, body) + S(1)))
            if th or n in (127, 128, 256):
                # one octet missing
                out.append(("len%d/t%x/cut" % (n, t), (TLV(t, body))[:-1]))
    return out


def nest_family(th):
    """several children, nested containers"""
    out = []
    for o in (0x30, 0x31):
        out.append(("two/%x" % o, TLV(o, TLV(2, S(2)) + TLV(1, S(1)) + S(2))))
        out.append(("nest/%x" % o, TLV(o, TLV(0x30, TLV(0x31, S(3))) + S(2))))
        out.append(("mix/%x" % o, TLV(o, TLV(3, S(2)) + TLV(0x30, TLV(2, S(2)) + TLV(5, [])) + TLV(10, S(1)))))
        out.append(("many/%x" % o, TLV(o, sum([TLV(1, S(1)) for _ in range(6)], []))))
        # many children, deep chains
        for n in (17, 40, 70, 130, 260, 1030) + ((4100,) if th else ()):
            out.append(("many%d/%x" % (n, o), TLV(o, TLV(1, S(1)) + C(5, 0) * (n // 2) + TLV(2, S(2)) + C(5, 0) * (n - n // 2 - 3) + TLV(1, S(1)))))
        for n in (4, 8, 16, 32, 44):
            out.append(("deep%d/%x" % (n, o), chain(n // 2, chain(n - n // 2, S(3), 0x61 - o))))
        # members of different types, in no order of their tags
        out.append(("alt/%x" % o, TLV(o, C(12, 0, 5, 0, 4, 0) * 6 + TLV(12, S(1)) + C(0x31, 0, 1, 1, 0xff, 0x30, 0) * 2 + TLV(2, S(1)))))
    return out


def wide_family(th):
    """tag numbers of several octets that end like a known universal one"""
    out = []
    for x in (0x1f, 0x3f):
        for k in (1, 2, 3, 4):
            out.append(("wide%d/%x" % (k, x), C(x) + M(0xf0, 0x80) + C(0x80) * (k - 1) + M(0x80, 0) + C(1) + S(1)))
            if k == 4:
                out.append(("wide%d/%x/in" % (k, x), TLV(0x30, C(x) + M(0xf0, 0x80) + C(0x80) * (k - 1) + M(0x80, 0) + C(1) + S(1))))
    return out


def deep_family(th):
    """chains around the default limit"""
    out = []
    for o in (0x30, 0x31):
        for k in (47, 48, 49, 50, 51, 52):
            out.append(("chain%d/%x" % (k, o), TLV(o, chain(k - 1, S(2), 0x61 - o))))
            out.append(("chain%d/%x/first" % (k, o), chain(k, TLV(1, S(1)) + S(2), o)))
        for k in (46, 48, 49):
            out.append(("chain%d/%x/indef" % (k, o), C(*([o, 0x80] * k)) + S(2) + F(0, 2 * k)))
    return out


def c01(p, th):
    for w in [0, 1]:
        for n in range(0, 6 if th else 5):
            p.add("any%d/n%d" % (w, n), "c01_all", [w], S(n), shards=8 if n >= 5 else 1, weight=10.0 ** (n - 4))
        for nm, t in typed_family(th) + nest_family(th):
            p.add("any%d/%s" % (w, nm), "c01_all", [w], t, weight=1)
        for nm, t in anylen_family(th):
            p.add("any%d/%s" % (w, nm), "c01_all", [w], t, weight=1)
    for i in range(len(TAGS)):
        for w in (2 + i, 100 + i):
            p.add("typed%d" % w, "c01_all", [w], S(5), weight=0.5)
            p.add("typed%d/in" % w, "c01_all", [w], C(ident(TAGS[i])) + S(6 if th else 5), weight=2)
    for w in range(50, 58):
        p.add("int%d" % w, "c01_all", [w], S(6), weight=0.5)
        p.add("int%d/in" % w, "c01_all", [w], C(2) + S(10), weight=2)
    for w in (58, 59, 60, 63, 64):
        p.add("misc%d" % w, "c01_all", [w], S(5), weight=2)
    for w in range(70, 82):
        for n in range(0, 5 if th else 4):
            p.add("use%d/n%d" % (w, n), "c01_all", [w], S(n), weight=10.0 ** (n - 3))
        own = {71: C(0x31), 73: C(0x31), 74: M(0x3f, 0x20), 75: M(0x3f, 0x20), 76: M(0x1f, 3), 77: M(0x1f, 3), 79: M(0x3f, 0x20)}.get(w, C(0x30))
        p.add("use%d/own" % w, "c01_all", [w], own + S(4), weight=2)
        if w not in (76, 77):
            p.add("use%d/anylen" % w, "c01_all", [w], own + C(0x82) + S(2) + F(0x31, 300), weight=2)
        for k in (1, 2, 3, 48, 49, 50, 51):
            p.add("use%d/chain%d" % (w, k), "c01_all", [w], own + L(size(chain(k, S(2)))) + chain(k, S(2)), weight=2)
    for w in (80, 81):
        for nm, t in nest_family(th):
            if syms(t) < 5:
                p.add("use%d/%s" % (w, nm), "c01_all", [w], t, weight=2)
        for t in TAGS:
            if t not in (16, 17):
                p.add("use%d/t%d" % (w, t), "c01_all", [w], TLV(ident(t), S(3)) + S(1), weight=2)
                if t not in (23, 24):
                    p.add("use%d/t%d/wide" % (w, t), "c01_all", [w], TLV(ident(t), S(1) + F(0x31, 150) + S(1)) + S(1), weight=2)
    for w in (61, 62):
        for n in range(0, 5 if th else 4):
            p.add("content%d/n%d" % (w, n), "c01_all", [w], S(n), weight=10.0 ** (n - 3), shards=8 if n >= 4 else 1)


def c02(p, th):
    for w in (0, 1):
        for n in range(0, 6):
            p.add("span%d/n%d" % (w, n), "c02_span", [w], S(n), shards=8 if n >= 5 else 1, weight=10.0 ** (n - 4))
    for i in range(len(TAGS)):
        for w in (2 + i, 100 + i):
            p.add("typed%d" % w, "c02_span", [w], C(ident(TAGS[i])) + S(4), weight=1)
    for nm, t in typed_family(th) + nest_family(th) + wide_family(th):
        if size(t) < 150 and syms(t) < 6 or th:
            for w in (0, 1):
                p.add("span%d/%s" % (w, nm), "c02_span", [w], t, weight=2)
    for nm, t in anylen_family(th):
        if (size(t) < 1000 or th):
            for w in (0, 1):
                p.add("span%d/%s" % (w, nm), "c02_span", [w], t, weight=2)
    # typed parsers on long contents (cut near both ends)
    for i, t in enumerate(TAGS):
        if t in (0, 1, 5, 10, 23, 24):
            continue
        for n in (130, 200, 300, 66000):
            if t in (16, 17):
                body = TLV(4, F(0x31, n // 2)) + TLV(4, S(1) + F(0x31, n - n // 2 - 12)) + TLV(2, S(1))
            else:
                body = C(0) + F(0x30, n - 2) + M(0x8f if t in (12, 30, 28) else 0, 0x30) if t == 3 else C(0x31) + F(0x30, n - 2) + M(0xf0, 0x30)
            for w in (2 + i, 100 + i) + ((0, 1) if n == 66000 else ()):
                p.add("span%d/long%d/t%d" % (w, n, t), "c02_span", [w], TLV(ident(t), body) + S(1), weight=1, reach=[1])
    for t in (0x30, 0x31, 0xa0, 0x24):
        p.add("span0/indef/%x" % t, "c02_span", [0], C(t, 0x80) + S(3), weight=2)
        p.add("span0/indef2/%x" % t, "c02_span", [0], C(t, 0x80) + TLV(4, F(1, 200)) + TLV(2, S(1)) + C(0, 0) + S(2), weight=2)


def c03(p, th):
    for der in (0, 1):
        for n in list(range(0, 17)) + ([24, 32] if th else []):
            p.add("hdr%d/n%d" % (der, n), "c03_hdr", [der], S(n), reach=[1] if n >= 2 else [4])


def c04(p, th):
    for n in range(0, 7 if not th else 8):
        for x, t, sh in ANY(n):
            p.add("ber/n%d%s" % (n, x), "c04_ber", [], t, shards=sh, weight=10.0 ** (n - 4), reach=[2, 7] if n >= 2 and x in ("", "/p30", "/p31", "/p00") else [])
    for nm, t in typed_family(th) + long_family(th) + nest_family(th) + anylen_family(th) + deep_family(th) + wide_family(th):
        p.add("ber/" + nm, "c04_ber", [], t, weight=1)


def c05(p, th):
    for n in range(0, 7 if not th else 8):
        for x, t, sh in ANY(n):
            p.add("der/n%d%s" % (n, x), "c05_der", [], t, shards=sh, weight=10.0 ** (n - 4), reach=[2, 7] if n >= 2 and x in ("", "/p30", "/p31", "/p00") else [])
    for nm, t in typed_family(th) + long_family(th) + nest_family(th) + anylen_family(th) + deep_family(th) + wide_family(th):
        p.add("der/" + nm, "c05_der", [], t, weight=1)
    # long bit strings: padding at the end, alone and as a member
    for n in (255, 256, 257, 300, 4097, 65536, 65537, 65538, 70000):
        bits = C(3) + L(n) + S(1) + F(0, n - 3) + S(2)
        p.add("der/bits%d" % n, "c05_der", [], bits + S(1), weight=1, reach=[2])
        p.add("der/bits%d/seq" % n, "c05_der", [], C(0x31) + L(size(bits)) + bits, weight=1)


def chain(k, body, tag=0x30):
    for _ in range(k):
        body = TLV(tag, body)
    return body


def c06(p, th):
    for der in (0, 1):
        for k in (0, 1, 2, 3):
            p.add("depth%d/chain%d" % (der, k), "c06_depth", [der, END], chain(k, S(3)), weight=3)
        for k in (100, 127):
            for lim in (99, 100, 101, 127, 128, 200, END):
                p.add("depth%d/chain%d/lim%s" % (der, k, "sym" if lim == END else lim), "c06_depth", [der, lim], chain(k, S(2)), weight=3)
        for k in (47, 48, 49, 50, 51, 60):
            for lim in (50, 49, 51, END):
                p.add("depth%d/chain%d/lim%s" % (der, k, "sym" if lim == END else lim), "c06_depth", [der, lim], chain(k, S(2), 0x31), weight=3)
        for n in range(0, 5):
            p.add("depth%d/n%d" % (der, n), "c06_depth", [der, END], S(n), weight=10.0 ** (n - 3))
        for tag in TAGS:
            for cons in (0, 1):
                for fn in range(3):
                    p.add("content%d/t%d/%d/f%d" % (der, tag, cons, fn), "c06_content", [der, tag, cons, END, fn], S(3), weight=1)
        for tag in (16, 17):
            for k in (1, 2, 3, 47, 48, 49, 50, 51, 100):
                for fn in range(3):
                    p.add("content%d/t%d/chain%d/f%d" % (der, tag, k, fn), "c06_content", [der, tag, 1, END, fn], chain(k, S(2)), weight=2)


M4 = {300: 2, 66000: 4}


def c09(p, th):
    for n in range(2, 7):
        p.add("container/n%d" % n, "c09_indef", [0], C(0x30, 0x80) + S(n), weight=10.0 ** (n - 5), shards=8 if n > 5 else 1)
    for t in (0x30, 0x31):
        for n in range(2, 6 if not th else 7):
            p.add("typed%x/n%d" % (t, n), "c09_indef", [1], C(t, 0x80) + S(n), weight=10.0 ** (n - 5), shards=8 if n > 5 else 1)
        for n in (4, 5):
            p.add("typed%x/nest/n%d" % (t, n), "c09_indef", [1], C(t, 0x80, 0x30, 0x80) + S(n), weight=1)
            p.add("typed%x/nest2/n%d" % (t, n), "c09_indef", [1], C(t, 0x80) + TLV(2, S(1)) + C(0xa0, 0x80) + S(n), weight=1)
        for n in (2, 4):
            p.add("typed%x/long/n%d" % (t, n), "c09_indef", [1], C(t, 0x80) + TLV(4, F(0, 130)) + S(n), weight=1)
            p.add("container%x/long/n%d" % (t, n), "c09_indef", [0], C(t, 0x80) + TLV(4, F(0, 130)) + S(n), weight=1)
        for fill in (300, 66000):
            for w in (0, 1, 2):
                p.add("long%d/%x/%d" % (fill, t, w), "c09_indef", [w], C(t, 0x80) + TLV(4, F(0, fill)) + TLV(M4[fill], S(1)) + S(3), weight=2)
        for n in (40, 300, 1030):
            for w in (0, 1, 2):
                p.add("many%d/%x/%d" % (n, t, w), "c09_indef", [w], C(t, 0x80) + C(5, 0) * n + TLV(2, S(1)) + S(3), weight=2)
    # members ending in zeros close to the end of long content
    for nm, t in (("zeros/inner", C(0x24, 0x80) + TLV(4, F(7, 300)) + C(0x30, 0x80) + TLV(2, S(1)) + F(0, 4) + S(1)),
                  ("zeros/outer", C(0x30, 0x80) + TLV(4, F(7, 300)) + C(0x31, 0x80) + TLV(2, S(1)) + F(0, 4) + S(1)),
                  ("zeros/prim", C(0x30, 0x80) + TLV(4, F(0, 300)) + C(0, 0) + S(1)),
                  ("zeros/last", C(0x31, 0x80) + TLV(4, F(7, 300)) + TLV(4, S(4)) + F(0, 2) + S(1)),
                  ("zeros/long", C(0x30, 0x80) + TLV(4, F(7, 66000)) + TLV(4, S(4)) + F(0, 2) + S(1)),
                  ("zeros/short", C(0x30, 0x80) + TLV(4, S(4)) + F(0, 2) + S(1))):
        for w in (0, 1, 2):
            p.add("%s/%d" % (nm, w), "c09_indef", [w], t, weight=1)
    # an element of any kind followed by much more
    for fill in (300, 1000) if th else (300,):
        for w in (0, 1, 2):
            p.add("ahead%d/%d" % (fill, w), "c09_indef", [w], C(0x30, 0x80) + S(1) + C(0) + TLV(4, S(1)) + F(0, 2) + F(5, fill), weight=1)
            p.add("ahead%d/%d/cons" % (fill, w), "c09_indef", [w], C(0x31, 0x80) + S(1) + TLV(2, S(1))[1:] + F(0, 2) + F(5, fill), weight=1)
    for n in (2, 3, 4):
        p.add("class/n%d" % n, "c09_indef", [0], M(0x20, 0x20) + C(0x80) + TLV(2, S(1)) + S(n), weight=1)
        p.add("class2/n%d" % n, "c09_indef", [2], M(0x20, 0x20) + C(0x80) + TLV(2, S(1)) + M(0x20, 0x20) + C(0x80) + S(n), weight=1)
    for n in (1, 2, 3):
        p.add("high%d" % n, "c09_indef", [2], hightag(0x20, n) + C(0x80) + TLV(2, S(1)) + S(3), weight=1)
    # deep nesting of indefinite lengths
    for k in (10, 46, 47, 48, 49, 50, 51):
        for w in (0, 2):
            p.add("chain%d/%d" % (w, k), "c09_indef", [w], C(*([0x30, 0x80] * k)) + C(4, 1) + S(1) + F(0, 2 * k - 1) + S(1), weight=3)
    for n in range(2, 6 if not th else 7):
        p.add("ber/n%d" % n, "c09_indef", [2], M(0x20, 0x20) + C(0x80) + S(n), weight=10.0 ** (n - 4), shards=8 if n > 4 else 1)
        for w in (3, 4):
            p.add("content%d/n%d" % (w, n), "c09_indef", [w], S(n), weight=10.0 ** (n - 5), shards=8 if n > 5 else 1)
            p.add("content%d/tlv/n%d" % (w, n), "c09_indef", [w], TLV(2, S(1)) + S(n), weight=10.0 ** (n - 5), shards=8 if n > 5 else 1)


def c15(p, th):
    for i, t in enumerate(TAGS):
        for der in (0, 1):
            p.add("typed%d/t%d/any" % (der, t), "c15_typed", [i, der], S(3), weight=0.3)
            p.add("typed%d/t%d/own" % (der, t), "c15_typed", [i, der], C(ident(t)) + S(5 if t not in (16, 17) else 4), weight=2)
            p.add("typed%d/t%d/cls" % (der, t), "c15_typed", [i, der], M(0x1f, t) + S(3), weight=1)
    for der in (0, 1):
        for t in TAGS + UNKNOWN + [31, 127, 128, 200, 16384, 1 << 28]:
            own = C(ident(t)) if t < 31 else hightag(0, 1 + (t > 127) + (t > 16383) + 2 * (t > 1 << 21))
            p.add("with%d/t%d/any" % (der, t), "c15_typed", [1000 + t, der], S(3), weight=0.3)
            p.add("with%d/t%d/own" % (der, t), "c15_typed", [1000 + t, der], own + S(3), weight=1)
            p.add("with%d/t%d/wide" % (der, t), "c15_typed", [1000 + t, der], own + L(260) + S(1) + F(0x31, 258) + S(1), weight=1)
        for n in range(0, 5):
            p.add("with%d/sym/n%d" % (der, n), "c15_typed", [END, der], S(n), weight=1)
        for n in range(1, 5):
            p.add("with%d/sym/high%d" % (der, n), "c15_typed", [END, der], hightag(0, n) + S(2), weight=1)
        for i, t in enumerate(TAGS):
            for nm, tm in typed_family(th):
                if nm.startswith("t%d/" % t) and (t not in (23, 24) or "rest" in nm or "k13" in nm or "k15" in nm):
                    p.add("typed%d/%s" % (der, nm), "c15_typed", [i, der], tm, weight=1)
        for nm, t in deep_family(th):
            p.add("deep%d/%s" % (der, nm), "c15_typed", [TAGS.index(17 if "/31" in nm else 16), der], t, weight=1)
            p.add("deepw%d/%s" % (der, nm), "c15_typed", [1017 if "/31" in nm else 1016, der], t, weight=1)
    for n in range(0, 6):
        p.add("derber/n%d" % n, "c15_derber", [], S(n), weight=10.0 ** (n - 4), shards=8 if n > 4 else 1)
    for nm, t in nest_family(th) + wide_family(th):
        p.add("derber/" + nm, "c15_derber", [], t)
        for der in (0, 1):
            if nm.startswith("alt") or nm.startswith("many"):
                p.add("typed%d/%s" % (der, nm), "c15_typed", [TAGS.index(17 if nm.endswith("31") else 16), der], t, weight=1)
    for nm, t in anylen_family(th):
        if size(t) < 1000 or "/t30" in nm:
            p.add("derber/" + nm, "c15_derber", [], t)


NKIND = 37
CONT = (18, 19, 29, 30, 36)
NUMK = 6  # content octets given to built objects


def c07(p, th):
    for n in list(range(0, 13)) + [16, 17, 33] + ([24, 65, 120] if th else []):
        p.add("acc/n%d" % n, "c07_acc", [], S(n), weight=n, reach=[1, 2] if n > 0 else [1])
    for z in (9, 20, 200, 300, 600, 5000):
        p.add("acc/zeros%d" % z, "c07_acc", [], F(0, z) + S(9), weight=5, reach=[1, 2])
        p.add("acc/ones%d" % z, "c07_acc", [], F(0xff, z) + S(8), weight=5, reach=[2])
    for n in (0, 1, 2, 3, 7, 8, 9) + ((16, 17) if th else ()):
        p.add("big/n%d" % n, "c07_big", [], S(n), weight=2 * n, reach=[1, 2] if n > 0 else [2])
    p.add("big/long", "c07_big", [], S(2) + F(0x5a, 20) + S(1), weight=5)
    for n in (64, 130, 260, 520, 1030) + ((4100,) if th else ()):
        p.add("big/long%d" % n, "c07_big", [], S(2) + F(0x5a, n - 3) + S(1), weight=5)
        p.add("big/zeros%d" % n, "c07_big", [], F(0, n - 3) + S(3), weight=5)
        p.add("big/ones%d" % n, "c07_big", [], F(0xff, n - 3) + S(3), weight=5)
    for w in range(8):
        p.add("parse%d/any" % w, "c07_parse", [w], S(5), weight=2, reach=[1, 3])
        p.add("parse%d/int" % w, "c07_parse", [w], C(2) + S(6), weight=2, reach=[1])
        for n in range(0, 11):
            p.add("parse%d/len%d" % (w, n), "c07_parse", [w], TLV(2, S(n)) + S(1), weight=1)


def c08(p, th):
    for n in list(range(1, 12)) + ([16, 20] if th else []):
        p.add("bits/n%d" % n, "c08_bits", [], S(n), weight=n)
    for u in (0, 1, 7, 8, 9, 63, 64, 130, 255):
        p.add("bits/long/u%d" % u, "c08_bits", [], C(u) + S(1) + F(0xa5, 14) + S(1), weight=3)
    p.add("bits/long300", "c08_bits", [], S(3) + F(0xa5, 140) + S(1) + F(0x3c, 158) + S(1), weight=3)
    for n in (256, 300, 4096, 8192, 9000, 65535, 65536, 70000):
        t = S(2) + F(0xa5, 127) + S(1) + F(0x3c, n - 131) + S(2)
        for b in (0, 8 * 100, 8 * 128 - 16, 8 * (n - 3) - 8, 8 * n - 16):
            p.add("long%d/bit%d" % (n, b), "c08_long", [b], t, weight=2, reach=[1])
    p.add("bits/long33", "c08_bits", [], S(1) + S(2) + F(0xa5, 30), weight=3)
    for der in (0, 1):
        for n in range(1, 6):
            p.add("parse%d/n%d" % (der, n), "c08_parse", [der], C(3) + S(n), weight=n)
        for n in (8, 9, 10):
            p.add("parse%d/len%d" % (der, n), "c08_parse", [der], TLV(3, S(n)), weight=n)


def c16(p, th):
    for m in range(6):
        for n in range(2, 5 if not th else 6):
            p.add("visit%d/n%d" % (m, n), "c16_visit", [m, END], S(n), weight=10.0 ** (n - 3), reach=[1])
        for t in (0x30, 0x31):
            p.add("visit%d/%x" % (m, t), "c16_visit", [m, END], C(t) + S(4), weight=5, reach=[1])
        for nm, t in nest_family(th):
            p.add("visit%d/%s" % (m, nm), "c16_visit", [m, END], t, weight=2, reach=[1])
        for a in range(0, NKIND):
            p.add("visit%d/kind%d" % (m, a), "c16_visit", [m, a << 8 | (a + 1)], M(0x80, 0, 3), weight=0.3, reach=[1])
        p.add("visit%d/all" % m, "c16_visit", [m, NKIND], M(0x80, 0, 2), weight=0.3, reach=[1])


def c17(p, th):
    for n in range(2, 6):
        p.add("parsed/n%d" % n, "c17_iter", [END], S(n), weight=10.0 ** (n - 3), reach=[1, 2, 4])
    for nm, t in nest_family(th):
        p.add("parsed/%s" % nm, "c17_iter", [END], t, weight=2, reach=[1, 3, 4])
    for k in range(NKIND):
        p.add("kind%d" % k, "c17_iter", [k], M(0x80, 0, 3), weight=0.3, reach=[1, 3, 4] if k in (18, 19, 36) else [1, 4] if k in CONT else [2, 4])


def c18(p, th):
    for k in range(NKIND):
        for n in (0, 1, 3, 8):
            t = M(0x80, 0, n) if n and 9 <= k <= 15 or 22 <= k <= 24 else S(n)
            p.add("kind%d/n%d" % (k, n), "c18_access", [k], t, weight=0.3, reach=[1])


def c19(p, th):
    for n in range(0, 6 if not th else 7):
        for x, t, sh in ANY(n):
            p.add("any/n%d%s" % (n, x), "c19_any", [], t, shards=sh, weight=10.0 ** (n - 3))
    for nm, t in typed_family(th) + nest_family(th) + deep_family(th) + wide_family(th):
        p.add("any/" + nm, "c19_any", [], t)
    for nm, t in anylen_family(th):
        p.add("any/" + nm, "c19_any", [], t)
    for t in (0x30, 0x31, 0x24, 0x23, 0x2c):
        p.add("any/indef/%x" % t, "c19_any", [], C(t, 0x80) + S(4), weight=3)


def c10(p, th):
    for w in range(4):
        t = (0x30, 0x31, 0x30, 0x31)[w]
        for it in ((0, 2, 5) if w < 2 else (1, 3, 4)):
            for v in (0, 1):
                nm = "of%d/item%d/%s" % (w, it, "vec" if v else "obj")
                p.add(nm + "/any", "c10_of", [w, it, v], S(4), weight=1, reach=[2])
                p.add(nm + "/own", "c10_of", [w, it, v], C(t) + S(5 if it in (0, 1, 4, 5) else 4), weight=3, reach=[1, 2])
                body = {0: TLV(2, S(1)) * 2, 1: TLV(2, S(1)) * 2, 2: TLV(2, S(1)) + TLV(0x30, TLV(1, S(1))), 3: TLV(2, S(1)) + TLV(0x30, TLV(1, S(1))),
                        4: TLV(1, S(1)) * 3, 5: TLV(4, S(2)) * 3}[it]
                p.add(nm + "/multi", "c10_of", [w, it, v], TLV(t, body) + S(1), weight=1, reach=[1, 3])
                p.add(nm + "/trail", "c10_of", [w, it, v], TLV(t, body + S(1)) + S(1), weight=1, reach=[2])
                p.add(nm + "/trail2", "c10_of", [w, it, v], TLV(t, body + S(2)), weight=1)
                if w < 2:
                    p.add(nm + "/indef", "c10_of", [w, it, v], C(t, 0x80) + body + S(3), weight=2, reach=[1])
                for n in (100, 520):
                    p.add(nm + "/long%d" % n, "c10_of", [w, it, v], TLV(t, K(body, 0) * n + body) + S(1), weight=2, reach=[1, 3])
                    p.add(nm + "/longtrail%d" % n, "c10_of", [w, it, v], TLV(t, K(body, 0) * n + S(2)) + S(1), weight=2)
                for n in (20, 130):
                    for k in (1, 3):
                        p.add(nm + "/longtrail%d.%d" % (n, k), "c10_of", [w, it, v], TLV(t, K(body, 0) * n + S(k)) + S(1), weight=1)
        p.add("fields%d/own" % w, "c10_fields", [w], C(t) + S(2) + S(1) + S(4), weight=3)
        p.add("fields%d/in" % w, "c10_fields", [w], TLV(t, TLV(2, S(1)) + TLV(1, S(1)) + S(2)) + S(1), weight=1, reach=[1])
        p.add("fields%d/cut" % w, "c10_fields", [w], C(t) + S(1) + TLV(2, S(1)) + C(1) + S(2), weight=1, reach=[1, 2])
    for w in range(10):
        for act in range(4):
            for n in (0, 1, 2, 3, 5):
                p.add("def%d/act%d/n%d" % (w, act, n), "c10_def", [w, act, 0], S(n), weight=0.5)
            t = 0x30 if w in (0, 2, 4, 6, 8, 9) else 0x31
            p.add("def%d/act%d/own" % (w, act), "c10_def", [w, act, 0], C(t) + S(6), weight=2, reach=[2, 4])
            for m, o in ((300, 2), (70000, 3)):
                p.add("def%d/act%d/anylen%d" % (w, act, m), "c10_def", [w, act, 0], C(t, 0x80 | o) + S(o) + F(0x31, m), weight=1, reach=[2])
            if w in (0, 1, 4, 5, 8):
                p.add("def%d/act%d/indef" % (w, act), "c10_def", [w, act, 0], C(t, 0x80) + TLV(4, F(7, 300)) + TLV(2, S(1)) + S(3), weight=1, reach=[2])
    for w in range(4):
        for it in (6, 7, 9, 11):
            for v in (0, 1):
                t = (0x30, 0x31, 0x30, 0x31)[w]
                nm = "of%d/item%d/%s" % (w, it, "vec" if v else "obj")
                p.add(nm + "/own", "c10_of", [w, it, v], C(t) + S(5), weight=2)
                p.add(nm + "/two", "c10_of", [w, it, v], TLV(t, TLV({7: 0x31, 11: 0xa1}.get(it, 0x30), TLV(2, S(1))) + TLV({7: 0x31, 11: 0xa1}.get(it, 0x30), S(2))) + S(1), weight=2)
    for w in (10, 11):
        for t in (4, 16, 30, 31, 200):
            for n in (2, 5):
                p.add("slice%d/t%d/n%d" % (w, t, n), "c10_def", [w, 0, t], S(n), weight=1)
        for n in range(1, 6):
            for t in (31, 127, 128, 16384, 1 << 21, 1 << 28, (1 << 32) - 1):
                p.add("slice%d/t%d/high%d" % (w, t, n), "c10_def", [w, 0, t], hightag(0, n) + S(2), weight=1)
        for m, o in ((300, 2), (70000, 3)):
            p.add("slice%d/anylen%d" % (w, m), "c10_def", [w, 0, 4], C(4, 0x80 | o) + S(o) + F(0x31, m), weight=1, reach=[1])
        p.add("slice%d/long" % w, "c10_def", [w, 0, 4], TLV(4, F(7, 200)) + S(2), weight=1, reach=[1])


def c11(p, th):
    for der in (0, 1):
        for form in range(3):
            for t in (0, 2, 30, 31, 127, 128):
                for it in ((0, 2) if not der else (1, 3)):
                    nm = "explicit%d/form%d/t%d/item%d" % (der, form, t, it)
                    p.add(nm + "/any", "c11_explicit", [der, form, t, it], S(4), weight=1, reach=[2])
                    own = M(0x3f, 0x20 | t) if t < 31 else M(0x3f, 0x3f) + (C(t) if t < 128 else C(0x81, 0x00))
                    p.add(nm + "/own", "c11_explicit", [der, form, t, it], own + S(4), weight=2, reach=[1, 2])
                    p.add(nm + "/own2", "c11_explicit", [der, form, t, it], own + S(1) + TLV(2, S(1)) + S(2), weight=2, reach=[1, 2])
                    if not der:
                        p.add(nm + "/indef", "c11_explicit", [der, form, t, it], own + C(0x80) + TLV(2, S(1)) + S(3), weight=2, reach=[1, 2])
            for t in (0, 3, 30, 31, 127, 128):
                for ty in (1, 2, 3, 4, 6, 10, 12, 16, 17, 19, 30):
                    if ty not in (2, 4, 16) and (t != 3 or form == 1):
                        continue
                    nm = "implicit%d/form%d/t%d/ty%d" % (der, form, t, ty)
                    p.add(nm + "/any", "c11_implicit", [der, form, t, ty], S(4), weight=1, reach=[2] if form == 1 else [3])
                    x = 0x20 if ty in (16, 17) else 0
                    own = M(0x3f, x | t) if t < 31 else M(0x3f, x | 0x1f) + (C(t) if t < 128 else C(0x81, 0x00))
                    p.add(nm + "/own", "c11_implicit", [der, form, t, ty], own + S(4), weight=2, reach=[1])
                    if not der:
                        own = M(0x3f, 0x20 | t) if t < 31 else M(0x3f, 0x3f) + (C(t) if t < 128 else C(0x81, 0x00))
                        p.add(nm + "/indef", "c11_implicit", [der, form, t, ty], own + C(0x80) + TLV(2, S(1)) + S(3), weight=2)


    # any tag number against any expected one; long contents
    for der in (0, 1):
        for form in range(3):
            for t in (127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, 1 << 28, (1 << 32) - 1):
                for n in range(1, 6):
                    p.add("explicit%d/form%d/t%d/high%d" % (der, form, t, n), "c11_explicit", [der, form, t, der], hightag(0x20, n) + C(3, 2, 1) + S(1), weight=1)
                    p.add("implicit%d/form%d/t%d/high%d" % (der, form, t, n), "c11_implicit", [der, form, t, 4], hightag(0, n) + C(1) + S(1), weight=1)
            for it in ((0, 2, 5, 6, 8, 9, 10) if not der else (1, 3, 4, 7, 8, 9)):
                # the content of an explicit tag: the element and anything after it
                nm = "explicit%d/form%d/item%d" % (der, form, it)
                p.add(nm + "/any", "c11_explicit", [der, form, 3, it], C(0xa3) + S(4), weight=2)
                if it in (2, 3, 5, 0, 1):
                    tt = {2: 4, 3: 4, 5: 4, 0: 2, 1: 2}[it]
                    for m in (130, 300, 66000):
                        p.add(nm + "/long%d" % m, "c11_explicit", [der, form, 3, it], TLV(0xa3, C(tt, 0x82) + S(2) + F(0x31, m)) + S(1), weight=2)
                    p.add(nm + "/anylen", "c11_explicit", [der, form, 3, it], C(0xa3, 0x82) + S(2) + C(tt, 0x82) + S(2) + F(0x31, 300), weight=2)
                    p.add(nm + "/anylen3", "c11_explicit", [der, form, 3, it], C(0xa3, 0x83) + S(3) + C(tt, 0x83) + S(3) + F(0x31, 70000), weight=2)
                    p.add(nm + "/trail", "c11_explicit", [der, form, 3, it], TLV(0xa3, TLV(tt, S(1)) + F(0x31, 70000)) + S(2), weight=2)
            if form < 2:
                # a content parser that leaves some of the content
                nm = "implicit%d/part%d" % (der, form)
                p.add(nm + "/any", "c11_implicit", [der, 3 + form, 3, 4], S(5), weight=1, reach=[3])
                p.add(nm + "/own", "c11_implicit", [der, 3 + form, 3, 4], M(0x20, 0x83) + S(5), weight=1, reach=[1, 2])
                p.add(nm + "/indef", "c11_implicit", [der, 3 + form, 3, 4], C(0xa3, 0x80) + TLV(4, S(2)) + S(3), weight=1, reach=[3] if der else [1])
                p.add(nm + "/long", "c11_implicit", [der, 3 + form, 3, 4], TLV(0x83, S(1) + F(0, 300)) + S(1), weight=1, reach=[1])
                p.add(nm + "/high", "c11_implicit", [der, 3 + form, 130, 4], hightag(0, 2) + S(4), weight=1)
            for ty in (2, 3, 4, 6, 12, 16, 17, 19, 30):
                own = M(0x3f, (0x20 if ty in (16, 17) else 0) | 3)
                nm = "implicit%d/form%d/ty%d" % (der, form, ty)
                p.add(nm + "/anylen", "c11_implicit", [der, form, 3, ty], own + C(0x82) + S(2) + (F(0x31, 300) if ty in (2, 3, 4) else F(0x31, 130 if ty != 30 else 9)), weight=2)
                if ty in (2, 4):
                    p.add(nm + "/anylen3", "c11_implicit", [der, form, 3, ty], own + C(0x83) + S(3) + F(0x31, 70000), weight=2)
                p.add(nm + "/wide", "c11_implicit", [der, form, 3, ty], own + L(262) + (S(1) + F(0x31, 130) + S(1) + F(0x31, 129) + S(1) if ty not in (16, 17) else TLV(2, S(1)) + TLV(4, F(1, 254 - 1) + S(1))) + S(1), weight=2)
                if ty in (16, 17):
                    for nn in (40, 300, 1030):
                        p.add(nm + "/many%d" % nn, "c11_implicit", [der, form, 3, ty], own + L(2 * nn + 6) + TLV(2, S(1)) + C(5, 0) * nn + TLV(1, S(1)) + S(1), weight=2)
                    for k in (10, 47, 48, 49, 50, 51):
                        body = chain(k, S(2))
                        p.add(nm + "/deep%d" % k, "c11_implicit", [der, form, 3, ty], own + L(size(body)) + body + S(1), weight=2)


def c12(p, th):
    for it in (6, 7, 8, 9, 10, 11, 12):
        for n in range(0, 5):
            p.add("opt/item%d/n%d" % (it, n), "c12_opt", [it], S(n), weight=10.0 ** (n - 3), reach=[2] if it != 10 else [1])
        p.add("opt/item%d/own" % it, "c12_opt", [it], C({7: 0x31, 11: 0xa1}.get(it, 0x30)) + S(5), weight=2)
        p.add("opt/item%d/trail" % it, "c12_opt", [it], TLV({7: 0x31, 11: 0xa1}.get(it, 0x30), TLV(2, S(1)) + S(2)) + S(2), weight=2)
        p.add("opt/item%d/many" % it, "c12_opt", [it], TLV({7: 0x31, 11: 0xa1}.get(it, 0x30), C(2, 1, 5) * 300 + TLV(2, S(1)) + S(2)) + S(2), weight=2)
        for der in (0, 1):
            p.add("fields%d/t3/item%d/own" % (der, it), "c12_fields", [der, 3, it], M(0x3f, 0x23) + S(5), weight=2)
            p.add("fields%d/t3/item%d/in" % (der, it), "c12_fields", [der, 3, it], TLV(0xa3, TLV({7: 0x31, 11: 0xa1}.get(it, 0x30), TLV(2, S(1)) + S(2))) + S(2), weight=2)
    for it in range(6):
        for m, o in ((130, 2), (300, 2), (70000, 3)):
            p.add("opt/item%d/anylen%d" % (it, m), "c12_opt", [it], C({4: 1, 5: 4}.get(it, 2), 0x80 | o) + S(o) + F(0x31, m), weight=2)
    for der in (0, 1):
        for t in (31, 128, 16384, 1 << 28, (1 << 32) - 1):
            for n in range(1, 6):
                p.add("fields%d/t%d/high%d" % (der, t, n), "c12_fields", [der, t, der], hightag(0x20, n) + C(3, 2, 1) + S(1), weight=1)
    for it in range(6):
        for n in range(0, 5):
            p.add("opt/item%d/n%d" % (it, n), "c12_opt", [it], S(n), weight=10.0 ** (n - 3), reach=[2])
        own = {0: C(2), 1: C(2), 2: M(0xfe, 0x30), 3: M(0xfe, 0x30), 4: C(1), 5: C(4)}[it]
        p.add("opt/item%d/own" % it, "c12_opt", [it], own + S(4), weight=2, reach=[1, 2])
    for der in (0, 1):
        for t in (0, 5, 31):
            for it in ((0, 2, 5) if not der else (1, 3, 4)):
                nm = "fields%d/t%d/item%d" % (der, t, it)
                own = M(0x3f, 0x20 | t) if t < 31 else M(0x3f, 0x3f) + C(t)
                p.add(nm + "/any", "c12_fields", [der, t, it], S(4), weight=2, reach=[2])
                p.add(nm + "/own", "c12_fields", [der, t, it], own + S(5), weight=2, reach=[1, 2] if it not in (3,) else [1])


def c13(p, th):
    for k in range(NKIND):
        for n in (0, 1, 2, 4, 8):
            t = M(0x80, 0, n) if n and (9 <= k <= 15 or 22 <= k <= 24) else S(n)
            if n == 8 and (9 <= k <= 15 or 22 <= k <= 24):
                continue
            p.add("build%d/n%d" % (k, n), "c13_build", [k], t, weight=1, reach=[] if k == 26 else [1])
        for n in (127, 128, 255, 256, 0x3fff, 0x80ff, 0xa5c3, 65534, 65535, 65536, 65537, 0x10080, 0x1a5c3) + ((0x2ff80, 0x1000080) if th else ()):
            if k in (2, 4, 7, 13, 16, 17, 24, 25, 28) and n < 300 or n < 1 << 17 and k in (2, 3, 4, 17, 18, 19, 25, 28) or k == 4:
                p.add("build%d/n%d" % (k, n), "c13_build", [k], M(0x80, 0) + F(0x41, n - 2) + M(0x80, 0), weight=1, reach=[1])
        if k in (18, 19, 26, 27, 31, 32):
            continue
        for imp in (0, 1):
            p.add("tagged%d/kind%d" % (imp, k), "c13_tagged", [k, imp, 0], M(0x80, 0, 2), weight=1, reach=[1])
    for k in (2, 4, 18, 19, 29, 30, 36):
        for imp in (0, 1):
            for t in (0, 31, 127, 128, 16383, 16384, 0xffffffff) if k in (2, 4, 18) else (0, 31, 16384):
                p.add("tagged%d/kind%d/t%d" % (imp, k, t), "c13_tagged", [k, imp, t], S(2), weight=1, reach=[1, 2])
            p.add("tagged%d/kind%d/long" % (imp, k), "c13_tagged", [k, imp, 0], S(2) + F(0, 124), weight=1, reach=[1, 2])
            p.add("tagged%d/kind%d/long2" % (imp, k), "c13_tagged", [k, imp, 0], S(2) + F(0, 112), weight=1, reach=[1, 2])
    # members whose header is not the one of their content
    for k in range(NKIND):
        if k != 26:
            for w in (0, 1, 2):
                p.add("member%d/w%d" % (k, w), "c13_member", [k, w], M(0x80, 0, 2), weight=1, reach=[1])
            p.add("member%d/long" % k, "c13_member", [k, 0], M(0x80, 0, 2) + F(0x31, 124 if k in (20, 21, 35) else 124), weight=1, reach=[1])
    for a, b in ((0, 4), (4, 7), (9, 12), (12, 16), (17, 20), (20, 25)):
        p.add("tree%d" % a, "c13_tree", [a << 8 | b], M(0xf8, 0x30, 1) if a == 9 else M(0x80, 0x00, 1) if a == 4 else M(0xf0, 0x30, 2), weight=1, reach=[1])
    for der in (0, 1):
        for n in range(2, 6 if not th else 7):
            for x, t, sh in ANY(n):
                p.add("parsed%d/n%d%s" % (der, n, x), "c13_parsed", [der], t, shards=sh, weight=10.0 ** (n - 4), reach=[1, 2, 3] if x in ("", "/p30") else [])
        for nm, t in typed_family(False) + nest_family(th) + wide_family(th):
            if nm.startswith("t23") or nm.startswith("t24"):
                continue
            p.add("parsed%d/%s" % (der, nm), "c13_parsed", [der], t, weight=1)
        for nm, t in long_family(th):
            if "cut" not in nm:
                p.add("parsed%d/%s" % (der, nm), "c13_parsed", [der], t, weight=2)
        for nm, t in anylen_family(th):
            if size(t) < 1000:
                p.add("parsed%d/%s" % (der, nm), "c13_parsed", [der], t, weight=2)
        for n in (0x80ff, 0xa5c3, 0x10080, 0x1a5c3):
            for t in (4, 0x30, 0x85):
                p.add("parsed%d/len%d/t%x" % (der, n, t), "c13_parsed", [der], TLV(t, TLV(4, F(0x41, n // 3) + S(1)) + TLV(4, F(0x42, n - n // 3 - 10 - 2 * (n > 65535) - 1) + S(1))), weight=2)
        for body in (b"99123123595", b"230102030405"):
            p.add("parsed%d/utc%d" % (der, len(body)), "c13_parsed", [der], TLV(23, C(*body[:-2]) + S(1) + C(body[-1]) + C(0x5a)), weight=2)
        p.add("parsed%d/gen1" % der, "c13_parsed", [der], TLV(24, C(*b"2023010203040") + S(1) + C(0x5a)), weight=2, reach=[2])
        p.add("parsed%d/gen2" % der, "c13_parsed", [der], TLV(24, C(*b"20230102030405.1") + S(1) + C(0x5a)), weight=2, reach=[2])
        p.add("parsed%d/gen3" % der, "c13_parsed", [der], TLV(24, S(1) + C(*b"0230102030405Z")), weight=2, reach=[2])
        for t in (0x30, 0x31, 0xa0, 0x24):
            if not der:
                p.add("parsed0/indef/%x" % t, "c13_parsed", [0], C(t, 0x80) + S(4), weight=3)
                p.add("parsed0/indef2/%x" % t, "c13_parsed", [0], C(t, 0x80) + TLV(0x30, TLV(2, S(1))) + C(0x30, 0x80) + TLV(4, S(1)) + F(0, 4), weight=1, reach=[2])
    for g in (0, 1):
        for f in range(11):
            if g == 0 and f in (6, 7):
                continue
            p.add("time%d/f%d" % (g, f), "c13_time", [g, f, 0], [], weight=3, reach=[1], bounds="one arbitrary field value (index %d), others fixed" % f)
        p.add("time1/undef%d" % g, "c13_time", [1, 5 + g, 1], [], weight=3, reach=[1], bounds="one arbitrary field value, no time zone")
    p.add("enum", "c13_enum", [], [], reach=[1, 2], bounds="any 64-bit value")


def c14(p, th):
    for t in (0, 1):
        for l in range(3):
            p.add("hdr/tag%d/len%d" % (t, l), "c14_hdr", [t, l], [], weight=5, reach=[1, 2] if l == 1 else [1],
                  bounds="any class, form, tag number below %s, %s length" % ("31" if t == 0 else "2^32", ("any 64-bit definite", "indefinite", "definite below 256")[l]))
    for k in range(NKIND):
        if k != 26:
            for w in (0, 1, 2):
                p.add("raw/kind%d/w%d" % (k, w), "c14_raw", [k, w], M(0x80, 0, 3), weight=1, reach=[1])


def c20(p, th):
    def dig(n):
        return M(0xf0, 0x30, n)
    dot = C(0x2e)
    # the first two components (one or two digits each), and incomplete identifiers
    for a in (1, 2):
        for b in (1, 2, 3):
            p.add("first/%d.%d" % (a, b), "c20_oid", [0], dig(a) + dot + dig(b))
            p.add("first/%d.%d.1" % (a, b), "c20_oid", [0], dig(a) + dot + dig(b) + dot + dig(1))
        p.add("single/%d" % a, "c20_oid", [0], dig(a))
    # one further component of any size, at every distance from the start
    for rel in (0, 1):
        pre = C(*b"1.2.") if not rel else []
        for n in (1, 2, 3, 4) + ((5, 6, 8) if th else ()):
            p.add("comp%d/d%d" % (rel, n), "c20_oid", [rel], pre + dig(n), weight=n)
            if n < 4:
                p.add("comp%d/d%d.d2" % (rel, n), "c20_oid", [rel], pre + dig(n) + dot + dig(2 if n < 3 else 1), weight=n)
                p.add("comp%d/mid%d" % (rel, n), "c20_oid", [rel], pre + C(*b"113549.") + dig(n) + C(*b".311.") + dig(1), weight=n)
        # long components: arbitrary first digits (every octet count up to 38 digits), or last digits
        for n in (range(5, 39) if th else (5, 7, 9, 11, 13, 15, 17, 18, 19, 20, 22, 25, 30, 38)):
            p.add("long%d/top%d" % (rel, n), "c20_oid", [rel], pre + dig(1) + C(*b"57005951413284660179035472186351296408"[:n - 1]) + C(*b".7"), weight=n)
            if n % 4 == 1:
                p.add("long%d/low%d" % (rel, n), "c20_oid", [rel], pre + C(*b"99705951413284660179035472186351296408"[:n - 2]) + dig(2), weight=n)
        # many components
        for n in (10, 31, 32, 33, 40, 64, 130):
            p.add("many%d/c%d" % (rel, n), "c20_oid", [rel], pre + dig(1) + C(*b".1" * n) + dot + dig(1) + C(*b".128") + dot + dig(2), weight=1)
        # components of hundreds of digits
        for n in (39, 40, 59, 77, 78, 80, 154, 200, 310) if th else (39, 59, 77, 78, 80):
            p.add("huge%d/d%d" % (rel, n), "c20_oid", [rel], pre + C(*(b"9970595141328466017903547218635129640" * 9)[:n - 1]) + dig(1) + C(*b".7") + dot + dig(1), weight=2)
    p.add("spaces", "c20_oid", [0], C(*b"1 . 2 . ") + dig(3) + C(*b" . 4"), weight=1)


def c21(p, th):
    for ind, inc, fl in ((0, 2, 1), (3, 0, 3), (1, 1, 0), (0, 4, 2), (2, 3, 3)):
        nm = "i%d+%d/f%d" % (ind, inc, fl)
        for n in range(2, 5 if not th else 6):
            p.add("parsed/%s/n%d" % (nm, n), "c21_text", [ind, inc, fl, END], S(n), weight=10.0 ** (n - 3), shards=8 if n > 4 else 1, reach=[1])
        for t in (0x30, 0x31):
            p.add("parsed/%s/%x" % (nm, t), "c21_text", [ind, inc, fl, END], C(t) + S(4), weight=5, reach=[1])
        for x, t in nest_family(th):
            if syms(t) > (6 if th else 4):
                continue
            p.add("parsed/%s/%s" % (nm, x), "c21_text", [ind, inc, fl, END], t, weight=2)
        for a in range(0, NKIND - 3, 3):
            p.add("tree/%s/%d" % (nm, a), "c21_text", [ind, inc, fl, a << 8 | (a + 4)], M(0xf8, 0x30, 1), weight=1)
        p.add("indef/%s" % nm, "c21_text", [ind, inc, fl, END], C(0x30, 0x80) + TLV(2, S(1)) + TLV(0x31, TLV(1, S(1))) + C(0, 0), weight=1, reach=[1])
    # wide indentation
    for ind, inc in ((255, 10), (0, 300), (65530, 10), (70000, 1)):
        for fl in (1, 3):
            nm = "wide/i%d+%d/f%d" % (ind, inc, fl)
            if ind + inc > 65535:
                p.add(nm + "/parsed", "c21_text", [ind, inc, fl, END], TLV(0x30, TLV(2, S(1))), weight=20, reach=[1])
                continue
            p.add(nm + "/parsed", "c21_text", [ind, inc, fl, END], TLV(0x30, TLV(0x31, TLV(2, S(1))) + TLV(0xa3, S(1))), weight=2, reach=[1])
            p.add(nm + "/tagged", "c21_text", [ind, inc, fl, 27 << 8 | 28], M(0x80, 0, 1), weight=2)
            p.add(nm + "/tagged2", "c21_text", [ind, inc, fl, 31 << 8 | 33], M(0x80, 0, 1), weight=2)
    for k in range(NKIND):
        for fl in range(8):
            if not th and (fl == 6 or k >= 29 and fl not in (0, 3, 7)):
                continue
            asc = 9 <= k <= 15 or 22 <= k <= 24
            for n in (0, 2, 4, 5):
                if not th and k in (7, 8) and fl == 7 and n == 2:
                    n = 1
                if n and k in (0, 1, 5, 18, 19, 20, 21, 26, 27, 29, 30, 31, 32, 33, 35, 36) and n not in (1, 2) or fl not in (0, 3) and n > 2 or not th and (k in (7, 8) and n == 5 or k == 6 and n > 2):
                    continue
                p.add("kind%d/f%d/n%d" % (k, fl, n), "c21_kind", [k, fl], M(0x80, 0, n) if asc and n else S(n), weight=1)
        for fl in (8, 11) if th or k < 31 else (8,):
            p.add("kind%d/f%d/ind" % (k, fl), "c21_kind", [k, fl], C(0x31, 0x32), weight=1)
        p.add("kind%d/wide" % k, "c21_kind", [k, 3], M(0x80, 0) + F(0x41, 150) + M(0x80, 0), weight=1)
        if k in (2, 3, 4, 16, 17, 28) or 9 <= k <= 15 or 22 <= k <= 24:
            for n in (256, 600, 1100, 5000):
                p.add("kind%d/wide%d" % (k, n), "c21_kind", [k, 3], M(0x80, 0) + F(0x41, n - 2) + M(0x80, 0), weight=1)
    for fl in range(4):
        p.add("ind/nest/f%d" % fl, "c21_text", [END, END, fl, END], TLV(0x30, TLV(0x31, TLV(2, S(1)) + TLV(0x30, TLV(1, S(1)))) + TLV(5, [])), weight=60, reach=[1])
        for a in (0, 6, 12, 15, 18, 21):
            if a in (6, 21) and not th:
                continue
            for inc in (0, 1, 3) if th else (1,):
                p.add("ind/tree%d/f%d/%d" % (a, fl, inc), "c21_text", [END, inc, fl, a << 8 | (a + 4)], C(0x31), weight=3)
    for n in (0, 1, 3, 5) + ((8,) if th else ()):
        p.add("flags/n%d" % n, "c21_flags", [n], [], weight=1, reach=[1], bounds="any initial flags (up to 3), any %d operations" % n)


def instances(prop, tier):
    p = P()
    globals()[prop.lower()](p, tier == "thorough")
    return p.l
