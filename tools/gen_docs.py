#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json (single source for both)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "symbolic execution of the compiled LLVM IR of the real code, decided by Z3"
IN = ["inputs"]
P = []


def p(id, title, st, qt, why, files, mech, note, over=IN, observe=(), technique=T):
    P.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
              technique, note))


BP, BB, BM, BT, BS, BV, BVM, BW, BI, PR = ("src/ber/parser.rs", "src/ber/ber.rs", "src/ber/multi.rs", "src/ber/tagged.rs", "src/ber/serialize.rs",
                                          "src/ber/visit.rs", "src/ber/visit_mut.rs", "src/ber/wrap_any.rs", "src/ber/integer.rs", "src/ber/print.rs")
DP, DM, DT = "src/der/parser.rs", "src/der/multi.rs", "src/der/tagged.rs"
NOTE = ("Holds for every input within the bounds listed per instance in the evidence (each path decided by Z3, counterexamples replayed on a debug and an optimised "
        "native build). Trusts the symbolic executor in /verif/symex (cross-checked against the native build on sampled paths in every run), rustc's IR and Z3. ")

p("C01", "Parsing untrusted bytes never panics",
  "Every parsing function, BER or DER, generic or typed, and every content-level parser called with any tag, class, form and length, returns an object or an error for any byte string and never panics, overflows or loops forever. Every accessor, conversion, iterator, and visitor applied to whatever object was returned is equally total (the one documented exception: indexing out of range).",
  "all byte strings and all entry points; checked for all inputs of 0-4 bytes per generic entry point (0-5 thorough), longer typed, nested and long-length shapes, results of combinators, visiting, printing and encoding whatever was parsed",
  "The tests feed some hundred fixed byte strings; a panic hides behind a particular length, padding or unused-bit byte that none of them contains.",
  [BP, DP, BB, BI, BW], [("length and bounds checks before slicing", BP), ("content dispatch by tag", BP + ": try_berobjectcontent_from_any"), ("integer conversions", BI)],
  NOTE + "The oracle is: no panic, no arithmetic overflow (debug checks on), no out-of-bounds access in the executed IR.", observe=["return values and panics of parse_* functions and accessors"])
p("C02", "Parsed spans tile the input; truncations never succeed",
  "A successful parse consumes a non-empty prefix of the input, returns exactly the rest of the same buffer as remainder, and all borrowed data in the object lies inside the consumed prefix, without copying. The result does not depend on bytes after the consumed prefix, and no proper prefix of a consumed encoding parses successfully: cutting it short (other than inside a long-form tag number) reports that more data is needed.",
  "all byte strings; all of 0-5 bytes for the generic BER and DER parsers, 5-byte inputs per typed parser, every 16-bit length and class with up to 300 octets of content, truncation points and appended bytes",
  "Tests compare a few full inputs with an expected remainder; they do not relate a run to its truncations or extensions, nor check where borrowed data points.",
  [BP, DP, BW], [("nom remainder threading", BP), ("Incomplete errors", BP + ", " + DP)], NOTE, observe=["remainder and borrowed slices", "error kind Incomplete"])
p("C03", "BER and DER headers are decoded exactly",
  "Reading a header yields the class, primitive/constructed form, tag number (low or high form, up to 32 bits) and length (short, long or indefinite) which the octets encode, together with the raw tag octets, and consumes exactly the header. Reserved, overlong beyond the machine word or malformed encodings give an error, truncated headers never succeed, and DER refuses indefinite length.",
  "all header byte strings of 0-12 bytes (24 in the thorough tier), in BER and DER mode",
  "Tests decode a handful of headers; the space of tag and length octet combinations is not sampled near its limits (tag numbers above 2^28, 8 and 9 length octets, 0xff).",
  [BP, DP], [("ber_read_element_header", BP + ":117"), ("der_read_element_header", DP + ":668")], NOTE, observe=["returned header and remainder"])
p("C04", "Generic BER parsing returns exactly the object the octets encode",
  "For any input the generic BER parser either returns the object a reference BER decoder assigns to the octets - identity and length of every element at every nesting level, values, character set validation, content boundaries, order of children - or an error where the reference finds none. Elements of unknown type or of a non-universal class come back unchanged as raw content.",
  "all byte strings of 0-6 bytes (7 thorough); every universal type with symbolic content of several sizes; lengths around 127/128, 255/256, 65535/65536; nested and multi-element shapes",
  "The tests sample one or two encodings per type; the decoder branches on tag, form, length form and content of every element, whose combinations tests cannot enumerate.",
  [BP, BW, BB], [("parse_ber_any_r and content conversion", BW), ("try_berobjectcontent_from_any", BP), ("header of asn1-rs", "asn1-rs")],
  NOTE + "The reference decoder is /verif/harness/src/h/spec.rs; leniencies it leaves open are listed in DESIGN.md.", observe=["object tree returned by the generic BER parser"])
p("C05", "DER-only constraints hold at every nesting level",
  "The generic DER parser accepts exactly the encodings which the reference BER decoder accepts and which also satisfy the DER constraints the library documents: definite lengths, booleans 00 or ff, bit strings with at most 7 unused bits and zero padding, integers without redundant leading zeros, primitive strings. The constraints apply to the outermost element and to each element nested in a sequence or set, and accepted objects carry the same values as in BER.",
  "all byte strings of 0-6 bytes (7 thorough); every universal type, long lengths, nested shapes",
  "Each constraint is tested on one top-level example; nothing tests each constraint at each nesting position or in combination.",
  [DP, BP, BW], [("der_read_element_content_recursive", DP), ("der_get_object_content", DP)], NOTE, observe=["acceptance and object tree of the generic DER parser"])
p("C06", "The recursion limit bounds nesting exactly",
  "Parsing with a recursion limit succeeds only if the nesting of sequences and sets stays within that limit, fails with an error (never a stack overflow) when it does not, and any larger limit gives the same successful result. The default limit applies to the parsers without an explicit one, so that nesting deeper than 50 levels is always refused.",
  "every limit value (symbolic 64-bit), inputs of 0-4 bytes, chains of 0-127 nested containers around the default limit, each content type through all content readers",
  "Tests parse one deep input; the relation between any limit and any nesting is a two-dimensional space.",
  [BP, DP, BW], [("max_depth threading", BP + ", " + DP), ("MAX_RECURSION", "src/ber/mod.rs / " + BP)], NOTE, observe=["result of the limited parsers for a symbolic limit"], over=["inputs", "configurations"])
p("C07", "Integer accessors are exact over the whole range",
  "For any two's complement content the signed and unsigned 32- and 64-bit accessors and integer parsers and the big-integer accessors return the mathematical value exactly when it fits the requested type, and otherwise report that the integer is too large or negative. No value is ever truncated, wrapped or given the wrong sign, whatever the number of leading zero octets.",
  "all integer contents of 0-10 octets (16 thorough), up to 5000 leading zero octets with 9 symbolic octets, big integers of 0-9 symbolic octets and up to 1030 octets with both ends symbolic; enumerated values likewise where readable",
  "Tests use a dozen constants; a wrong sign extension or boundary shows only at particular values among 2^64.",
  [BB, BI, BP, DP], [("bytes_to_u64, bytes_to_i64_safe, …", BI), ("as_i64 … as_biguint", BB), ("parse_ber_i32 …", BP)], NOTE + "Enumerated objects are included.", observe=["returned integers and error kinds"])
p("C08", "Bit strings: unused bits, numeric values and bit tests are exact",
  "A bit string returns its bits exactly as encoded: testing bit n answers whether the n-th most significant bit of the content octets is set (false beyond the end), the bit-slice view has the same bits in the same order, and the numeric accessors return the big-endian value of the significant bits when it fits and an error otherwise. Content without the unused-bits octet is refused, and DER also refuses more than 7 unused bits and non-zero padding bits.",
  "contents of 1-11 octets (20 thorough), any unused-bits count, any (symbolic 64-bit) bit number, windows of 32 bit numbers in strings of up to 70000 octets, parse of 1-10 content octets",
  "Tests check two or three bit strings; the interaction of unused bits, octet count and width is not enumerated.",
  [BB, BI, BP, DP], [("is_set, as_bitslice", BB), ("bitstring_to_u64/u32", BI), ("DER padding check", DP)], NOTE, observe=["accessor results"])
p("C09", "Indefinite-length content ends at its matching end-of-contents",
  "An element with indefinite length contains exactly the elements up to, and excluding, its own end-of-contents octets, at any nesting of definite and indefinite elements, and the remainder starts right after these two octets. Zero octets inside nested contents never end it early, a missing end-of-contents never succeeds, and nesting is bounded by the recursion limit.",
  "symbolic bodies of 2-6 octets in sequence, set and other constructed headers through generic, typed, content and container parsers; nested indefinite elements, contents of 300 and 66000 octets, zero octets just before the terminator, up to 1030 members; chains to depth 51",
  "Tests contain two or three indefinite-length inputs; terminators nested in contents at all positions are not covered.",
  [BP, BM, BW], [("ber_skip_object_content", BP), ("indefinite loops of sequence/set parsers", BM), ("asn1-rs Any parser", "asn1-rs")],
  NOTE + "Two recorded findings (known_findings.txt): any tag-0 zero-length header is taken as end-of-contents by the dependency's scanner.", observe=["content slice, children, remainder"])
p("C10", "Sequence, set and container combinators apply parsers to exact content",
  "Combinators for homogeneous or defined sequences and sets, and for generic containers and slices, hand exactly the content octets of one element with the required tag to the given parsers, and return all their results, in order, with the remainder right after that element. The homogeneous forms (given an element parser which asks for more input at the end, as those of this library do) succeed only if element parsers consume the whole content; every form fails on another tag or when a parser fails, and none lets a parser see octets outside the element or loses, repeats or reorders results.",
  "all four sequence/set variants in BER and DER, object and vector results, ten element parsers, 3-6 symbolic octets, up to 1560 elements, trailing octets, indefinite length, every 16-bit and 24-bit length, tag numbers to 2^32-1 for slices; symbolic container headers",
  "Each combinator has one or two positive examples; partial consumption, trailing bytes, and empty content combine with lengths in ways not tested.",
  [BM, DM, BP], [("parse_*_of, *_of_v, *_defined, *_defined_g", BM + ", " + DM), ("parse_ber_container, parse_ber_slice", BM + ", " + BP)], NOTE, observe=["results of combinators over user parsers"], over=["inputs", "programs"])
p("C11", "Explicit and implicit tagging accept exactly the requested tag",
  "Explicit tagging succeeds exactly when the element has the requested tag number, a non-universal class and the constructed form and the inner parser accepts its content; it returns class, tag number and the inner object. Implicit tagging succeeds exactly when the requested tag number is present and the content decodes as the given type, keeping the original header. DER variants refuse indefinite lengths, BER variants accept them, and the remainder always starts right after the element.",
  "requested tag numbers around 31, 127, 2^14, 2^21, 2^28, 2^32 against any encoded tag of up to 5 octets, any class; object, generic and optional forms; inner types for all universal families; 4-7 symbolic octets, every 16-bit and 24-bit outer and inner length, trailing content of 70000 octets, nesting to 51",
  "The tests check a few tagged fields; wrong class, primitive form, trailing content and indefinite length are mostly not tested.",
  [BT, DT, BP, DP], [("parse_*_tagged_explicit(_g), parse_*_tagged_implicit(_g)", BT + ", " + DT), ("parse_*_explicit_optional, parse_*_implicit", BP + ", " + DP)], NOTE, observe=["results of tagged parsers"], over=["inputs", "programs"])
p("C12", "Optional elements consume exactly when present",
  "An optional parser returns the present value when its inner parser succeeds, and otherwise an absent value with the input untouched; it never consumes input for an absent value and never loses a present one. Fields which follow an optional field in a sequence are parsed identically whether it is present or absent.",
  "all inputs of 0-4 octets for each of 13 inner parsers (failing in each way, composed, nested optional), explicit-optional in BER and DER with any tag number, long contents",
  "Tests use one optional field with two inputs; absent values at the end of input or before a malformed element are not tested.",
  [BP, DP], [("parse_ber_optional", BP + ":539"), ("parse_ber_explicit_optional", BP + ":456")], NOTE, observe=["Optional content and remainder"])
p("C13", "Encoding an object and parsing it back is the identity",
  "Serialising any object which a parser can return or a user can build yields octets which parse back to an equal object, with minimal definite lengths; serialising a parsed object with definite minimal lengths gives back the original octets. Explicit and implicit tagging encoders produce octets which the matching tagged parsers accept with the same content, and date and time values survive the round trip.",
  "every content kind with 0-8 and around 127/128/255/256 content octets, most with lengths from 16383 to 108000 of varied bit patterns, parsed objects of 2-5 octets and typed shapes, tagged forms with tag numbers to 2^32-1, nested trees, time fields",
  "Round-trip tests exist for one example of most types; particular values (zero, long contents, high tags, nested tags, dates) are not sampled.",
  [BS, BP, BB], [("ber_encode_object_content and friends", BS), ("to_vec", BS + ":247")], NOTE + "Accepted leniencies (absent optional, re-encoding of constructed strings) are listed in DESIGN.md.", observe=["bytes produced, objects re-parsed"])
p("C14", "Header and length encoding is minimal and inverse to decoding",
  "Encoding a header produces the unique minimal identifier and length octets for its class, form, tag number and length - short form below 128, the fewest length octets above, high-tag-number form from 31 - and decoding them gives the same header back. The raw encoder emits the octets of exactly the header it is given, whatever its length says, followed by the content octets.",
  "any class, form, any 32-bit tag number, any 64-bit definite length or indefinite; raw encoding of every content kind under any header (32-bit tag, 64-bit or indefinite length)",
  "Tests encode three or four headers; boundaries at 127/128, 255/256 … 2^56 and for 7-bit tag groups are not covered.",
  [BS], [("ber_encode_header, encode_length, tag octets", BS), ("ber_encode_object_raw", BS)], NOTE, observe=["bytes produced by the header and raw encoders"])
p("C15", "Typed and generic parsers agree; DER is a subset of BER",
  "A typed parser succeeds exactly when the input starts with an element of its type, with the same object and remainder as the generic parser, and refuses any other tag. Whatever the DER parser accepts the BER parser accepts too, with an equal object and the same remainder.",
  "every typed parser in BER and DER with all 3-octet inputs, 5-octet and long contents for its own tag; the parsers taking the tag as an argument with any (symbolic 32-bit) tag; all inputs of 0-5 octets for the DER/BER inclusion",
  "The test-suite never runs two parsers on the same input to compare the results.",
  [BP, DP, BW], [("parse_*_with_tag and typed wrappers", BP + ", " + DP)], NOTE, observe=["pairs of results"])
p("C16", "Visitors reach every nested object exactly once, in order",
  "Visiting an object calls the visitor for that object and for each object nested in sequences and sets exactly once, in document order, with the handler matching its type, and passes its own data and its nesting depth. Mutable visiting makes the same calls, edits made by handlers are kept in the tree and seen by the calls that follow: children which a container's handler removes are not visited, those it adds are.",
  "parsed objects from 2-4 octets and nested shapes of up to 1030 members, built trees of 37 shapes, six visitor modes (recording, removing and adding members, changing values, replacing objects)",
  "One test counts objects for one tree; a handler swapped for one type or a skipped child is not noticed.",
  [BV, BVM], [("Visit trait and run/run_at", BV), ("VisitMut", BVM)], NOTE + "Payloads of tagged and optional objects are not descended into by design.", observe=["sequence of handler calls"], over=["inputs", "programs"])
p("C17", "Iteration and indexing enumerate exactly the children",
  "Iterating a sequence or set by value or by reference yields each child once, in order, then ends; any other object yields itself once by value. Indexing returns the i-th child for every i below the number of children.",
  "objects parsed from 2-5 octets, nested shapes of up to 1030 members, every built kind; symbolic index",
  "Tests iterate one list; empty containers, single children and non-containers behave differently and are not covered.",
  [BB], [("IntoIterator, ref_iter, Index", BB + ":763-860")], NOTE, observe=["items yielded"])
p("C18", "Accessors are type-safe and constructors give the matching header",
  "Each accessor succeeds exactly on the content kinds it is meant for, returns that content unchanged, and otherwise reports a type error; predicates on class, form and kind are consistent with the header. An object built from content carries the universal class and the tag number and form of that content.",
  "all 29 content kinds in 37 shapes with 0-8 symbolic content octets, every accessor",
  "Tests call each accessor on one matching kind only; mismatches between 30 accessors and 29 kinds are about 900 combinations.",
  [BB], [("as_* accessors", BB + ":160-660"), ("from_obj and BerObjectContent::tag", BB)], NOTE, observe=["accessor results"])
p("C19", "Conversion from the generic ASN.1 element agrees with parsing",
  "Converting a decoded generic ASN.1 element of universal class, by value or by reference, gives the same object as parsing its octets directly, and fails when that fails. The conversion never panics and does not change header or content.",
  "all inputs of 0-5 octets (6 thorough), each universal type, nested and indefinite shapes",
  "Only one or two conversions are tested.",
  [BB, BW], [("TryFrom<Any>, TryFrom<&Any>", BB + ":726-760")], NOTE, observe=["converted object vs parsed object"])

p("C20", "The OID macro encodes every identifier to its exact octets",
  "The compile-time object identifier macro turns a dotted identifier into exactly its DER content octets: 40 times the first plus the second component, then each further component in the fewest base-128 octets, high group first; the relative form encodes every component that way. Text that is not an object identifier (fewer than two components, a first component above 2, a second above 39 under 0 or 1) is refused at compile time instead of giving wrong octets.",
  "every first and second component of 1-2 and 1-3 digits, every further component of 1-4 digits alone and between others (8 thorough), numbers of 5-38 digits with a symbolic first digit or last digits, of 39-80 digits (310 thorough) with a symbolic last digit, up to 132 components; absolute and relative",
  "The tests use a few well-known identifiers; the bit-packing loop depends on the bit length of every component, and no test goes beyond 21 bits.",
  ["der-oid-macro/src/lib.rs"], [("encode_components", "der-oid-macro/src/lib.rs:3"), ("encode_oid", "der-oid-macro/src/lib.rs:66")],
  NOTE + "The macro's source is compiled as a plain module with a text-only stand-in for the compiler's TokenStream. Valid identifiers 2.40 and above are refused by the macro; that is accepted.", observe=["octets in the expanded array, or the panic that stops compilation"])
p("C21", "Pretty printing is total and shows the whole tree in order",
  "Pretty printing any object with any indentation and flags never panics. The text is the indentation, the header if requested, the kind and value of the object, and for sequences, sets and tagged objects, if recursive, the text of every member exactly once, in order, one indentation step deeper under the same flags, between matching brackets; otherwise no member. Flags behave as a set under setting, unsetting and querying.",
  "objects parsed from 2-4 octets and nested shapes, every built kind with 0-5 content octets and any header, five combinations of indentation and flags with every shape, any indentation to 5 and step to 3 with some, indentations of 255-70000 with symbolic values, all flag operation sequences up to 5",
  "The only tests print one object without looking at the text; string contents that do not decode, odd lengths, implicit tags, headers of other classes and nesting are never printed.",
  [PR], [("impl Debug for PrettyBer", PR + ":102"), ("set_flag, unset_flag, next_indent", PR + ":53")],
  NOTE + "Text after undecodable BMP/Universal strings and inside optional objects is only checked not to panic.", observe=["text written by Debug for PrettyBer"])

NA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --build-only", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="One engine (symex/), one harness crate (harness/), one plan (plan.py), one driver (run.py); see DESIGN.md. No hooks in /repo are needed.")
    for d, t, n in P:
        if d["id"] in [a for a, _ in NA]:
            continue
        m["checks"].append(dict(property=d["id"], quick_cmd="python3 run.py --property %s --tier quick" % d["id"],
                                thorough_cmd="python3 run.py --property %s --tier thorough" % d["id"], technique=t, level="model_checking", level_note=n))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
