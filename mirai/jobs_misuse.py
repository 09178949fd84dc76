"""Compile-fail witnesses: programs the compiler must reject, each with a twin that differs only in the misuse and must compile."""
import os, shutil, subprocess, tempfile
import judge as J

PRE = "#![allow(dead_code, unused)]\nuse oasis_cbor::{Decode, DecodeError, Encode, EncodeAsMap, Value};\nfn empty<T>(_: &T) -> bool { false }\nfn as_map<T: EncodeAsMap>() {}\n"
E, D = "Encode", "Decode"



def s(d, attr, fields):
    return "#[derive(%s)]\n%spub struct X%s\n" % (d, "#[cbor(%s)]\n" % attr if attr else "", fields)


def e(d, attr, variants):
    return "#[derive(%s)]\n%spub enum X { %s }\n" % (d, "#[cbor(%s)]\n" % attr if attr else "", variants)


INNER = "#[derive(Default, Encode, Decode)]\npub struct In { pub i: u8 }\n#[derive(Encode, Decode)]\npub enum Ie { P, Q(u8) }\n"
NM = "{ pub a: u8, pub b: u16 }"

# (group, name, rejected program, accepted twin)
W = []


def w(group, name, bad, good):
    W.append((group, name, bad, good))


for d in (E, D):
    n = d.lower() + ": "
    df = "Default, " if d == D else ""
    w("attrs", n + "no_default together with with_default", s(df + d, "no_default, with_default", NM), s(df + d, "no_default", NM))
    w("attrs", n + "no_default together with with_default on an enum", "#[derive(Default, %s)]\n#[cbor(no_default, with_default)]\npub enum X { #[default] A, B }" % d, "#[derive(Default, %s)]\n#[cbor(with_default)]\npub enum X { #[default] A, B }" % d)
    w("attrs", n + "untagged together with tag", e(d, 'untagged, tag = "t"', "A { x: u8 }, B { y: u8 }"), e(d, 'tag = "t"', "A { x: u8 }, B { y: u8 }"))
    w("transparent", n + "transparent on a struct of two fields", s(df + d, "transparent", "(pub u8, pub u8);"), s(df + d, "transparent", "(pub u8);"))
    w("transparent", n + "transparent on a struct of no fields", s(df + d, "transparent", "();"), s(df + d, "transparent", "(pub u16);"))
    w("transparent", n + "transparent on a struct of named fields", s(df + d, "transparent", "{ pub a: u8 }"), s(df + d, "", "{ pub a: u8 }"))
    w("transparent", n + "transparent on an enum", e(d, "transparent", "A(u8)"), e(d, "", "A(u8)"))
    w("embed", n + "embed on a unit variant", INNER + e(d, "", "#[cbor(embed)] A, B(u8)"), INNER + e(d, "", "#[cbor(embed)] A(Ie), B(u8)"))
    w("embed", n + "embed on a struct variant", INNER + e(d, "", "#[cbor(embed)] A { x: u8 }, B(u8)"), INNER + e(d, "", "#[cbor(embed)] A(Ie), B(u8)"))
    w("embed", n + "embed on a tuple variant", INNER + e(d, "", "#[cbor(embed)] A(Ie, Ie), B(u8)"), INNER + e(d, "", "#[cbor(embed)] A(Ie), B(u8)"))
    w("embed", n + "embed in an internally tagged enum", INNER + e(d, 'tag = "t"', "#[cbor(embed)] A(In), B { x: u8 }"), INNER + e(d, 'tag = "t"', "A(In), B { x: u8 }"))
    w("tagged", n + "tuple variant in an internally tagged enum", e(d, 'tag = "t"', "A(u8, u8), B { x: u8 }"), e(d, 'tag = "t"', "A { a: u8, b: u8 }, B { x: u8 }"))
    w("tagged", n + "array variant in an internally tagged enum", e(d, 'tag = "t"', "#[cbor(as_array)] A { a: u8 }, B { x: u8 }"), e(d, 'tag = "t"', "A { a: u8 }, B { x: u8 }"))
    for what, bad in (("unknown attribute", "nosuch"), ("key that is a float", "tag = 1.5"), ("key that is a boolean", "tag = true"), ("key that is a character", "tag = 'c'"), ("key that is a byte string", 'tag = b"x"'),
                      ("key that is a negative number", "tag = -1"), ("key above 64 bits", "tag = 18446744073709551616")):
        w("keys", n + what, e(d, bad, "A { a: u8 }, B { x: u8 }"), e(d, "tag = 18446744073709551615", "A { a: u8 }, B { x: u8 }"))
    w("keys", n + "field key that is a boolean", s(df + d, "", "{ #[cbor(rename = true)] pub a: u8 }"), s(df + d, "", "{ #[cbor(rename = 1)] pub a: u8 }"))
    w("keys", n + "field key above 64 bits", s(df + d, "", "{ #[cbor(rename = 18446744073709551616)] pub a: u8 }"), s(df + d, "", "{ #[cbor(rename = 18446744073709551615)] pub a: u8 }"))
    w("keys", n + "unknown field attribute", s(df + d, "", "{ #[cbor(nosuch)] pub a: u8 }"), s(df + d, "", "{ #[cbor(optional)] pub a: u8 }"))
    w("keys", n + "unknown variant attribute", e(d, "", "#[cbor(nosuch)] A(u8)"), e(d, "", "#[cbor(rename = 2)] A(u8)"))
    w("fields", n + "field type without codec", "pub struct N;\n" + s(d, "" if d == E else "no_default", "{ pub a: N }"), "pub struct N;\n" + s(d, "" if d == E else "no_default", "{ pub a: u8 }"))
    w("fields", n + "union", "#[derive(%s)] pub union X { a: u8, b: u8 }" % d, "#[derive(%s%s)] pub struct X { a: u8, b: u8 }" % (df, d))

w("skipif", "skip_serializing_if in an array struct", s(E, "as_array", '{ #[cbor(optional, skip_serializing_if = "empty")] pub a: u8 }'), s(E, "", '{ #[cbor(optional, skip_serializing_if = "empty")] pub a: u8 }'))
w("skipif", "skip_serializing_if in a tuple struct", s(E, "", '(#[cbor(optional, skip_serializing_if = "empty")] pub u8, pub u8);'), s(E, "", "(pub u8, pub u8);"))
w("skipif", "skip_serializing_if in an array variant", e(E, "", '#[cbor(as_array)] A { #[cbor(optional, skip_serializing_if = "empty")] a: u8 }'), e(E, "", '#[cbor(as_array)] A { a: u8 }'))
w("untagged", "decoding an untagged enum", e(D, "untagged", "A(u8), B(String)"), e(E, "untagged", "A(u8), B(String)"))
w("missing", "two variants for a missing tag", e(D, 'tag = "t"', "#[cbor(missing)] A { x: u8 }, #[cbor(missing)] B { y: u8 }"), e(D, 'tag = "t"', "#[cbor(missing)] A { x: u8 }, B { y: u8 }"))
w("missing", "three variants, two of them for a missing tag", e(D, "tag = 1", "#[cbor(missing)] A { x: u8 }, C { z: u8 }, #[cbor(missing)] B { y: u8 }"), e(D, "tag = 1", "A { x: u8 }, C { z: u8 }, #[cbor(missing)] B { y: u8 }"))
w("fields", "default demanded of a struct without one", s(D, "", NM), s(D, "no_default", NM))

# the map marker
for what, t in (("array struct", s(E, "as_array", NM)), ("tuple struct", s(E, "", "(pub u8, pub u8);")), ("newtype struct", s(E, "", "(pub u8);")), ("unit struct", s(E, "", ";")),
                ("transparent struct", s(E, "transparent", "(pub u8);")), ("enum with a unit variant", e(E, "", "A, B(u8)")), ("enum of unit variants only", e(E, "", "A, B")),
                ("enum with a discriminant", e(E, "", "A = 1, B = 2")), ("enum with a skipped variant", e(E, "", "A(u8), #[cbor(skip)] B(u8)")),
                ("enum with an embedded variant", INNER + e(E, "", "A(u8), #[cbor(embed)] B(Ie)")), ("untagged enum", e(E, "untagged", "A(u8), B(String)")),
                ("untagged enum of struct variants", e(E, "untagged", "A { a: u8 }, B { b: u8 }")), ("internally tagged enum with a skipped variant", e(E, 'tag = "t"', "A { a: u8 }, #[cbor(skip)] B { b: u8 }")),
                ("enum without variants", e(E, "", ""))):
    w("marker", "map marker on " + what, t + "fn t() { as_map::<X>() }", t + "fn t() {}")
for what, t in (("Vec<u8>", "Vec<u8>"), ("Vec of pairs", "Vec<(u8, u8)>"), ("u8", "u8"), ("String", "String"), ("a generic value", "Value"), ("an option of a map", "Option<std::collections::BTreeMap<u8, u8>>"),
                ("BTreeSet", "std::collections::BTreeSet<u8>"), ("HashSet", "std::collections::HashSet<u8>"), ("unit", "()"), ("a pair", "(u8, u8)")):
    w("marker", "map marker on " + what, "fn t() { as_map::<%s>() }" % t, "fn t() { as_map::<std::collections::BTreeMap<u8, u8>>() }")
for what, t in (("struct", s(E, "", NM)), ("struct without fields", s(E, "", "{}")), ("generic struct", "#[derive(Encode)] pub struct X<T: Encode = u8> { pub a: T }\n"), ("enum of newtype variants", e(E, "", "A(u8), B(u8)")),
                ("enum of struct variants", e(E, "", "A { a: u8 }, B(u8)")), ("internally tagged enum", INNER + e(E, 'tag = "t"', "A { a: u8 }, B(In), C"))):
    w("marker+", "map marker on " + what, t + "fn t() { as_map::<X>() }\nstruct N; fn u() { as_map::<N>() }", t + "fn t() { as_map::<X>() }")
w("tagged", "newtype of something that is not a map in an internally tagged enum", e(E, 'tag = "t"', "A(u8), B { x: u8 }"), INNER + e(E, 'tag = "t"', "A(In), B { x: u8 }"))
w("tagged", "newtype of an array struct in an internally tagged enum", s(E, "as_array", NM).replace("X", "Y") + e(E, 'tag = "t"', "A(Y), B { x: u8 }"), s(E, "", NM).replace("X", "Y") + e(E, 'tag = "t"', "A(Y), B { x: u8 }"))
w("tagged", "newtype of an enum with a unit variant in an internally tagged enum", INNER + e(E, 'tag = "t"', "A(Ie), B { x: u8 }"), INNER + e(E, 'tag = "t"', "A(In), B { x: u8 }"))
w("tagged", "newtype of an enum with a skipped variant in an internally tagged enum", e(E, "", "A(u8), #[cbor(skip)] H(u8)").replace("X", "Y") + e(E, 'tag = "t"', "A(Y), B { x: u8 }"),
  e(E, "", "A(u8), H(u8)").replace("X", "Y") + e(E, 'tag = "t"', "A(Y), B { x: u8 }"))


def compiles(P, src, deny=""):
    d = tempfile.mkdtemp(prefix="wit")
    try:
        f = os.path.join(d, "wit.rs")
        open(f, "w").write(deny + PRE + src + "\n")
        a, skip = [], False
        for i, x in enumerate(P.rec["args"]):
            if skip:
                skip = False
                continue
            if x in ("--crate-name", "--out-dir") or x == "-C" or deny and x == "--cap-lints":
                skip = True
                continue
            if deny and x.startswith("--cap-lints="):
                continue
            if x.startswith(("--error-format", "--json", "--emit", "-Z")):
                continue
            a.append(f if x == "src/lib.rs" else x)
        a += ["--crate-name", "wit", "--out-dir", d, "--emit=metadata"]
        env = dict(os.environ)
        env.update(P.rec["env"])
        env.pop("CARGO_MAKEFLAGS", None)
        env["LD_LIBRARY_PATH"] = P.libdir
        p = subprocess.run(a, cwd=P.rec["cwd"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return p.returncode == 0, p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_error(out):
    l = [x.strip() for x in out.splitlines() if x.strip().startswith("error")]
    return l[0][:200] if l else out.strip()[:200]


def witness_job(P, i, deadline=None):
    group, name, bad, good = W[i]
    rep = J.Report("%s (%s)" % (name, group))
    ok, out = compiles(P, good)
    rep.paths += 1
    if ok:
        rep.decided += 1
    else:
        rep.violation("twin", "", "accepted program", "a program without the misuse '%s' is rejected: %s" % (name, first_error(out)), "derive macros", [good], name)
    ok, out = compiles(P, bad)
    rep.paths += 1
    if not ok:
        rep.decided += 1
        rep.samples.append("%s: %s" % (name, first_error(out)))
    else:
        rep.violation("misuse", "", "rejected program", "a program with the misuse '%s' compiles" % name, "derive macros", [bad], name)
    return rep
