"""Which analysis jobs decide which property, and which of their findings belong to it."""

RANGES = [(0x00, 0x7f), (0x80, 0x81), (0x82, 0x84), (0x85, 0x97), (0x98, 0x9f), (0xa0, 0xa1), (0xa2, 0xa3), (0xa4, 0xb7), (0xb8, 0xbf), (0xc0, 0xdf), (0xe0, 0xff)]
import corpus

W = "jobs_wire"


class Check:
    def __init__(self, jobs, select, rule, explain, assumptions=()):
        self.jobs, self.select, self.rule, self.explain = jobs, select, rule, explain
        self.assumptions = list(assumptions) + BASE


BASE = ["the standard library behaves as documented (its collections, iterators and conversions are modelled, not analysed)",
        "rustc's MIR of the analysed build (debug assertions and overflow checks on, 64-bit) is faithful to the source"]


STRICT = ((0xb8, 0xbf, 26, 4), (0xa6, 0xb7, 24, 8), (0x00, 0x7f, 4, 4), (0x80, 0x8b, 13, 13), (0x8c, 0x97, 25, 25), (0x98, 0x98, 27, 40), (0x9c, 0x9f, 6, 30),
          (0xa0, 0xa5, 7, 7), (0xc0, 0xdf, 4, 4), (0xe0, 0xff, 4, 4))


def strict(tier, secs=100):
    js = []
    for a, b, u, ut in STRICT:
        if a == 0xb8:
            js += [(W, "read_job", dict(mode="strict", lo=0xb8, hi=0xb8, unroll=26 if tier == "quick" else 30), 300), (W, "read_job", dict(mode="strict", lo=0xbc, hi=0xbf, unroll=4), secs)]
        elif a == 0xa6:
            js.append((W, "read_job", dict(mode="strict", lo=a, hi=b, unroll=u), 300))
        else:
            js.append((W, "read_job", dict(mode="strict", lo=a, hi=b, unroll=u if tier == "quick" else ut), secs))
    return js + any_length("strict", tier)


def any_length(mode, tier, secs=100):
    """Containers of any length (loop summaries), and some of fixed big lengths."""
    js = [(W, "read_job", dict(mode=mode, lo=h, hi=h, unroll=4, widen=True), secs) for h in (0x98, 0x99, 0x9a, 0x9b, 0xb8, 0xb9, 0xba, 0xbb)]
    js += [(W, "long_job", dict(mode=mode, major=4, n=n), secs) for n in (255, 256, 257, 600) + (() if tier == "quick" else (2000,))]
    js += [(W, "long_job", dict(mode=mode, major=5, n=n), secs) for n in (128, 130, 255, 258, 300) + (() if tier == "quick" else (600,))]
    return js


def lax(tier, secs=100):
    js = [(W, "read_job", dict(mode="lax", lo=a, hi=b, unroll=u), secs) for a, b, u in
          ((0x00, 0x7f, 4), (0x80, 0x97, 25), (0x98, 0x98, 27), (0x99, 0x9f, 3), (0xa0, 0xa3, 4), (0xa4, 0xa5, 6), (0xb8, 0xbf, 2), (0xc0, 0xdf, 4), (0xe0, 0xff, 4))]
    js += [(W, "read_job", dict(mode="lax", lo=a, hi=b, unroll=u, widen=True), secs) for a, b, u in ((0xa4, 0xaf, 3), (0xb0, 0xb7, 3), (0x9c, 0x9f, 3), (0xbc, 0xbf, 3))]
    return js + any_length("lax", tier)


def w_plain(tier, secs=100):
    """Heads and contents: maps come with their keys already in order."""
    js = [(W, "write_job", dict(variant=v), secs) for v in ("Unsigned", "Negative", "ByteString", "TextString", "Tag", "Simple")]
    js += [(W, "write_job", dict(variant="Array", nel=n), secs) for n in (0, 1, 2, 3)]
    js += [(W, "write_job", dict(variant="Array", nel=n, big=True), secs) for n in (22, 23, 24, 25, 255, 256, 257, 300) + (() if tier == "quick" else (1000, 4000))]
    js += [(W, "write_job", dict(variant="Array", widen=True), secs)]
    js += [(W, "write_job", dict(variant="Map", nel=n, big=True), secs) for n in (0, 1, 2, 3, 4, 5, 22, 23, 24, 25, 40, 255, 256, 257)]
    return js


def w_maps(tier, secs=100):
    return [(W, "write_job", dict(variant="Map", nel=n), 400) for n in ((3, 2, 1, 0) if tier == "quick" else (4, 3, 2, 1, 0))] + \
        [(W, "write_job", dict(variant="Map", nel=n, big=True), secs) for n in (4, 5, 8, 12, 24, 128, 257)]


def writer(tier, secs=100):
    js = [(W, "write_job", dict(variant=v), secs) for v in ("Unsigned", "Negative", "ByteString", "TextString", "Tag", "Simple")]
    js += [(W, "write_job", dict(variant="Array", nel=n), secs) for n in (0, 1, 2, 3)]
    js += [(W, "write_job", dict(variant="Map", nel=n), secs) for n in (3, 2, 1, 0)]
    return js


VARS = ("Unsigned", "Negative", "ByteString", "TextString", "Array", "Map", "Tag", "Simple")


def order(tier, secs=100):
    js = []
    N = 5 if tier == "quick" else 10
    big = [(23, 24), (24, 23), (24, 24), (255, 256), (256, 255), (257, 257)] + ([(1000, 1000)] if tier == "thorough" else [])
    for r in ("cmp", "partial_cmp", "eq"):
        js += [(W, "cmp_job", dict(root=r, va=a, vb=b), secs) for a in VARS for b in VARS if not a == b or a not in ("Array", "Map")]
        js += [(W, "cmp_job", dict(root=r, va=a, vb=a, nel=(i, j)), secs) for a in ("Array", "Map") for i in range(N) for j in range(N)]
        js += [(W, "cmp_job", dict(root=r, va=a, vb=a, nel=p), secs) for a in ("Array", "Map") for p in big]
    js += [(W, "clone_job", dict(v=v), secs) for v in VARS if v not in ("Array", "Map")]
    js += [(W, "clone_job", dict(v=v, nel=n), secs) for v in ("Array", "Map") for n in list(range(N)) + [24, 257]]
    return js


def limits(tier, secs=100):
    js = []
    L = lambda root, args, ref, refargs, kind, limit: js.append((W, "limit_job", dict(root=root, args=args, ref=ref, refargs=refargs, kind=kind, limit=limit), secs))
    rs, rl, wn = "vh::r_wire::read_strict", "vh::r_wire::read_lax", "vh::r_wire::write_nested"
    L("vh::r_wire::read", ["data"], rs, ["data", 127], "read", 127)
    L("vh::r_wire::write", ["x", "out"], wn, ["x", "out", 127], "enc", 127)
    for t in ("value", "opq", "opq1"):
        L("vh::r_builtin::top::from_slice_" + t, ["data"], rs, ["data", 64], "read", 64)
    L("vh::r_builtin::top::from_slice_lax_opq", ["data"], rl, ["data", 64], "lax", 64)
    L("vh::r_serde::from_slice_opq", ["data"], rs, ["data", 64], "read", 64)
    L("vh::r_builtin::top::to_vec_value", ["x"], wn, ["x", "out", 127], "enc", 127)
    L("vh::r_builtin::top::to_vec_opq", ["x"], wn, ["x", "out", 127], "enc", 127)
    L("vh::r_serde::to_vec_opq", ["&x"], wn, ["x", "out", 127], "enc", 127)
    return js


def tops(tier, secs=100):
    b, s = "vh::r_builtin::top::from_slice_", "vh::r_serde::from_slice_opq"
    return [(W, "top_job", dict(root=r, kind=k), secs) for r, k in ((b + "value", "own"), (b + "opq", "own"), (b + "opq1", "own"), (b + "lax_opq", "ownlax"), (s, "serde"))]


C = "jobs_codec"
SCALARS = ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "bool", "char", "string", "unit", "value", "bytes", "b0", "b1", "b4", "b32",
           "arr0", "arr1", "arr3", "opt", "opt1", "optvec", "tup1", "tup2", "tup3", "tup10")
SEQS = ("vec", "vec1", "vecvec", "bset", "hset")
MAPS = ("bmap", "hmap")
VVAR = ("Unsigned", "Negative", "ByteString", "TextString", "Tag", "Simple")
ALLMAPS = ("vh::r_builtin", "t_")


def hashed(t):
    return "all" if t in ("hset", "hmap") else None


def enc_jobs(mod, names, fn="enc", spec="enc", secs=100, norm="maps", sizes=lambda t: (None,)):
    return [(C, "out_job", dict(root="%s::%s::%s" % (mod, t, fn), spec=spec, n=n, norm=norm), secs) for t in names for n in sizes(t)]


def b_sizes(t):
    return (0, 1, 2, 3) if t in tuple("t_" + x for x in SEQS + MAPS) else (None,)


def builtin_names():
    return ["t_" + t for t in SCALARS + SEQS + MAPS]


def long_enc(tier):
    """Collections of many entries."""
    js = []
    for t, ns in (("t_vec", (24, 257)), ("t_vec1", (24, 257)), ("t_vecvec", (24, 257)), ("t_bset", (24, 257)), ("t_bmap", (24, 257)), ("t_hmap", (24, 257))):
        js += [(C, "out_job", dict(root="vh::r_builtin::%s::enc" % t, spec="enc", n=n, norm="maps"), 60) for n in ns + (() if tier == "quick" else (1000,))]
    return js


def long_rt(tier):
    return [(C, "out_job", dict(root="vh::r_builtin::%s::rt" % t, spec="rt", n=n, norm=hashed(t[2:])), 60)
            for t, ns in (("t_vec", (24, 257)), ("t_vec1", (24, 257)), ("t_vecvec", (24,)), ("t_bset", (24, 40)), ("t_bmap", (24, 40)), ("t_hmap", (24,))) for n in ns]


def long_dec(tier):
    js = []
    for fn in ("dec", "tdec"):
        for t, ns in (("t_vec", (24, 257)), ("t_vec1", (24, 257)), ("t_vecvec", (24, 257))):
            js += [(C, "dec_job", dict(root="vh::r_builtin::%s::%s" % (t, fn), strict_entry=fn == "tdec", variant="Array", n=n), 60) for n in ns]
        for t in ("t_bmap", "t_hmap"):
            js += [(C, "dec_job", dict(root="vh::r_builtin::%s::%s" % (t, fn), strict_entry=fn == "tdec", variant="Map", n=n, srt=True, norm=hashed(t[2:])), 60) for n in (4, 5)]
    return js


def b_enc(tier):
    js = enc_jobs("vh::r_builtin", builtin_names(), sizes=b_sizes)
    js += enc_jobs("vh::r_builtin", builtin_names(), "opt", "opt", sizes=b_sizes)
    js += [(C, "out_job", dict(root="vh::r_builtin::refs::" + t, spec="enc"), 60) for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "str")]
    js += twins(tier)
    return js + long_enc(tier)


def twins(tier):
    """Collections whose keys may have equal encodings although the keys differ."""
    return [(C, "out_job", dict(root="vh::r_builtin::twins::" + t, spec="enc", n=n, norm="maps"), 60) for t in ("bset", "hset", "bmap", "hmap") for n in (0, 1, 2)]


def b_rt(tier):
    return [(C, "out_job", dict(root="vh::r_builtin::%s::rt" % t, spec="rt", n=n, norm=hashed(t[2:])), 60) for t in builtin_names() for n in b_sizes(t)] + long_rt(tier)


def b_dec(tier):
    js = []
    for t in builtin_names():
        for fn in ("dec", "tdec"):
            kw = dict(root="vh::r_builtin::%s::%s" % (t, fn), strict_entry=fn == "tdec", norm=hashed(t[2:]))
            js += [(C, "dec_job", dict(kw, variant=v), 60) for v in VVAR]
            arr = range(0, 12) if t == "t_tup10" else range(0, 5)
            js += [(C, "dec_job", dict(kw, variant="Array", n=n), 60) for n in arr]
            js += [(C, "dec_job", dict(kw, variant="Map", n=n, norm=kw["norm"]), 60) for n in range(0, 4)]
    return js + long_dec(tier)


def b_dflt(tier):
    return [(C, "dflt_job", dict(root="vh::r_builtin::%s::dflt" % t), 60) for t in builtin_names()]


def b_empty(tier):
    js = []
    for t in ("e_u8 e_u16 e_u32 e_u64 e_u128 e_i8 e_i16 e_i32 e_i64 e_bool e_char e_string e_unit e_value e_bytes e_b4 e_vec e_arr1 e_opt e_tup1 e_tup2 e_tup3 "
              "e_bmap e_bset e_hmap e_hset r_str r_u8 r_u64 r_i64 r_u128").split():
        js += [(C, "out_job", dict(root="vh::r_builtin::ie::" + t, spec="is_empty", n=n), 60) for n in ((0, 1, 2) if t in ("e_vec", "e_bmap", "e_bset", "e_hmap", "e_hset") else (None,))]
    return js


def b_asmap(tier):
    js = []
    for t in ("bmap", "hmap"):
        for n in (0, 1, 2, 3):
            js.append((C, "out_job", dict(root="vh::r_builtin::asmap::" + t, spec="asmap", n=n, norm="entries"), 60))
            js.append((C, "out_job", dict(root="vh::r_builtin::asmap::%s_v" % t, spec="asmap_v", n=n, norm="maps"), 60))
    return js


DS = ("plain req ren opt allopt skip skipif with optwith arr arrskip arrwith tup new trans transreq unit empty unk arrunk gen nest").split()
DE = ("unit disc def mix unk one req tag tagmiss skip embed embedunit tagunit embedtag innertag").split()
DER = "vh::r_derive"
NF = {"ren": 4, "plain": 2, "opt": 3, "arr": 3, "tup": 3}


GEN = "vh::r_gen"


def d_names(structs=True, enums=True, one_way=False):
    """(module of the root functions, most fields) of each derived type."""
    js = [(DER + "::s_" + x, NF.get(x, 3)) for x in (DS if structs else ())] + [(DER + "::e_" + x, 3) for x in (DE if enums else ())]
    for n, d in corpus.G.items():
        if (structs if isinstance(d, corpus.S) else enums) and (one_way or d.dir == "both"):
            k = len(d.fields) if isinstance(d, corpus.S) else max([len(v.fields) for v in d.variants]) + (d.tag is not None)
            js.append((GEN + "::" + corpus.mod(n), max(2, k)))
    return js


def d_enc(tier, **k):
    ts = [t for t, _ in d_names(one_way=True, **k)]
    js = [(C, "out_job", dict(root="%s::%s" % (t, fn), spec=fn, norm="maps"), 100) for t in ts for fn in ("enc", "opt")]
    if k.get("enums", True):
        js.append((C, "out_job", dict(root="vh::r_derive::e_untag_enc", spec="enc", norm="maps"), 60))
    return js


def d_rt(tier, **k):
    return [(C, "out_job", dict(root=t + "::rt", spec="rt"), 100) for t, _ in d_names(**k)]


def d_dflt(tier, **k):
    return [(C, "dflt_job", dict(root=t + "::dflt"), 60) for t, _ in d_names(**k)]


NESTED = {"s_nest": (4, 1)}


def d_dec(tier, **k):
    js = [(C, "keyed_job", dict(root=t + "::dec"), 100) for t, _ in d_names(**k)]
    for t, n in d_names(**k):
        for fn in ("dec", "tdec"):
            kw = dict(root=t + "::" + fn, strict_entry=fn == "tdec")
            js += [(C, "dec_job", dict(kw, variant=v), 60) for v in VVAR]
            if t.rsplit("::", 1)[-1] in NESTED:
                kw["nested"] = NESTED[t.rsplit("::", 1)[-1]]
            if fn == "tdec" and (t.startswith(GEN) or t.endswith("::s_nest")):   # differs from dec in its first step only
                js += [(C, "dec_job", dict(kw, variant=v, n=i), 60) for v in ("Array", "Map") for i in (0, 1)]
                continue
            js += [(C, "dec_job", dict(kw, variant="Array", n=i), 60) for i in range(0, n + 3)]
            js += [(C, "dec_job", dict(kw, variant="Map", n=i), 100) for i in range(0, 3)]
            js += [(C, "dec_job", dict(kw, variant="Map", n=i, srt=True), 100 if i < 6 else 500) for i in range(2, n + 2) if i < 6 or tier == "thorough"]
    return js


SERDE = ("t_bool t_u8 t_u16 t_u32 t_u64 t_u128 t_i8 t_i16 t_i32 t_i64 t_i128 t_f32 t_f64 t_char t_string t_unit t_bytes t_opt t_vec t_tup2 t_arr2 "
         "s_named s_deny s_newt s_tup s_unit e_en t_bmap "
         "s_def s_opt s_skip s_nest s_mix s_empty s_tup1 s_newtopt s_trans e_fl s_skipif t_box t_arr0 t_tup1 t_optvec t_vecopt t_smap t_u8map t_bset t_vecvec s_opts s_topts e_opts").split()
SERDE_OUT = "s_coll o_flat o_int o_adj o_unt o_sq o_mp o_mq t_strref t_slice".split()
SERDE_STRUCTS = "s_def s_opt s_skip s_nest s_mix s_empty s_skipif s_opts".split()
SIZED = "s_coll t_vec t_bmap t_optvec t_vecopt t_smap t_u8map t_bset t_vecvec o_sq o_mp o_mq t_slice".split()
HINTS = dict(any="any", bool="any", i8="any", i64="any", u8="any", u64="any", f32="f32", f64="f64", char="char", str="any", string="any", bytes="any",
             byte_buf="any", option="option", unit="any", unit_struct="any", newtype="any", seq="seq", tuple="any", tuple_struct="any", map="map", struct="map",
             ident="any", ignored="any")
SR = "vh::r_serde"


def s_out(tier):
    return [(C, "out_job", dict(root="%s::%s::%s" % (SR, t, fn), spec=spec, n=n), 60) for t in SERDE + SERDE_OUT
            for fn, spec in (("enc", "senc"), ("rt", "srt")) if fn == "enc" or t in SERDE for n in ((0, 1, 2) if t in SIZED else (None,))]


def s_dec(tier):
    js = []
    for t in SERDE:
        kw = dict(root="%s::%s::dec" % (SR, t), serde=True, nested=(1, 1))
        js += [(C, "dec_job", dict(kw, variant=v), 60) for v in VVAR]
        js += [(C, "dec_job", dict(kw, variant="Array", n=n), 60) for n in range(0, 4)]
        two = dict(nested=(1, 0)) if t == "s_named" else dict(nested=(1, 0), keys="TextString") if t in SERDE_STRUCTS else {}
        js += [(C, "dec_job", dict(kw, variant="Map", n=n, **(two if n == 2 else {})), 60) for n in range(0, 3)]
    for h, spec in HINTS.items():
        kw = dict(root="%s::p_%s::dec" % (SR, h), serde="probe " + spec, nested=(1, 1))
        js += [(C, "dec_job", dict(kw, variant=v), 60) for v in VVAR]
        js += [(C, "dec_job", dict(kw, variant=v, n=n), 60) for v in ("Array", "Map") for n in range(0, 3)]
    return js


def ffi(tier):
    return [(W, "ffi_job", dict(root="vh::difffuzz::cbor_from_slice"), 60)]


def macros(tier):
    import jobs_macro
    js = []
    for r in jobs_macro.SPECS:
        ns = (0, 1, 2, 3, 4, 5) if r.endswith("destructure") else (0, 1, 2) if r.endswith(("from_arr", "from_map", "m_map_coll", "m_array_vec")) else (None,)
        js += [("jobs_macro", "macro_job", dict(root=r, n=n), 60) for n in ns]
    # many entries, with definite keys: every subset of the keys asked for, among few and among many others
    want = (1, 20, -3, "key")
    js += [("jobs_macro", "macro_job", dict(root=jobs_macro.M + "m_destructure", keys=([k for i, k in enumerate(want) if s >> i & 1], jobs_macro.fillers(lots))), 60) for s in range(16) for lots in (False, True)]
    return js


INTS = tuple("t_" + x for x in "u8 u16 u32 u64 u128 i8 i16 i32 i64 char".split())


def pick(js, names, inv=False):
    """Jobs about one of the named types."""
    return [j for j in js if (j[2]["root"].split("::")[2] in names) != inv]


def cat(*fs):
    return lambda tier: [j for f in fs for j in f(tier)]


def only_maps(f):
    return lambda tier: [j for j in f(tier) if j[2].get("major") == 5 or j[2].get("hi", 0) >= 0xa0 and j[2]["lo"] <= 0xbf]


def ints(tier):
    js = pick(b_dec(tier), INTS) + pick(b_enc(tier), INTS) + pick(b_rt(tier), INTS)
    js += [(C, "out_job", dict(root="vh::r_builtin::refs::" + t, spec="enc"), 60) for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128")]
    return js


def builtins(tier):
    return pick(b_dec(tier), INTS, True) + [j for j in pick(b_enc(tier), INTS, True) if j[2]["root"].split("::")[2] != "refs" or j[2]["root"].endswith("str")] + pick(b_rt(tier), INTS, True) + b_asmap(tier)


def opts(tier):
    return [j for j in b_enc(tier) + d_enc(tier) if j[2]["spec"] == "opt"]


def defaults(tier):
    nulls = [j for j in d_dec(tier) + b_dec(tier) if j[2].get("variant") == "Simple"]
    optional = [j for j in d_dec(tier) if j[2].get("variant") == "Map" and j[2]["root"].split("::")[2] in ("s_opt", "s_allopt", "s_skipif", "s_req", "s_plain") and j[2].get("n", 0) <= 1]
    return b_dflt(tier) + d_dflt(tier) + b_empty(tier) + opts(tier) + nulls + optional + d_null(tier)


def d_null(tier):
    return [(C, "null_job", dict(root=t + "::dec"), 100) for t, _ in d_names()]


def d_struct_out(tier):
    return d_enc(tier, enums=False) + d_rt(tier, enums=False)


def d_struct_dec(tier):
    return d_dec(tier, enums=False)


def d_enum(tier):
    return d_dec(tier, structs=False) + d_enc(tier, structs=False) + d_rt(tier, structs=False) + d_dflt(tier, structs=False)


def asmap(tier):
    js = [("jobs_codec", "asmap_job", dict(root=t + "::enc"), 60) for t, _ in d_names(one_way=True)]
    js += [("jobs_codec", "asmap_job", dict(root="vh::r_builtin::%s::enc" % t, n=n), 60) for t in builtin_names() for n in b_sizes(t)]
    return js + [("jobs_codec", "asmap_job", dict(root="vh::r_derive::e_untag_enc"), 60)] + b_asmap(tier)


def misuse(*groups):
    import jobs_misuse as M
    return lambda tier: [("jobs_misuse", "witness_job", dict(i=i), 100) for i, x in enumerate(M.W) if x[0] in groups]


def hashes(tier):
    names = ["t_hset", "t_hmap", "t_bset", "t_bmap"]
    return [j for j in b_enc(tier) if j[2]["root"].split("::")[2] in names] + twins(tier) + w_maps(tier)


def anyk(*kinds):
    return lambda v, r: v["kind"] in kinds


def readonly_nest(v, r):
    return v["kind"] in ("delta", "limit") or v["why"] == "nesting limit exceeded" or (v["kind"] in ("accept", "reject") and "nest" in v["why"])


L = "jobs_lint"


def effects(tier):
    import jobs_misuse as M
    js = [(L, "unsafe_job", dict(manifest="/repo/Cargo.toml", features=("serde",)), 200), (L, "unsafe_job", dict(manifest="/repo/value/Cargo.toml"), 200)]
    js += [(L, "lint_job", dict(crate="oasis_cbor", least=60), 100), (L, "lint_job", dict(crate="oasis_cbor_value", least=20), 100), (L, "lint_job", dict(crate="vh", under="vh::r_derive", least=50), 100), (L, "lint_job", dict(crate="vh", under="vh::r_gen", least=100), 100)]
    return js + [(L, "emitted_job", dict(i=i), 100) for i, x in enumerate(M.W) if x[0] != "marker"]


KEYS = ("map keys not ascending", "trailing data", "nesting limit exceeded")
PANICS = anyk("panic")


def in_order(v):
    """Findings about the comparison the strict reader relies on."""
    return v["kind"] in ("wrong", "panic") and v["key"].startswith(("cmp of ", "partial_cmp of ", "eq of "))


ANY = lambda v, r: v["kind"] != "cast"   # conversions to the pointer width are the subject of C26 alone
READ_NOTE = "nested items are covered by induction over the reader's own recursion (contract of the recursive call); containers of any announced length by induction over the reader's loop, generalised together with the specification, besides following short ones entry by entry; a loop that cannot be generalised is reported undecided beyond the length followed"
LEAF = "user-defined leaf types obey the leaf contract: decoding their encoding gives them back, and it is neither null nor undefined"

CHECKS = {
    "C01": Check(w_plain, lambda v, r: v["kind"] in ("wrong", "reject", "panic") or v["kind"] == "accept" and v["why"] != "nesting limit exceeded",
                 "on every path through the writer the appended bytes equal the shortest-form head (major type and argument) followed by the content",
                 "abstract interpretation of the writer's MIR, for each kind of value with symbolic numbers, strings and nested items, compared path by path with an encoding table written from RFC 8949 4.2.1",
                 ["nested items are covered by induction over the writer's own recursion"]),
    "C02": Check(w_maps, lambda v, r: v["kind"] in ("wrong", "reject", "panic") or v["kind"] == "accept" and v["why"] != "nesting limit exceeded",
                 "the entries of a written map are in ascending order of their encoded keys, none is lost or changed, and two equal keys make writing fail",
                 "abstract interpretation of the writer's MIR over every relative order of the encoded keys of maps of up to 3 (thorough: 4) entries, and over ordered maps of more",
                 ["nested items are covered by induction over the writer's own recursion"]),
    "C03": Check(strict, lambda v, r: v["kind"] == "accept" and v["why"] not in KEYS,
                 "every path of the strict reader that returns Ok has read an item that is well-formed, in shortest form, of definite length, with valid UTF-8 and without floats or unassigned simple values",
                 "abstract interpretation of the strict reader's MIR over all first bytes and symbolic inputs of any length, compared path by path with a table-driven reading of RFC 8949", [READ_NOTE]),
    "C04": Check(cat(only_maps(strict), tops, order, lambda tier: [j for j in strict(tier) if j[2].get("lo") in (0, 0xe0, 0x80, 0xc0)]), lambda v, r: v["kind"] == "accept" and v["why"] in ("map keys not ascending", "trailing data") or in_order(v),
                 "a strict read that succeeds has seen strictly ascending keys in every map and has used up the whole input",
                 "abstract interpretation of the strict reader's MIR over symbolic keys in every relative order, and of the public entry points down to the reader", [READ_NOTE]),
    "C05": Check(cat(strict, tops, order), lambda v, r: in_order(v) or v["kind"] in ("wrong", "reject", "panic") and v["why"] != "nesting limit exceeded",
                 "every path that must succeed returns exactly the value its bytes denote",
                 "abstract interpretation of the strict reader's MIR over all first bytes and symbolic inputs, results compared structurally with the denoted value", [READ_NOTE]),
    "C06": Check(lambda tier: limits(tier) + strict(tier) + lax(tier) + w_plain(tier), lambda v, r: readonly_nest(v, r),
                 "the remaining depth goes down by exactly one per level at every recursive call, a negative remainder always fails, a non-negative one never does for that reason, and each entry point starts with its documented limit",
                 "abstract interpretation: differences of all settings between entry and recursive call, comparison of entry settings with a reference call, and outcome under a symbolic limit", [READ_NOTE]),
    "C07": Check(lambda tier: strict(tier) + lax(tier) + b_dec(tier) + d_dec(tier) + s_dec(tier) + tops(tier) + b_dflt(tier) + d_dflt(tier), PANICS,
                 "no path of any decoder reaches a panic: overflow, out-of-range index, failed unwrap, unreachable code",
                 "abstract interpretation of the MIR of readers, built-in, derived and serde decoders with debug assertions and overflow checks kept in", [READ_NOTE, LEAF]),
    "C08": Check(lambda tier: strict(tier) + lax(tier), anyk("alloc"),
                 "every request for memory on a reader path is at most %d elements or at most the length of the input" % 4096,
                 "abstract interpretation of the reader's MIR: every allocation request (with_capacity, reserve, resize, from_elem, growth of a collection) is recorded with its size and bounded under the path's facts", [READ_NOTE]),
    "C09": Check(lax, lambda v, r: v["why"] != "nesting limit exceeded" and v["kind"] in ("accept", "reject", "wrong", "panic"),
                 "every path of the non-strict reader has the outcome and the value the list of relaxations gives it",
                 "abstract interpretation of the non-strict reader's MIR over all first bytes and symbolic inputs, compared with the table used for the strict reader minus the listed relaxations", [READ_NOTE]),
    "C10": Check(order, ANY,
                 "comparison of values equals the comparison of their canonical encodings, for every pair of kinds, and equality and cloning agree with it",
                 "abstract interpretation of cmp, partial_cmp, eq and clone over all pairs of kinds with symbolic payloads; arrays and maps of every pair of lengths below 5 (thorough: 10), and larger pairs up to 257 (thorough: 1000) entries",
                 ["nested values are covered by induction over the comparison's own recursion"]),
    "C11": Check(ints, ANY,
                 "each integer codec maps every number to its exact value and every value that does not denote a number of the type to an error",
                 "abstract interpretation of the integer codecs over the whole 64-bit and 128-bit ranges (intervals), every kind of value, and all string lengths"),
    "C12": Check(builtins, ANY,
                 "each codec produces the specified value, decodes exactly the specified values and gives every one of them back",
                 "abstract interpretation of the codecs of the standard types with uninterpreted element types, containers of 0 to 4 entries", [LEAF]),
    "C13": Check(defaults, ANY,
                 "defaults, emptiness tests and omission agree with each other for every type",
                 "abstract interpretation of the default, emptiness, omission and null-decoding entry points of every built-in and derived type, and of decoding derived types with null, undefined or missing content in every field position", [LEAF]),
    "C14": Check(d_struct_out, ANY,
                 "each derived struct encodes as its attributes say and decodes back to itself",
                 "abstract interpretation of the code the derive macros generate for a corpus of structs covering every attribute and combination the macros distinguish, fields uninterpreted", [LEAF]),
    "C15": Check(d_struct_dec, ANY,
                 "each derived struct decodes from exactly the values its attributes allow",
                 "abstract interpretation of the generated decoders over every kind of value, maps of every key assignment up to two entries, ordered maps up to one more than the fields, maps with the known keys at every place among unknown ones, arrays up to two more than the fields", [LEAF]),
    "C16": Check(d_enum, ANY,
                 "each derived enum encodes as its attributes say and decodes from exactly those encodings",
                 "abstract interpretation of the code generated for a corpus of enums covering every attribute, over every kind of value, maps and arrays of every shape up to the bound", [LEAF]),
    "C17": Check(misuse("attrs", "transparent", "embed", "tagged", "keys", "fields", "skipif", "untagged", "missing"), ANY,
                 "each program with a misuse of the derive macros is rejected by the compiler, and the same program without it is accepted",
                 "compile-fail witnesses compiled against the macros built from the current tree, each paired with a compiling twin"),
    "C18": Check(cat(asmap, misuse("marker", "marker+")), ANY,
                 "whatever implements the map marker encodes as a map on every path",
                 "abstract interpretation of the encoders of every corpus type for which the trait solver finds the marker; compile-fail witnesses for the shapes that must not have it", [LEAF]),
    "C19": Check(hashes, ANY,
                 "the encoding of a collection does not depend on the order in which it is iterated",
                 "abstract interpretation of the encoders of hash collections under an arbitrary iteration order and of the map writer under every order of its entries", [LEAF]),
    "C20": Check(lambda tier: s_out(tier) + s_dec(tier) + tops(tier), lambda v, r: "r_builtin" not in v["key"],
                 "each serde data type is written as specified, read from exactly the specified values, and given back",
                 "abstract interpretation of the serializer, the deserializer and serde's own derived code over every kind of value with uninterpreted fields: a corpus of data types, field attributes and enum representations, lists and maps of unknown length, and a recording visitor under every deserialization hint", [LEAF]),
    "C21": Check(lambda tier: w_plain(tier) + w_maps(tier) + strict(tier) + order(tier), lambda v, r: v["kind"] in ("wrong", "reject", "panic"),
                 "writer and strict reader realise the same table of encodings, one in each direction",
                 "abstract interpretation of both against the same encoding table: the writer produces exactly the tabulated bytes, the reader returns exactly the tabulated value for them", [READ_NOTE]),
    "C22": Check(lambda tier: w_plain(tier) + w_maps(tier) + b_enc(tier) + d_enc(tier) + s_out(tier), PANICS,
                 "no path of any encoder reaches a panic",
                 "abstract interpretation of the writer and of built-in, derived and serde encoders with overflow checks kept in",
                 [LEAF, "Negative holds numbers between -2^64 and -1, as its documentation demands", "to_vec panics on values that cannot be written (duplicate keys, nesting): documented"]),
    "C23": Check(effects, ANY,
                 "no function of the libraries, nor code generated by the macros, is unsafe or reaches files, network, environment, clock, threads, shared or global mutable state, randomness or addresses",
                 "effect lint over the MIR of every function of the two libraries and of the derive output for the corpus (calls, statics, thread locals, casts), and compilation of the libraries and of macro uses with unsafe code forbidden"),
    "C24": Check(ffi, ANY,
                 "the exported function returns 0 exactly on the paths where the library decodes the bytes, else 1",
                 "abstract interpretation of the exported function over symbolic inputs down to the reader's contract"),
    "C25": Check(macros, ANY,
                 "each macro and conversion builds or extracts exactly the specified value",
                 "abstract interpretation of one use of every macro and conversion with symbolic operands"),
    "C26": Check(lambda tier: strict(tier) + lax(tier) + w_plain(tier) + macros(tier) + [j for j in order(tier) if j[2].get("root") == "cmp" and not j[2].get("nel")] + ints(tier) + pick(b_dec(tier) + b_enc(tier), ("t_bool", "t_str", "t_string", "t_vu8", "t_b4", "t_vec", "t_tup2")) + pick(s_dec(tier) + s_out(tier), tuple("t_" + x for x in "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 char bool string bytes vec".split())), anyk("cast"),
                 "no number taken from the input is converted to the pointer width before it is known to be at most the input's length or to fit 32 bits, nor accepted only because it fits a 64-bit pointer; the same for the numbers that codecs, helpers, comparison and writer are given",
                 "abstract interpretation of the MIR of readers, writer, comparison, helpers and number codecs: every conversion to usize or isize, and every shift, sum and product computed in that width on reader paths, with the interval and the path facts of its operand", [READ_NOTE]),
}


def all_of(name, f):
    CHECKS[name] = Check(f, ANY, "", "")


for k, f in {"ALLR": strict, "ALLL": lax, "ALLO": order, "ALLN": limits, "ALLT": tops, "ALLW": cat(w_plain, w_maps), "MA": macros, "SO": s_out, "SD": s_dec, "DN": d_enc, "DR": d_rt, "DD": d_dec,
             "DF": d_dflt, "DZ": d_null, "BE": b_enc, "BR": b_rt, "BD": b_dec, "BF": b_dflt, "BI": b_empty, "BM": b_asmap}.items():
    all_of(k, f)
