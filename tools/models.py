"""Bounds of the exhaustive models (see DESIGN.md): alphabets, options, sizes."""
def c(s): return [ord(x) for x in s]
def num(i): return {"t": "num", "neg": False, "d": [i] if i else [], "e": 0}
def st(s): return {"t": "str", "s": c(s)}
def o(d=",", n=2, fold=False, fd=-1): return dict(d=ord(d), n=n, fold=fold, fd=fd)

def lines(bodies, indents, mx, prefix=(), n=2, ex=False):
    return dict(bodies=[c(b) for b in bodies], indents=indents, max=mx + len(prefix), n=n, ex=ex,
                prefix=[c(p) for p in prefix])
def values(scalars, keys, mx, opts, depth=5):
    return dict(scalars=scalars, keys=[c(k) for k in keys], max=mx, depth=depth, opts=opts,
                nodots=all("." not in k for k in keys))
def chars(alphabet, mx, kind, pre="", delims=",|\t"):
    return dict(alphabet=c(alphabet), max=mx, kind=kind, pre=c(pre), delims=c(delims))

STRUCT = ["a: 1", "b:", "- x", "-", "- a: 1", "a[2]:", "b[1]{x}:", "5", "c[2]: 1,2", ""]
ITEMS = ["- x", "- a:", "- [1]:", "- [1]: y", "- b[1]:", "- b[1]{x}:", "5", "c: 1", "c:"]
COUNTS = ["- x", "- y: 1", "- b[1]:", "- [1]:", "- [2]: 1", "- b[1]: 1,2", "z: 1", "5", "5,6"]
STRICT = ["a: 1", "b:", "- x", "x", "c[1]:", "\ta: 1", "", "a: \"q", "a: \"\\x\""]
PATHS = ["a.b: 1", "a.b:", "a: 2", "a.c: 3", "\"a.b\": 4", "b: 5", "a:", "a[1]:", "- a.b: 6", "a.b[1]: 7"]
DELIMS = ["a[2|]: 1|2,3", "a[2]: 1,2|3", "- [2\t]: 1\t2,3", "- [2]: 1,2", "- x[1|]{p|q}:", "1|2,3", "1,2", "b: 1|2"]
DELIMS2 = ["a[1|]{x|y}:", "a[1]{x,y}:", "a[1]{x}:", "b[1|]:", "1|2,3", "1,2|3", "- 1|2", "- c[2]: 1|1,2"]
WIDE = ["a: 1", "b:", "- x", "- a: 1", "- c:", "d[1]:", "- d[1]:", "- [1]:", "e[1]{x}:", "- e[1]{x}:", "5", ""]
BLANKS = ["a: ", "b[1]: ", "- x", "- c: ", "-  y ", "d[1]{x}: ", "5 ", "e:  6"]
KEYLESS = ["a:", "-", "[1]:", "[2]: 1,2", "[1]{x}:", "- 1", "1", "b: 1", "- b: 1", "null"]
SAME = ["a[1]:", "- a[1]:", "- b:", "- 1", "- c: 1", "-", "c: 1", "a[1]{x}:", "1", "[1]:"]
def lift(x):
    if isinstance(x, str): return c(x)
    return x
def T(k, **kw): return dict(c=k, **{a: lift(b) for a, b in kw.items()})
def Y(y, **kw): return dict(y=y, **kw)
def serde(leaves, names, mapkeys, mx, kinds, opts, types):
    return dict(leaves=leaves, names=[c(x) for x in names], mapkeys=mapkeys, max=mx, kinds=kinds, opts=opts, types=types)
X, ONE = st("x"), num(1)

KINDS = ["some", "newstruct", "seq", "tuple", "tuplestruct", "map", "struct", "newvar", "tuplevar", "structvar"]
def f64(neg, d, e): return T("f64", n={"t": "num", "neg": neg, "d": d, "e": e})
LEAVES = [T("num", n=ONE), T("str", s="x"), T("none"), T("unitvar", s="V")]
ODDLEAVES = [T("bool", b=True), T("char", s=":"), T("unit"), T("unitstruct"), T("nan"), T("bytes", x=[0, 200]), T("fail"), f64(True, [1, 5], -1),
             f64(False, [1], 20), T("num", n={"t": "num", "neg": False, "d": [3], "e": 2}), T("num", n={"t": "num", "neg": True, "d": [1, 2, 9], "e": 0}),
             T("f32", n={"t": "num", "neg": False, "d": [5], "e": -1}, m={"t": "num", "neg": False, "d": [5], "e": -1}), T("str", s=""), T("str", s="1")]
ODDKEYS = [T("bool", b=False), T("char", s="-"), T("unit"), T("nan"), f64(False, [2, 5], -1), T("unitvar", s="V"), T("some", x=T("num", n=ONE)),
           T("newstruct", x=T("str", s="a.b")), T("seq", a=[]), T("fail"), T("num", n={"t": "num", "neg": True, "d": [5], "e": 0})]
OPT = Y("option", x=Y("any"))
TYPES = ([Y("int", w=w) for w in ("u8", "i8", "i128", "u128")] + [Y("f64"), Y("f32"), Y("bool"), Y("char"), Y("string"), Y("unit"), Y("unitstruct"), Y("any"), Y("ignored"), OPT,
         Y("vec", x=Y("any")), Y("vec", x=OPT), Y("vec", x=Y("int", w="u16")), Y("tuple", a=[Y("any")]), Y("tuple", a=[Y("any"), OPT]), Y("tuplestruct", a=[Y("any"), Y("ignored")]), Y("newtype", x=Y("any")),
         Y("map", kt=Y("string"), x=Y("any")), Y("map", kt=Y("int", w="u8"), x=Y("any")), Y("map", kt=Y("bool"), x=Y("any")), Y("map", kt=Y("char"), x=OPT),
         Y("struct", k=[c("a")], a=[Y("any")]), Y("struct", k=[c("b"), c("a")], a=[OPT, Y("any")]), Y("struct", k=[], a=[]), Y("struct", k=[c("a")], a=[Y("struct", k=[c("a")], a=[OPT])]),
         Y("enum", k=[c("a"), c("b"), c("V")], a=[Y("vnew", x=Y("any")), Y("vtuple", a=[Y("any"), Y("any")]), Y("vunit")]),
         Y("enum", k=[c("a"), c("x")], a=[Y("vstruct", k=[c("a")], a=[OPT]), Y("vunit")]), Y("vec", x=Y("struct", k=[c("a")], a=[Y("int", w="u8")]))])

def bulk_model(thorough):
    A = lambda *a: {"t": "arr", "a": list(a)}
    def O(**kw): return {"t": "obj", "k": [c(k) for k in kw], "v": list(kw.values())}
    units = [ONE, num(0), st(""), X, st("a,b"), st("1"), st("-"), st("q\"\\\n"), st("\u00e9 "), st("true"), st("1e"), st(":|"), {"t": "null"}, {"t": "bool", "b": True},
             A(), A(ONE), A(ONE, X), A(A(ONE), A()), A(O(p=ONE), O(p=X)), O(), O(p=ONE), O(p=ONE, q=st("a|b")), O(p=A()), O(p=O()), O(p=A(ONE, st("x,y")), q=ONE),
             O(p=A(O(r=ONE, s=X), O(s=ONE, r=X))), O(p=O(r=ONE), q=A(O(r=A()))), A(O(p=ONE, q=X), O(q=ONE, p=X)), A(O(p=A(ONE)), ONE)]
    odds = [X, st("a,b"), O(p=X), A(), O(p=A())]
    return dict(units=units, odds=odds, max=5 if thorough else 4, opts=[o(), o("|", 4), o("\t", 1)] + ([o(",", 3), o("|", 8)] if thorough else []))

def io_models(thorough):
    def b(*xs): return [list(x.encode() if isinstance(x, str) else x) for x in xs]
    mx = 6 if thorough else 4
    good = b("a: 1", "\u00e9: \u6f22", "a[2]: x,\U0001f600")
    odd = b("", b"a: \xff", b"a: \xc3", b"\xe2\x82", b"a: 1\n  b: \xf0\x9f\x98\x80", "a[2]: 1", "a: \"\u00e9", b"\xed\xa0\x80", "k:\n  - \u00e9\n  - 2")
    return [dict(docs=b("a: 1", '"\u00e9": \u6f22', "a[2]: x,\U0001f600", ""), sizes=[1, 2, 5], max=mx, dir="w"),
            dict(docs=good, sizes=[1, 2, 5], max=mx, dir="r"), dict(docs=odd, sizes=[1, 2, 3], max=mx, dir="r")]

JTOK = ["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null", " "]
JTOK2 = ["}", "[", "]", ",", ":", "\"a\"", "-0", "1.50", "\n", "{\"a\":[]", "{\"b\":\"x,y\"}", "\"\\u00e9\\n\""]
JCHARS = ["\"", "\\", "u", "0", "n", "\u00e9", "\n", "/", "D83D", "\\uDE00"]
def jsons(tokens, mx, pre=""):
    return dict(tokens=[c(t) for t in tokens], max=mx, pre=c(pre), opts=[o(), o("|"), o("\t")])

# property -> [(module, replay kind, config, what to compare, quick?)]
def models(pid, thorough):
    t = thorough
    M = {
    "C01": [("MCValues", "values", values([ONE, X], "ab", 7 if t else 5, [o(), o("|", 4)]), "rt"),
            ("MCValues", "values", values([X], "a", 9 if t else 7, [o("\t", 1), o(",", 3)]), "rt")],
    "C02": [("MCValues", "values", values([ONE], ["a", "b", "x y"], 6 if t else 5, [o(fold=True), o(fold=True, fd=2), o("|", fold=True, fd=3)]), "rt,expand"),
            ("MCValues", "values", values([ONE], ["a", "b"], 8 if t else 6, [o(fold=True), o(fold=True, fd=3, n=1)]), "rt,expand")],
    "C03": [("MCValues", "values", values([ONE, X], "ab", 7 if t else 5, [o(), o("|", 4)]), "enc"),
            ("MCValues", "values", values([X], "a", 9 if t else 7, [o("\t", 1), o(",", 3)]), "enc")],
    "C04": [("MCChars", "str", chars("a 1-:\".\\[e+,|\ntn", 3 if t else 2, "str"), "enc,rt"),
            ("MCChars", "str", chars("tf01.e-", 4 if t else 3, "str", delims=",|"), "enc,rt"),
            ("MCChars", "str", chars("a \x00\x1f\x7f\u00a0\u2028\u00e9\u6f22\U0001f600\u0085_.-@#/{]", 3 if t else 2, "str"), "enc,rt")],
    "C05": [("MCNums", "nums", dict(digits=[0, 1, 5, 9], max=5 if t else 3, lo=-30 if t else -24, hi=30 if t else 24), "enc,rt"),
            ("MCNums", "nums", dict(digits=list(range(10)), max=3 if t else 2, lo=-8, hi=20), "enc,rt")],
    "C06": [("MCChars", "tok", chars("01-+.eE", 5 if t else 4, "tok"), "dec"),
            ("MCChars", "tok", chars("\"\\nu01 a/", 5 if t else 4, "tok", pre="\""), "dec"),
            ("MCChars", "tok", chars("truefalsn ", 4 if t else 3, "tok"), "dec")],
    "C07": [("MCValues", "bump", values([ONE], "ab", 5 if t else 4, [o(), o("|", 4)]), "dec"),
            ("MCValues", "bump", values([X], "a", 8 if t else 6, [o(), o("\t", 1)]), "dec"),
            ("MCLines", "lines", lines(COUNTS, [2, 4, 6], 4 if t else 3, ["a[2]:"]), "dec"),
            ("MCLines", "lines", lines(COUNTS, [0, 2, 4], 4 if t else 3, ["[2]:"]), "dec"),
            ("MCLines", "lines", lines(["1,2", "3,4", "5", "1,2,3", "b: 1", "- x", "1|2"], [0, 2, 4], 4 if t else 3, ["a[2]{x,y}:"]), "dec"),
            ("MCLines", "lines", lines(COUNTS, [4, 6, 8], 3 if t else 2, ["a[1]:", "  - b[2]:"]), "dec"),
            ("MCLines", "lines", lines(["1", "2", "c: 1", "- x"], [2, 4, 6], 4 if t else 3, ["a[1]:", "  - b[2]{x}:"]), "dec"),
            ("MCLines", "lines", lines(KEYLESS, [2, 4, 6], 4 if t else 3, ["a:"]), "dec"),
            ("MCLines", "lines", lines(SAME, [2, 4, 6], 4 if t else 3, ["r[2]:"]), "dec")],
    "C08": [("MCLines", "lines", lines(STRICT, [0, 1, 2, 4], 4 if t else 3), "dec"),
            ("MCLines", "lines", lines(["- x", "5", "", "- y: 1", "c: 1", "c:", "x"], [0, 2, 4], 5 if t else 4, ["a[2]:"]), "dec"),
            ("MCLines", "lines", lines(["1,2", "3,\"q", "", "c: 1", "\"\\q\",1"], [0, 2, 3, 4], 4 if t else 3, ["a[2]{x,y}:"]), "dec"),
            ("MCLines", "lines", lines(STRICT, [0, 3, 4, 8], 3 if t else 2, n=4), "dec"),
            ("MCLines", "lines", lines(KEYLESS, [0, 2, 4], 4 if t else 3), "dec"),
            ("MCLines", "lines", lines(["a[1]{x}: 1", "a[1]: 1", "[1]{x}: 1", "- [1]{x}: 1", "- a[1]{x}: 1", "1", "b: 1", "[1]: 1"], [0, 2, 4], 4 if t else 3), "dec")],
    "C09": [("MCChars", "doc", chars("a:[1]\n -\"{},|@\u00e9\\", 5 if t else 4, "doc"), "dec"),
            ("MCChars", "doc", chars("1\n -\"}:\u6f22,\\", 5 if t else 4, "doc", pre="a[1]"), "dec"),
            ("MCChars", "doc", chars("\n -\"},:|@a", 4 if t else 3, "doc", pre="a[1]{x"), "dec"),
            ("MCChars", "doc", chars("\n -\":[1]a@\t\r", 5 if t else 4, "doc", pre="- "), "dec")],
    "C10": [("MCLines", "lines", lines(WIDE, [0, 2, 4], 4 if t else 3), "modes"),
            ("MCLines", "lines", lines(PATHS, [0, 2], 4 if t else 3, ex=True), "modes"),
            ("MCLines", "lines", lines(STRICT, [0, 1, 2, 4], 4 if t else 3), "modes"),
            ("MCLines", "lines", lines(KEYLESS, [0, 2, 4], 4 if t else 3), "modes")],
    "C11": [("MCLines", "lines", lines(PATHS, [0, 2, 4], 4 if t else 3, ex=True), "dec"),
            ("MCLines", "lines", lines(["a.b.c: 1", "a.b: 2", "a: 3", "a.b.d: 4", "\"a.b\": 5", "a.x y: 6", "b.a: 7"], [0], 5 if t else 4, ex=True), "dec"),
            ("MCLines", "lines", lines(["- a.b: 1", "- a: 1", "a.c: 3", "\"a.c\": 4", "a:", "c.d: 5", "a.c:"], [2, 4, 6], 4 if t else 3, ["r[2]:"], ex=True), "dec"),
            ("MCLines", "lines", lines(PATHS, [0, 2], 3, ex=False), "dec")],
    "C12": [("MCValues", "values", values([ONE], ["a", "b", "a.b", "x y"], 5 if t else 4, [o(fold=True), o(fold=True, fd=2), o(fold=True, fd=1), o()]), "enc"),
            ("MCValues", "values", values([ONE], ["a", "b"], 7 if t else 5, [o(fold=True), o(fold=True, fd=3), o(fold=True, fd=0)]),"enc"),
            ("MCValues", "values", values([], ["a", "b", "c"], 8 if t else 6, [o(fold=True), o(fold=True, fd=3)]), "enc")],
    "C13": [("MCSerde", "serde", serde(LEAVES, "ab", [T("str", s="a"), T("num", n=num(7)), T("none")], 4 if t else 3, KINDS, [o(), o("|", 4, True)], []), "enc"),
            ("MCSerde", "serde", serde(ODDLEAVES, "a", ODDKEYS, 3 if t else 2, KINDS, [o(), o("\t", 1)], []), "enc"),
            ("MCSerde", "serde", serde([T("num", n=ONE)], "ab", [T("str", s="a"), T("str", s="b")], 5 if t else 4, ["struct", "map", "seq", "newvar", "structvar"], [o(), o(fold=True), o(fold=True, fd=2)], []), "enc")],
    "C14": [("MCSerde", "serde", serde(LEAVES, "ab", [T("str", s="a"), T("num", n=num(7)), T("bool", b=True)], 4 if t else 3, KINDS, [o()], TYPES), "typed"),
            ("MCSerde", "serde", serde(ODDLEAVES, "a", ODDKEYS, 3 if t else 2, KINDS, [o("|")], TYPES), "typed"),
            ("MCSerde", "serde", serde([T("num", n=ONE), T("none")], "ab", [T("str", s="a")], 5 if t else 4, ["struct", "seq", "some", "structvar"], [o(n=4)], TYPES), "typed")],
    "C15": [("MCValues", "values", values([ONE], "ab", 6 if t else 5, [o(), o("|", 4)]), "enc,rt"),
            ("MCChars", "str", chars("a 1-:\".\\[e+,|\ntn", 2, "str"), "enc,rt"),
            ("MCNums", "nums", dict(digits=[0, 1, 5, 9], max=4 if t else 2, lo=-24, hi=24), "enc,rt"),
            ("MCChars", "tok", chars("\"\\nu01 a/", 4, "tok", pre="\""), "dec"),
            ("MCChars", "tok", chars("01-+.eE", 4, "tok"), "dec"),
            ("MCLines", "lines", lines(STRUCT, [0, 2, 4], 4 if t else 3), "dec"),
            ("MCLines", "lines", lines(STRICT, [0, 1, 2, 4], 4 if t else 3), "dec"),
            ("MCLines", "lines", lines(DELIMS, [0, 2, 4], 3, ["r[2]:"]), "dec"),
            ("MCLines", "lines", lines(PATHS, [0, 2], 3, ex=True), "dec"),
            ("MCSerde", "serde", serde(LEAVES, "ab", [T("str", s="a"), T("num", n=num(7)), T("none")], 4 if t else 2, KINDS, [o(), o("|", 4)], []), "enc")],
    "C17": [("MCJson", "json", jsons(JTOK, 4 if t else 3), "cli"),
            ("MCJson", "json", jsons(JTOK2, 4 if t else 3, "{\"a\":"), "cli"),
            ("MCLines", "lines", lines(WIDE, [0, 2, 4], 3 if t else 2), "cli"),
            ("MCLines", "lines", lines(STRICT, [0, 1, 2, 4], 3 if t else 2), "cli")],
    "C18": [("MCJson", "json", jsons(JTOK, 5 if t else 4), "wasm"),
            ("MCJson", "json", jsons(JTOK2, 5 if t else 4, "{\"a\":"), "wasm"),
            ("MCJson", "json", jsons(JCHARS, 4 if t else 3, "\""), "wasm"),
            ("MCLines", "lines", lines(WIDE, [0, 2, 4], 4 if t else 3), "wasm"),
            ("MCLines", "lines", lines(STRICT, [0, 1, 2, 4], 4 if t else 3), "wasm")],
    "C19": [("MCLines", "lines", lines(DELIMS, [0, 2, 4], 3, ["r[2]:"]), "dec,delims"),
            ("MCLines", "lines", lines(DELIMS, [0], 2), "dec,delims"),
            ("MCLines", "lines", lines(DELIMS2, [0, 2, 4], 4 if t else 3), "dec,delims"),
            ("MCChars", "doc", chars("a,|\t\"", 6 if t else 5, "doc", pre="a[1]{x,y}:\n  "), "dec,delims"),
            ("MCChars", "doc", chars("a,|\t\"", 6 if t else 5, "doc", pre="a[1|]{x|y}:\n  "), "dec,delims"),
            ("MCChars", "doc", chars("a,|\t\"", 6 if t else 5, "doc", pre="a[1\t]{x\ty}:\n  "), "dec,delims"),
            ("MCChars", "doc", chars("a,|\t\"", 6 if t else 5, "doc", pre="a[2|]: "), "dec,delims"),
            ("MCChars", "doc", chars("a,|\t:", 6 if t else 5, "doc", pre="a[1]:\n  - "), "dec,delims")],
    "C20": [("MCLines", "lines", lines(STRUCT, [0, 2, 4], 4 if t else 3), "fix"),
            ("MCLines", "lines", lines(ITEMS, [2, 4, 6], 4 if t else 3, ["a[1]:"]), "fix"),
            ("MCLines", "lines", lines(KEYLESS, [0, 2, 4], 4 if t else 3), "fix")],
    "C21": [("MCLines", "lines", lines(STRUCT, [0, 2, 4], 5 if t else 3), "dec"),
            ("MCLines", "lines", lines(ITEMS, [2, 4, 6], 4 if t else 3, ["a[1]:"]), "dec"),
            ("MCLines", "lines", lines(ITEMS, [0, 2, 4], 4 if t else 3, ["[1]:"]), "dec"),
            ("MCLines", "lines", lines(["a: 1", "b:", "- x", "", "\"q\": \"v\"", "c : 2", "a:  3 "], [0, 2, 4], 5 if t else 4), "dec"),
            ("MCLines", "lines", lines(BLANKS, [0, 2, 4], 5 if t else 4), "dec"),
            ("MCLines", "lines", lines(SAME, [0, 2, 4], 4 if t else 3), "dec"),
            ("MCLines", "lines", lines(KEYLESS, [0, 2, 4], 4 if t else 3), "dec")],
    }
    return M.get(pid, [])

def calls_models(thorough):
    def enc(op, v, **k): return dict(op=op, v=v, o=o(**k))
    def dec(op, lines, strict=True, n=2, ex=False): return dict(op=op, lines=[c(l) for l in lines], o=dict(strict=strict, n=n, ex=ex, fl=[], dd=44))
    def obj(**k): return {"t": "obj", "k": [c(x) for x in k], "v": list(k.values())}
    arr = lambda *a: {"t": "arr", "a": list(a)}
    two = obj(a=X, b=obj(c=st("y:")))
    table = arr(obj(a=X), obj(a=st("1")))
    all_ = ["pass", "err", "panic"]
    mixed = [enc("senc", two, fold=True), enc("venc", table, d="|"), enc("wenc", obj(a=obj(b=ONE)), fold=True),
             dec("dec", ["a[2]{x}:", "  p", "  q"]), dec("rdec", ["a.b: 1", "a.c: 2"], ex=True), dec("plain", ["a: 1", "   b: 2"])]
    same = [enc("senc", two), enc("senc", two, fold=True, n=4), enc("senc", table, d="|"), enc("senc", arr(X, arr(st("z"))))]
    reads = [dec("dec", ["a: x", "b:", "  - y"][:1] + ["b[1]:", "  - y"]), dec("dec", ["a: z", "b[1]: w"]), dec("rdec", ["a: x", "b[1]: y"]), dec("rdec", ["a: \"x"])]
    t = thorough
    return [dict(calls=mixed, threads=2, max=2, fates=all_),
            dict(calls=same[:4 if t else 2], threads=2, max=2, fates=all_),
            dict(calls=[enc("senc", obj(a=X)), enc("venc", arr(X)), dec("rdec", ["a: x"])], threads=1, max=3 if not t else 4, fates=all_),
            dict(calls=[enc("senc", obj(a=X)), dec("rdec", ["a: x"])], threads=3, max=3, fates=["pass", "err"]),
            dict(calls=reads, threads=2, max=2, fates=all_)] + ([
            dict(calls=[enc("senc", obj(a=X), fold=True), enc("wenc", arr(X), d="|"), dec("rdec", ["a: x"]), dec("plain", ["a: 1", "b"])], threads=2, max=3, fates=all_)] if t else [])
