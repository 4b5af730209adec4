"""P16: the storage of objects is laid out as the C ABI says."""
import itertools
from program import *
from oblig import spread
from compare import sgn_facts

# type -> (size, the member of the value that holds it); x86-64 System V
BASIC = {
    "char": (1, "D_T_CHAR"), "short": (2, "D_T_SHORT"), "int": (4, "D_T_INT"), "long": (8, "D_T_LONG"),
    "long long": (8, "D_T_LONGLONG"), "unsigned char": (1, "D_T_UCHAR"), "unsigned short": (2, "D_T_USHORT"),
    "unsigned int": (4, "D_T_UINT"), "unsigned long": (8, "D_T_ULONG"), "unsigned long long": (8, "D_T_ULONGLONG"),
    "float": (4, "D_T_FLOAT"), "double": (8, "D_T_DOUBLE"), "long double": (16, "D_T_LONGDOUBLE"),
}


class Ty:
    def __init__(self, size, align, field=None):
        self.size, self.align, self.field = size, align, field


class Basic(Ty):
    def __init__(self, name):
        s, f = BASIC[name]
        Ty.__init__(self, s, s, f)
        self.name = name

    def decl(self, n):
        return "%s %s" % (self.name, n)


class Ptr(Ty):
    def __init__(self, to):
        Ty.__init__(self, 8, 8, "D_T_PTR")
        self.to = to

    def decl(self, n):
        return self.to.decl("( * %s )" % n if isinstance(self.to, (Arr, Fun)) else "* " + n)


class Fun(Ty):
    """Function returning int."""

    def __init__(self):
        Ty.__init__(self, 1, 1)

    def decl(self, n):
        return "int %s ( int A0 )" % n


class Arr(Ty):
    def __init__(self, of, n):
        Ty.__init__(self, of.size * n, of.align)
        self.of, self.n = of, n

    def decl(self, n):
        return self.of.decl("%s [ %d ]" % (n, self.n))


class Comp(Ty):
    """A structure or union; without a tag when tag is empty."""

    def __init__(self, kind, tag, members):
        self.kind, self.tag, self.members = kind, tag, members
        off, align, top = 0, 1, 0
        self.off = {}
        for n, t in members:
            o = 0 if kind == "union" else -(-off // t.align) * t.align
            self.off[n] = o
            off = o + t.size
            top = max(top, off)
            align = max(align, t.align)
        Ty.__init__(self, -(-top // align) * align, align)

    def body(self):
        return "{ %s }" % " ".join("%s ;" % t.decl(n) for n, t in self.members)

    def decl(self, n):
        return "%s %s %s" % (self.kind, self.tag or self.body(), n)

    def define(self):
        return "%s %s %s ; " % (self.kind, self.tag, self.body())

    def leaves(self, path="", off=0):
        """(access path, offset, type) of the scalars."""
        for n, t in self.members:
            p, o = path + " . " + n, off + self.off[n]
            if isinstance(t, Comp):
                yield from t.leaves(p, o)
            elif isinstance(t, Arr):
                for i in range(t.n):
                    if isinstance(t.of, Comp):
                        yield from t.of.leaves("%s [ %d ]" % (p, i), o + i * t.of.size)
                    else:
                        yield "%s [ %d ]" % (p, i), o + i * t.of.size, t.of
            else:
                yield p, o, t


B = {n: Basic(n) for n in BASIC}
ELEM = {t.field: t.size for t in B.values()}
ELEM["D_T_PTR"] = 8


# ------------------------------------------------------------- linear forms
def peel(v):
    """Strip what leaves a 64-bit value as it is."""
    while True:
        if v[0] in ("wrap", "zv"):
            v = v[1]
        elif v[0] == "cast" and v[1].replace("const ", "") in \
                ("long", "unsigned long", "long long", "unsigned long long", "void *", "char *"):
            v = v[2]
        elif v[0] == "zget" and v[1] == "si":
            v = v[2]
        else:
            return v


def lin(v):
    """{atom: coefficient}; the constant under None."""
    if peel(v) != v:
        return lin(peel(v))
    if v[0] == "i":
        return {None: v[1]}
    if v[0] == "wrap":
        return lin(v[1])
    if v[0] == "zc" and isinstance(v[1], int):
        return {None: v[1]}
    # sums of 64-bit values and of integers are the same, modulo 2^64
    if v[0] == "op" and v[1] in ("+", "-") or v[0] == "z" and v[1] in ("add", "sub") and len(v) == 4:
        d = dict(lin(v[2]))
        for a, c in lin(v[3]).items():
            d[a] = d.get(a, 0) + (c if v[1] in ("+", "add") else -c)
        return {a: c for a, c in d.items() if c or a is None}
    if v[0] == "op" and v[1] == "*":
        a, b = lin(v[2]), lin(v[3])
        if set(a) <= {None}:
            a, b = b, a
        if set(b) <= {None}:
            return {x: c * b.get(None, 0) for x, c in a.items()}
    if v[0] == "un" and v[1] == "-":
        return {x: -c for x, c in lin(v[2]).items()}
    return {peel(v): 1}


def place(cell):
    """(allocation, linear offset, field)"""
    if cell[0] != "F" or not isinstance(cell[2], str) or not cell[2].startswith("D_T_"):
        return None
    d = lin(cell[1])
    roots = [a for a in d if a is not None and allocated(a)]
    if len(roots) != 1 or d[roots[0]] != 1:
        return None
    off = {a: c for a, c in d.items() if a not in (None, roots[0])}
    return roots[0], off, d.get(None, 0), cell[2]


def loads(v, out):
    if isinstance(v, tuple):
        if v and v[0] in ("ld", "ldm", "ldv") and isinstance(v[2], str) and v[2].startswith("D_T_"):
            out.append(("F", v[1], v[2]))
            return out
        for x in v:
            loads(x, out)
    return out


def run_text(w, text):
    rec = lambda e: e[0] == "store" and e[1][0] == "F" and isinstance(e[1][2], str) and e[1][2].startswith("D_T_")
    return execute(w, text, record=rec, unroll=40, saturate=40, ncap=40)


class Objects:
    """Which allocation is which declared object."""

    def __init__(self):
        self.of = {}

    def bind(self, label, alloc):
        if self.of.setdefault(label, alloc) != alloc:
            return False
        return not any(a == alloc for l, a in self.of.items() if l != label)


def alloc_size(a):
    args = a[2]
    return lin(args[0]) if a[1] == "malloc" else lin(("op", "*", args[0], args[1]))


def say(w, r):
    return "%s + %s%s as %s" % (w.sh(r[0]), r[2], "".join(" + %d*%s" % (c, w.sh(a)) for a, c in r[1].items()), r[3])


def one(ctx, w, rule, text):
    """The single outcome of a program that runs through."""
    outs = run_text(w, text)
    if outs is None:
        ctx.fail(rule, text, "parser.m4", "not accepted by the grammar")
        return None
    # arrays of negative size don't exist: rejecting them is what has to be done
    outs = [o for o in outs if o.kind == "ret" or not negative(o)]
    if not outs:
        raise Limit("no outcome: " + text)
    for o in outs:
        if o.kind != "ret":
            ctx.fail(rule, text, w.site(o), "rejected (%s)" % w.desc(o))
            return None
    return outs


def negative(o):
    """Has the path found a number of the program's to be negative?"""
    return any(s and s <= {-1} and mentions(k, leaf("X")) for k, s in sgn_facts(o))


def marked(o, mark):
    """The places an operand is stored to."""
    return [(e[1], e) for e in o.st.trace if mentions(e[2], leaf(mark))
            and not (e[1][2] == "D_T_PTR" and not mentions_value(e[2], mark))]


def mentions_value(v, mark):
    """Is v the operand's value (not an address computed from it)?"""
    v = peel(v)
    return not (v[0] == "op")


def writes(ctx, w, rule, text, wants):
    """wants: {mark: (label, size, {atom: coeff}, constant, field)}"""
    outs = one(ctx, w, rule, text)
    for o in outs or ():
        objs = Objects()
        for m, (label, size, off, const_, field) in sorted(wants.items()):
            subj = "%s: %s" % (text, m)
            got = [c for c, e in marked(o, m)]
            if not got:
                ctx.fail(rule, subj, w.site(o), "the value is stored nowhere")
                continue
            c = got[-1]
            r = place(c)
            if r is None:
                ctx.fail(rule, subj, w.site(o), "stored to %s, which is not in the object" % w.sh(c))
                continue
            verdict(ctx, w, rule, subj, o, objs, r, label, size, off, const_, field)


def verdict(ctx, w, rule, subj, o, objs, r, label, size, off, const_, field):
    alloc, roff, rconst, rfield = r
    have = alloc_size(alloc)
    ok = objs.bind(label, alloc)
    names = {index_name(a): c for a, c in roff.items()}
    room = set(have) - {None} or have.get(None, 0) >= size
    ctx.check(ok and room and names == off and rconst == const_ and rfield == field, rule, subj, w.site(o),
              lambda: "accesses %s (%sallocation of %s bytes); expected %s + %d%s as %s, in %d bytes of its own" % (
                  say(w, r), "" if ok else "another object's ", have, label, const_,
                  "".join(" + %d*%s" % (c, a) for a, c in off.items()), field, size))


def index_name(a):
    """The name of an index: an operand's value or an object's."""
    if a[0] == "zget":
        return "|%s|" % index_name(a[2])
    if a[0] in ("ld", "ldv"):
        return "the %s of %d bytes" % ("unsigned value" if a[2].startswith("D_T_U") else "value", ELEM.get(a[2], 0))
    m = re.match(r"^\(int eval\((\w+)\)\)$", show(index_name.p, a))
    return m.group(1) if m else str(a)


def reads(ctx, w, rule, text, wants):
    """Each assignment to R reads the place given."""
    outs = one(ctx, w, rule, text)
    for o in outs or ():
        objs = Objects()
        got = [e for e in o.st.trace if e[1][2] == "D_T_LONG" and loads(e[2], [])]
        if len(got) != len(wants):
            ctx.fail(rule, text + " (reads)", w.site(o), "%d values are read, expected %d" % (len(got), len(wants)))
            continue
        for e, (label, size, off, const_, field) in zip(got, wants):
            subj = "%s: reads %s + %d" % (text, label, const_)
            ls = set(loads(e[2], []))
            r = place(next(iter(ls))) if len(ls) == 1 else None
            if r is None:
                ctx.fail(rule, subj, e.loc, "reads %s" % ", ".join(w.sh(x) for x in ls))
                continue
            verdict(ctx, w, rule, subj, o, objs, r, label, size, off, const_, field)


def sizes(ctx, w, text, wants):
    """Each assignment to R stores the given number."""
    outs = one(ctx, w, "sizeof", text)
    for o in outs or ():
        got = [lin(peel(e[2])) for e in o.st.trace if e[1][2] == "D_T_LONG"]
        for i, n in enumerate(wants):
            g = got[i] if i < len(got) else None
            ctx.check(g == {None: n}, "sizeof", "%s: #%d" % (text, i + 1), w.site(o), "is %s, expected %d" % (g, n))


# ------------------------------------------------------------------ programs
def nolong(t):
    """bic rejects stores to long double."""
    return not (isinstance(t, Basic) and t.name == "long double")


def later(title, fn, *args):
    JOBS.append((title, lambda: fn(*args)))


JOBS = []


def aggregate(ctx, w, s, pre=""):
    lv = [(p, o, t) for p, o, t in s.leaves() if isinstance(t, (Basic, Ptr))]
    head = pre + s.define() + s.decl("V") + " ; "
    st = [x for x in lv if nolong(x[2])]
    marks = ["X%d" % i for i in range(len(st))]
    later(head, writes, ctx, w, "member-place", head + " ".join("V%s = @%s ;" % (p, m) for (p, o, t), m in zip(st, marks)),
           {m: ("V", s.size, {}, o, t.field) for (p, o, t), m in zip(st, marks)})
    rd = [x for x in st if isinstance(x[2], Basic)]
    later(head, reads, ctx, w, "member-place", "long R ; " + head + " ".join("R = V%s ;" % p for p, o, t in rd),
          [("V", s.size, {}, o, t.field) for p, o, t in rd])
    qs = ["( %s %s )" % (s.kind, s.tag), "V", "( %s %s * )" % (s.kind, s.tag)] + ["V" + p for p, o, t in lv]
    later(head, sizes, ctx, w, "long R ; " + head + " ".join("R = sizeof %s ;" % q for q in qs),
          [s.size, s.size, 8] + [t.size for p, o, t in lv])


def S(*types, **kw):
    return Comp(kw.get("kind", "struct"), kw.get("tag", "S"), list(zip(kw.get("names", "ABCDE"), types)))


def members(ctx, w):
    four = [B[n] for n in ("char", "short", "int", "long")]
    for ts in itertools.product(four, repeat=3):
        aggregate(ctx, w, S(*ts))
    kinds = list(B.values()) + [Ptr(B["int"])]
    for a in kinds:
        aggregate(ctx, w, S(a))
        aggregate(ctx, w, S(B["char"], a))
        aggregate(ctx, w, S(a, B["char"]))
        aggregate(ctx, w, S(B["char"], a, kind="union"))
        aggregate(ctx, w, S(B["char"], Arr(a, 3), B["char"]))
    c, sh, i, l = four
    inner = [S(c, i, tag="I", names="JKL"), S(i, c, tag="I", names="JKL"), S(c, sh, tag="I", names="JKL"),
             S(c, c, c, tag="I", names="JKL"), S(l, c, tag="I", names="JKL"), S(sh, c, tag="I", names="JKL"),
             S(c, l, kind="union", tag="I", names="JKL"), S(c, sh, kind="union", tag="I", names="JKL"),
             S(c, Arr(sh, 3), tag="I", names="JKL")]
    for s in inner:
        pre = s.define()
        aggregate(ctx, w, S(c, s, c), pre)
        aggregate(ctx, w, S(s, c), pre)
        aggregate(ctx, w, S(s, i, kind="union"), pre)
        aggregate(ctx, w, S(c, Arr(s, 2), c), pre)
        anon = Comp(s.kind, "", s.members)
        aggregate(ctx, w, S(c, anon, c))
    pre = inner[0].define()
    mid = S(c, inner[0], tag="M", names="FGH")
    aggregate(ctx, w, S(c, mid, c), pre + mid.define())
    aggregate(ctx, w, S(c, Ptr(Fun()), c))
    aggregate(ctx, w, S(Ptr(B["char"]), c, Ptr(Ptr(B["int"]))))
    aggregate(ctx, w, S(c, Ptr(Arr(i, 3)), c)) if False else None


def variables(ctx, w):
    """Declared objects have storage of their own, of their type."""
    for a, b in itertools.permutations([t for t in B.values() if nolong(t)] + [Ptr(B["int"])], 2):
        text = "%s ; %s ; V = @X ; W = @Y ;" % (a.decl("V"), b.decl("W"))
        later(text, writes, ctx, w, "object-place", text, {"X": ("V", a.size, {}, 0, a.field), "Y": ("W", b.size, {}, 0, b.field)})
    s = S(B["char"], B["int"])
    forms = {
        "struct S { char A ; int B ; } V , W ;": "", "struct { char A ; int B ; } V , W ;": "",
        "struct S { char A ; int B ; } ; struct S V , W ;": "", "struct S { char A ; int B ; } ; struct S V ; struct S W ;": "",
        "typedef struct { char A ; int B ; } T ; ~T V , W ;": "", "typedef struct S { char A ; int B ; } T ; struct S V ; ~T W ;": "",
        "struct S { char A , C ; int B , D ; } V , W ;": "", "typedef struct S T ; struct S { char A ; int B ; } ; struct S V ; struct S W ;": "",
    }
    for f in forms:
        text = f + " V . B = @X ; W . B = @Y ; V . A = @Z ;"
        size = 12 if "D" in f.split() else 8
        later(text, writes, ctx, w, "object-place", text, {"X": ("V", size, {}, 4, "D_T_INT"), "Y": ("W", size, {}, 4, "D_T_INT"),
                                              "Z": ("V", size, {}, 0, "D_T_CHAR")})
    text = "int V [ 2 ] ; int W [ 2 ] ; V [ 1 ] = @X ; W [ 1 ] = @Y ;"
    later(text, writes, ctx, w, "object-place", text, {"X": ("V", 8, {}, 4, "D_T_INT"), "Y": ("W", 8, {}, 4, "D_T_INT")})
    for q in ("const", "static", "volatile"):
        text = "%s int V ; V = @X ;" % q
        later(text, writes, ctx, w, "object-place", text, {"X": ("V", 4, {}, 0, "D_T_INT")})


def elements(ctx, w):
    pair = S(B["char"], B["int"])
    kinds = [(t, "", t.field, 0) for t in B.values() if nolong(t)]
    kinds += [(Ptr(B["int"]), "", "D_T_PTR", 0), (pair, " . B", "D_T_INT", 4), (pair, " . A", "D_T_CHAR", 0)]
    kinds += [(S(B["int"], B["int"], B["int"]), " . B", "D_T_INT", 4), (S(B["char"], B["char"], B["char"]), " . C", "D_T_CHAR", 2),
              (S(B["long"], B["char"], B["long"]), " . C", "D_T_LONG", 16), (S(B["short"], B["char"], kind="union"), " . B", "D_T_CHAR", 0)]
    for t, acc, field, o in kinds:
        pre = t.define() if isinstance(t, Comp) else ""
        arr = pre + Arr(t, 5).decl("V") + " ; "
        whole = 5 * t.size
        pt = Ptr(t)
        forms = {
            arr + "V [ @X ]%s = @Z ;": ({"X": t.size}, o),
            arr + "V [ 3 ]%s = @Z ;": ({}, 3 * t.size + o),
            arr + pt.decl("P") + " ; P = V ; P [ @X ]%s = @Z ;": ({"X": t.size}, o),
            arr + pt.decl("P") + " ; P = & V [ 2 ] ; P [ @X ]%s = @Z ;": ({"X": t.size}, 2 * t.size + o),
            arr + pt.decl("P") + " ; P = & V [ @X ] ; ( * P )%s = @Z ;": ({"X": t.size}, o),
            arr + pt.decl("P") + " ; P = & V [ @X ] ; P [ 0 ]%s = @Z ;": ({"X": t.size}, o),
            arr + pt.decl("P") + " ; P = V ; P = & P [ @X ] ; P [ 1 ]%s = @Z ;": ({"X": t.size}, t.size + o),
            arr + Ptr(pt).decl("Q") + " ; " + pt.decl("P") + " ; P = V ; Q = & P ; ( * Q ) [ @X ]%s = @Z ;": ({"X": t.size}, o),
        }
        forms[arr + "void * Q ; " + pt.decl("P") + " ; Q = & V ; P = Q ; P [ 1 ]%s = @Z ;"] = ({}, t.size + o)
        forms[arr + pt.decl("P") + " ; P = & V ; P [ @X ]%s = @Z ;"] = ({"X": t.size}, o)
        if acc:
            forms[arr + pt.decl("P") + " ; P = & V [ @X ] ; P -> %s = @Z ;" % acc[3:]] = ({"X": t.size}, o)
        for f, (off, c) in forms.items():
            text = f % acc if "%s" in f else f
            later(text, writes, ctx, w, "element-place", text, {"Z": ("V", whole, off, c, field)})
    for it in BASIC:
        if it in ("float", "double", "long double"):
            continue
        text = "int V [ 5 ] ; %s I ; V [ I ] = @Z ;" % it
        atom = "the %s of %d bytes" % ("unsigned value" if "unsigned" in it else "value", BASIC[it][0])
        later(text, writes, ctx, w, "element-place", text, {"Z": ("V", 20, {atom: 4}, 0, "D_T_INT")})
    # an array's size may be computed
    text = "int V [ @X ] ; V [ 1 ] = @Z ;"
    later(text, room, ctx, w, text)
    # members that are arrays, indexed
    m = S(B["char"], Arr(B["int"], 3), B["char"])
    h = m.define() + "struct S V ; "
    for text, off, c in (("V . B [ @X ] = @Z ;", {"X": 4}, 4), ("int * P ; P = V . B ; P [ @X ] = @Z ;", {"X": 4}, 4),
                         ("struct S * P ; P = & V ; P -> B [ @X ] = @Z ;", {"X": 4}, 4),
                         ("int * P ; P = & V . B [ 1 ] ; P [ @X ] = @Z ;", {"X": 4}, 8)):
        later(text, writes, ctx, w, "element-place", h + text, {"Z": ("V", m.size, off, c, "D_T_INT")})


def room(ctx, w, text):
    for o in one(ctx, w, "element-place", text) or ():
        got = [place(c) for c, e in marked(o, "Z")]
        sz = alloc_size(got[-1][0]) if got and got[-1] else {}
        sz = {index_name(a).strip("|") if a else a: c for a, c in sz.items() if c}
        ctx.check(sz == {"X": 4}, "element-place", text + " (room)", w.site(o), "allocates %s bytes" % sz)


def pointers(ctx, w):
    for t in [t for t in B.values() if nolong(t)] + [Ptr(B["char"])]:
        p = Ptr(t)
        d = t.decl("V") + " ; " + p.decl("P") + " ; "
        forms = [d + "P = & V ; * P = @Z ;", d + "P = & V ; P [ 0 ] = @Z ;", d + "* & V = @Z ;",
                 d + Ptr(p).decl("Q") + " ; P = & V ; Q = & P ; * * Q = @Z ;",
                 d + p.decl("Q") + " ; P = & V ; Q = P ; * Q = @Z ;",
                 d + "P = & V ; * & * P = @Z ;", d + "P = & * & V ; * P = @Z ;"]
        for f in forms:
            later(f, writes, ctx, w, "pointer-place", f, {"Z": ("V", t.size, {}, 0, t.field)})
        if isinstance(t, Basic):
            later(d, reads, ctx, w, "pointer-place", "long R ; " + d + "P = & V ; R = * P ; R = P [ 0 ] ; R = * & V ;",
                  [("V", t.size, {}, 0, t.field)] * 3)
    pair = S(B["char"], B["int"])
    h = pair.define() + "struct S V ; struct S * P ; "
    outer = S(B["char"], pair, tag="T", names="CD")
    g = pair.define() + outer.define() + "struct T V ; struct S * P ; "
    for text, size, c, f in (
            (h + "P = & V ; P -> B = @Z ;", 8, 4, "D_T_INT"), (h + "P = & V ; ( * P ) . B = @Z ;", 8, 4, "D_T_INT"),
            (h + "P = & V ; P [ 0 ] . B = @Z ;", 8, 4, "D_T_INT"), (h + "( & V ) -> B = @Z ;", 8, 4, "D_T_INT"),
            (h + "( * & V ) . B = @Z ;", 8, 4, "D_T_INT"),
            (h + "int * Q ; Q = & V . B ; * Q = @Z ;", 8, 4, "D_T_INT"),
            (h + "P = & V ; int * Q ; Q = & P -> B ; * Q = @Z ;", 8, 4, "D_T_INT"),
            (h + "char * Q ; Q = & V . A ; Q [ 4 ] = @Z ;", 8, 4, "D_T_CHAR"),
            (h + "char * Q ; Q = ( char * ) & V ; Q [ @X ] = @Z ;", 8, 0, "D_T_CHAR"),
            (h + "void * Q ; Q = & V ; P = ( struct S * ) Q ; P -> B = @Z ;", 8, 4, "D_T_INT"),
            (h + "void * Q ; Q = & V ; P = Q ; P -> B = @Z ;", 8, 4, "D_T_INT"),
            (g + "P = & V . D ; P -> B = @Z ;", 12, 8, "D_T_INT"),
            (g + "struct T * Q ; Q = & V ; Q -> D . B = @Z ;", 12, 8, "D_T_INT"),
            (g + "struct T * Q ; Q = & V ; P = & Q -> D ; P -> A = @Z ;", 12, 4, "D_T_CHAR"),
            ("struct S { int A ; struct S * N ; } ; struct S V , W ; W . N = & V ; W . N -> A = @Z ;", 16, 0, "D_T_INT"),
            ("struct S { int A ; struct S * N ; } ; struct S V , W , U ; U . N = & W ; W . N = & V ; U . N -> N -> A = @Z ;",
             16, 0, "D_T_INT"),
            ("struct T ; struct S { int A ; struct T * N ; } ; struct T { char C ; int B ; } ; struct S W ; struct T V ; "
             "W . N = & V ; W . N -> B = @Z ;", 8, 4, "D_T_INT"),
            ("union S { char A ; int B ; } ; union S V ; union S * P ; P = & V ; P -> B = @Z ;", 4, 0, "D_T_INT")):
        off = {"X": 1} if "@X" in text else {}
        later(text, writes, ctx, w, "pointer-place", text, {"Z": ("V", size, off, c, f)})


def steps(ctx, w):
    """++, --, + and - move a pointer by elements."""
    pair = S(B["char"], B["int"])
    for t, name in ((B["char"], "char"), (B["int"], "int"), (B["long"], "long"), (pair, "struct")):
        pre = t.define() if isinstance(t, Comp) else ""
        acc = " . B" if t is pair else ""
        f, o = ("D_T_INT", 4) if t is pair else (t.field, 0)
        head = pre + Arr(t, 5).decl("V") + " ; " + Ptr(t).decl("P") + " ; P = & V [ 2 ] ; "
        for s, n in (("P ++", 1), ("++ P", 1), ("P --", -1), ("-- P", -1), ("P = P + 1", 1), ("P = 1 + P", 1),
                     ("P = P - 1", -1), ("P += 1", 1), ("P -= 1", -1)):
            text = head + s + " ; ( * P )%s = @Z ;" % acc
            later(text, step, ctx, w, text, "%s (%s)" % (s, name), o, ({}, (2 + n) * t.size + o, f))


def step(ctx, w, text, title, o, want):
    for x in one(ctx, w, "pointer-step", text) or ():
        got = [place(c) for c, e in marked(x, "Z")]
        r = got[-1] if got else None
        ctx.check(r is not None and r[1:] == want, "pointer-step", title, w.site(x),
                  "the pointer points at byte %s, expected byte %d" % (r and r[2] - o, want[1] - o))


def sizeofs(ctx, w):
    for n, t in B.items():
        text = "long R ; %s V ; R = sizeof ( %s ) ; R = sizeof V ; R = sizeof ( V ) ; R = sizeof ( %s * ) ; " \
            "R = sizeof ( %s [ 3 ] ) ; R = sizeof ( %s * [ 3 ] ) ; R = sizeof ( %s ( * ) [ 3 ] ) ; " \
            "R = sizeof ( %s [ 2 ] [ 3 ] ) ; R = sizeof ( %s ( * ) ( int ) ) ; R = sizeof & V ; R = sizeof ( %s * * ) ; " \
            "R = sizeof ( const %s ) ;" % ((n,) * 10)
        later(text, sizes, ctx, w, text, [t.size, t.size, t.size, 8, 3 * t.size, 24, 8, 6 * t.size, 8, 8, 8, t.size])
        text = "long R ; %s V [ 7 ] ; %s * P ; R = sizeof V ; R = sizeof V [ 0 ] ; R = sizeof P ; R = sizeof * P ; " \
            "R = sizeof P [ 3 ] ; P = V ; R = sizeof P ; " % (n, n)
        later(text, sizes, ctx, w, text, [7 * t.size, t.size, 8, t.size, t.size, 8])
        text = "long R ; typedef %s T ; typedef ~T U [ 3 ] ; ~T V ; ~U W ; R = sizeof ( ~T ) ; R = sizeof V ; " \
            "R = sizeof ( ~U ) ; R = sizeof W ; R = sizeof ( ~T * ) ; " % n
        later(text, sizes, ctx, w, text, [t.size, t.size, 3 * t.size, 3 * t.size, 8])
    pair = S(B["char"], B["int"])
    text = "long R ; %sstruct S V [ 3 ] ; struct S * P ; R = sizeof V ; R = sizeof V [ 1 ] ; R = sizeof P ; " \
        "R = sizeof ( struct S [ 4 ] ) ; R = sizeof V [ 1 ] . B ; R = sizeof ( struct { char A ; } ) ; " \
        "R = sizeof ( struct U { char A ; short B ; } ) ;" % pair.define()
    later(text, sizes, ctx, w, text, [24, 8, 8, 32, 4, 1, 4])


def run(ctx):
    w = World(ctx, ("cscript",))
    index_name.p = w.p
    ctx.rule("object-place", "an object's value is kept, as the type it was declared with, in storage of its own that is "
             "large enough for it")
    ctx.rule("member-place", "a member is accessed at its offset, with its type, inside the storage of its structure or union")
    ctx.rule("element-place", "element i of an array is accessed i times the element's size after the first, inside the array's storage")
    ctx.rule("pointer-place", "an access through a pointer accesses the object the pointer was made to point at")
    ctx.rule("pointer-step", "adding n to a pointer, or subtracting it, moves it by n elements")
    ctx.rule("sizeof", "sizeof yields the size the object or type has")
    members(ctx, w)
    variables(ctx, w)
    elements(ctx, w)
    pointers(ctx, w)
    steps(ctx, w)
    sizeofs(ctx, w)
    initial(w)
    spread(ctx, JOBS)
    ctx.need("member-place", 900)
    ctx.need("object-place", 300)
    ctx.need("element-place", 150)
    ctx.need("pointer-place", 100)
    ctx.need("pointer-step", 36)
    ctx.need("sizeof", 900)
