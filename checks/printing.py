"""P21: what the REPL prints, and what dumps contain."""
import re
from program import *
from oblig import spread

#  type        conversions that print the value of an object of it
CONV = {"D_T_CHAR": ("d", "i", "hhd", "hhi"), "D_T_SHORT": ("d", "i", "hd", "hi"), "D_T_INT": ("d", "i"),
        "D_T_LONG": ("ld", "li"), "D_T_LONGLONG": ("lld", "lli"), "D_T_UCHAR": ("u", "hhu", "d", "i"),
        "D_T_USHORT": ("u", "hu", "d", "i"), "D_T_UINT": ("u",), "D_T_ULONG": ("lu", "zu"), "D_T_ULONGLONG": ("llu",),
        "D_T_FLOAT": ("f",), "D_T_DOUBLE": ("f", "lf"), "D_T_LONGDOUBLE": ("Lf",), "D_T_PTR": ("p",)}
NAMES_OF = {"D_T_CHAR": ("char", "signed char"), "D_T_SHORT": "short", "D_T_INT": "int", "D_T_LONG": "long",
            "D_T_LONGLONG": "long long", "D_T_UCHAR": "unsigned char", "D_T_USHORT": "unsigned short",
            "D_T_UINT": "unsigned int", "D_T_ULONG": "unsigned long", "D_T_ULONGLONG": "unsigned long long",
            "D_T_FLOAT": "float", "D_T_DOUBLE": "double", "D_T_LONGDOUBLE": "long double"}
SIZES = {"D_T_CHAR": 1, "D_T_SHORT": 2, "D_T_INT": 4, "D_T_LONG": 8, "D_T_LONGLONG": 8, "D_T_UCHAR": 1, "D_T_USHORT": 2,
         "D_T_UINT": 4, "D_T_ULONG": 8, "D_T_ULONGLONG": 8, "D_T_FLOAT": 4, "D_T_DOUBLE": 8, "D_T_LONGDOUBLE": 16}


def canonical(s):
    """The words of a type's name, in an order."""
    ws = [{"integer": "int"}.get(x, x) for x in s.split()]
    if "signed" in ws:
        ws.remove("signed")
    if len(ws) > 1 and "int" in ws and ws != ["unsigned", "int"]:
        ws.remove("int")
    if ws == ["unsigned"]:
        ws.append("int")
    return sorted(ws)


def output(fl, text_of):
    """Model stdio: what is printed, as text and converted values."""
    def say(fmt, args, st, loc, fl2):
        f = text_of(fmt)
        if f is None:
            raise Limit("format isn't known")
        rest, out = list(args), []
        for piece in re.split(r"(%[-+ #0-9.*]*(?:hh|h|ll|l|L|z|j|t|q|Z|F)?[a-zA-Z%])", f):
            if not piece:
                continue
            if piece[0] != "%":
                out.append(("text", piece))
            elif piece == "%%":
                out.append(("text", "%"))
            else:
                if not rest:
                    out.append(("missing", piece))
                    continue
                a = rest.pop(0)
                t = text_of(a) if piece == "%s" else None
                out.append(("text", t) if t is not None else ("value", piece[1:], a))
        return fl2.emit(st, ev(loc, "say", tuple(out)))

    def fmt(k):
        def h(fl2, name, args, st, loc, e):
            return [(("r", "printed", (), 0), say(args[k], args[k + 1:], st, loc, fl2))]
        return h

    def puts(nl):
        def h(fl2, name, args, st, loc, e):
            st = say(("str", "%s"), args[:1], st, loc, fl2)
            if nl:
                st = say(("str", "\n"), (), st, loc, fl2)
            return [(("r", "printed", (), 0), st)]
        return h

    def putc(fl2, name, args, st, loc, e):
        if args[0][0] != "i":
            raise Limit("putchar of an unknown character")
        return [(args[0], say(("str", chr(args[0][1])), (), st, loc, fl2))]
    fl.special.update({"printf": fmt(0), "fprintf": fmt(1), "__gmp_printf": fmt(0), "gmp_printf": fmt(0), "puts": puts(True),
                       "__gmp_fprintf": fmt(1), "fputs": puts(False), "putchar": putc, "putc": putc, "fputc": putc})


def said(st):
    """What was printed: texts are joined."""
    out = []
    for e in st.trace:
        if e[0] != "say":
            continue
        for x in e[1]:
            if x[0] == "text" and out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + x[1])
            else:
                out.append(x)
    return out


def literal(v):
    while v[0] == "r" and v[1] == "strdup":
        v = v[2][0]
    return v[1] if v[0] == "str" else None


def bare(v):
    while v[0] == "cast":
        v = v[2]
    return v


def show(w, out):
    return " ".join(repr(x[1]) if x[0] == "text" else "<%s %s>" % (x[1], w.sh(x[2]) if len(x) > 2 else "?") for x in out) \
        or "nothing"


def pretty(w, st, t, unroll=6):
    fl = w.flow(unroll=unroll)
    output(fl, literal)
    outs = run_self(fl, "pretty_print", "pretty-printer.c", (t,), st)
    w.note(fl)
    return outs


def values(w, ctx):
    """Each kind of value is printed as what it is."""
    loc = w.p.lookup("pretty-printer.c", "pretty_print")["loc"]
    t, ty, val = ("p", "t"), ("p", "type"), ("p", "storage")

    def start(tag):
        st = State()
        st.facts[("ty", t)] = frozenset([w.tt[tag]])
        return st

    def lv(tag):
        st = start("T_LIVE_VAR")
        st.env[("F", t, w.p.acc["tLV_TYPE"][1])] = ty
        st.env[("F", t, w.p.acc["tLV_VAL"][1])] = val
        st.facts[("ty", ty)] = frozenset([w.tt[tag]])
        return st
    for tag, desc, ct, f, mem in w.p.ctypes:
        if tag == "D_T_PTR":
            continue
        if tag not in CONV:
            raise Limit("objects of type %s aren't known" % tag)
        outs = pretty(w, lv(tag), t)
        ctx.check(bool(outs), "values", tag, loc, "a %s isn't printed" % ct)
        for o in outs:
            got = said(o.st)
            ok = o.kind == "ret" and len(got) == 1 and got[0][0] == "value" and got[0][1] in CONV[tag] and \
                member(w, got[0][2], val) == tag
            ctx.check(ok, "values", tag, w.site(o), "for an object of type %s, %s is printed" % (ct, got))
    for kind in ("D_T_CHAR", "D_T_INT", "D_T_PTR", "D_T_VOID"):
        st = lv("D_T_PTR")
        st.env[("F", ty, w.p.acc["tDTPTR_EXP"][1])] = ("p", "pointee")
        st.facts[("ty", ("p", "pointee"))] = frozenset([w.tt[kind]])
        for null in (False, True):
            s = st.copy()
            if null:
                s.env[("F", val, "D_T_PTR")] = ("i", 0)
            else:
                s.env[("F", val, "D_T_PTR")] = ("p", "address")
            for o in pretty(w, s, t):
                got = said(o.st)
                null_here = null or o.st.facts.get(("val", ("p", "address"))) == ("in", frozenset([0]))
                first = got and got[0][0] == "value" and got[0][1] == "p" and bare(got[0][2]) == s.env[("F", val, "D_T_PTR")]
                strs = [x for x in got if x[0] == "value" and x[1] == "s"]
                ok = first and all(bare(x[2]) == ("p", "address") for x in strs) and len(strs) <= 1 and \
                    bool(strs) == (kind == "D_T_CHAR" and not null_here)
                ctx.check(ok and o.kind == "ret", "values", "%s pointer to %s" % ("null" if null else "a", kind), w.site(o),
                          lambda: "for a pointer to %s, %s is printed" % (kind, show(w, got)))
            # the same as a member of a structure
            whole, ms, mp, nm = ("p", "whole"), ("new", "members"), ("new", "mapping"), ("p", "name")
            s = s.copy()
            s.facts[("ty", whole)] = frozenset([w.tt["T_LIVE_COMPOUND"]])
            s.facts[("ty", nm)] = frozenset([w.tt["T_IDENTIFIER"]])
            s.env[("F", whole, w.p.acc["tLV_COMP_MEMBERS"][1])] = ms
            s.env[("F", mp, w.p.acc["tEMAP_LEFT"][1])] = nm
            s.env[("F", mp, w.p.acc["tEMAP_RIGHT"][1])] = t
            s.env[("F", nm, w.p.acc["tID_STR"][1])] = ("str", "m")
            make_list(w, s, ms, [mp])
            s.env[("F", mp, "type")] = ("i", w.tt["E_MAP"])
            for o in pretty(w, s, whole):
                got = said(o.st)
                null_here = null or o.st.facts.get(("val", ("p", "address"))) == ("in", frozenset([0]))
                vals = [x for x in got if x[0] == "value"]
                n = 2 if kind == "D_T_CHAR" and not null_here else 1
                ok = len(vals) == n and vals[0][1] == "p" and bare(vals[0][2]) == s.env[("F", val, "D_T_PTR")] and \
                    all(x[1] == "s" and bare(x[2]) == ("p", "address") for x in vals[1:]) and \
                    got[0] == ("text", got[0][1]) and got[0][1].rstrip().endswith(".m =")
                ctx.check(ok and o.kind == "ret", "values", "a member: %s pointer to %s" % ("null" if null else "a", kind),
                          w.site(o), lambda: "for a member that is a pointer to %s, %s is printed" % (kind, show(w, got)))
    for tag, acc, convs in (("T_INTEGER", "tINT_VAL", ("Zd", "Zi")), ("T_FLOAT", "tFLOAT_VAL", ("Ff",)),
                            ("T_STRING", "tSTRING_VAL", ("s",)), ("T_IDENTIFIER", "tID_STR", ("s",))):
        for o in pretty(w, start(tag), t):
            got = [x for x in said(o.st) if x[0] == "value"]
            ok = o.kind == "ret" and len(got) == 1 and got[0][1] in convs and w.p.acc[acc][1] in repr(got[0][2]) \
                and repr(t) in repr(got[0][2])
            ctx.check(ok, "values", tag, w.site(o), lambda: "for a %s, %s is printed" % (tag, show(w, said(o.st))))


def member(w, v, val):
    """The member of the object's storage that was loaded."""
    v = bare(v)
    if v[0] in ("ld", "ldv") and v[1] == val:
        return v[2]
    return None


def objects(w, ctx):
    """Printing and inspecting the objects of programs."""
    loc = w.p.lookup("inspect.c", "inspect")["loc"]

    def look(prog, what, name):
        """Outcomes of pretty_print or inspect for the last evaluation of the name."""
        seen = []

        def observe(n, x, fl, st):
            if n != name:
                return st
            saved, dead = dict(fl.special), fl.outcomes_dead
            output(fl, literal_or_name(w))
            fl.outcomes_dead = []
            f = w.p.lookup("inspect.c" if what == "inspect" else "pretty-printer.c",
                           "inspect" if what == "inspect" else "pretty_print")
            s = st.copy()
            s.trace = ()
            asked = leaf(name + "'''")             # the name, in the REPL
            s.facts[("ty", asked)] = frozenset([w.tt["T_IDENTIFIER"]])
            fl.special.pop("inspect", None)
            fl.special.pop("pretty_print", None)
            try:
                args = (asked, x) if what == "inspect" else (x,)
                seen.extend(Outcome("ret", v, s2) for v, s2 in fl.inline(f, args, s, ""))
                seen.extend(fl.outcomes_dead)
            finally:
                fl.special.clear()
                fl.special.update(saved)
                fl.outcomes_dead = dead
            return st
        st = initial(w)
        st.env[("G", "", "cscript_current_file")] = ("str", "f.c")
        if execute(w, prog, st=st, observe=observe) is None:
            raise Limit("the grammar rejects %s" % prog)
        return seen
    for decls, members in (("struct S { int a; long b; }", [("a", "D_T_INT"), ("b", "D_T_LONG")]),
                           ("struct S { char a; double b; unsigned int c; }", [("a", "D_T_CHAR"), ("b", "D_T_DOUBLE"), ("c", "D_T_UINT")]),
                           ("union S { short a; unsigned char b; }", [("a", "D_T_SHORT"), ("b", "D_T_UCHAR")]),
                           ("struct S { float a; }", [("a", "D_T_FLOAT")])):
        prog = "%s v; v;" % decls
        outs = look(prog, "pretty_print", "v")
        ctx.check(bool(outs), "compounds", prog, loc, "the object isn't printed")
        for o in outs:
            got = said(o.st)
            ok = o.kind == "ret" and [x[1] for x in got if x[0] == "value"] != [] and len(got) == 2 * len(members) + 1
            if ok:
                for k, (n, tag) in enumerate(members):
                    a, b = got[2 * k], got[2 * k + 1]
                    ok = ok and a[0] == "text" and a[1].rstrip().endswith("." + n + " =") and b[0] == "value" and \
                        b[1] in CONV[tag] and tag in repr(bare(b[2]))[:4000]
            ctx.check(ok, "compounds", prog, w.site(o), lambda: "for the members %s, %s is printed" % (
                " ".join(n for n, x in members), show(w, got)[:300]))
    cases = [("%s v; v;" % " ".join(canon_name(tag)), SIZES[tag], canonical(" ".join(canon_name(tag)))) for tag in sorted(SIZES)]
    cases += [("char *v; v;", 8, (1, ["char"])), ("int **v; v;", 8, (2, ["int"])), ("short ***v; v;", 8, (3, ["short"])), ("int v[3]; v;", 12, None), ("char v[5]; v;", 5, None),
              ("int *v[2]; v;", 16, None), ("static long v; v;", 8, ["long"]), ("struct S { int a; } *v; v;", 8, (1, ["S"])),
              ("typedef short T; ~T v; v;", 2, ["short"]), ("void *v; v;", 8, None)]
    for prog, size, tname in cases:
        outs = look(prog, "inspect", "v")
        ctx.check(bool(outs), "inspection", prog, loc, "the object isn't inspected")
        for o in outs:
            got = said(o.st)
            txt = "".join(x[1] if x[0] == "text" else "<%s>" % x[1] for x in got)
            ctx.check(o.kind == "ret", "inspection", prog + " returns", w.site(o), "inspection ends with %s" % o.kind)
            m = re.search(r"sizeof\(v\) = (<\w+>|\d+)", txt)
            sz = [x for x in got if x[0] == "value" and x[1] in ("lu", "Zd", "zu", "d", "ld")]
            ctx.check(bool(m), "inspection", prog + " size", w.site(o), lambda: "the size isn't printed: %s" % txt[:200])
            n = [number(w, x[2], o) for x in sz]
            ctx.check(size in n, "inspection", prog + " size value", w.site(o), lambda: "the size is %s instead of %d" % (n, size))
            if isinstance(tname, tuple):
                k = re.search(r"v is a ((?:[a-zA-Z]+ to a )*)([a-zA-Z ]+)", txt)
                ctx.check(k and k.group(1).count(" to a ") == tname[0] and canonical(k.group(2)) == tname[1], "inspection",
                          prog + " type", w.site(o), lambda: "the type is given as `%s'" % txt[:80])
            elif tname:
                k = re.search(r"v is a ([a-zA-Z ]+)", txt)
                ctx.check(k and canonical(k.group(1)) == tname, "inspection", prog + " type", w.site(o),
                          lambda: "the type is given as `%s'" % (k.group(1) if k else txt[:60]))
            at = [x[2] for x in got if x[0] == "value" and "first_line" in repr(x[2])]
            ctx.check(len(at) == 1 and "'v'" in repr(at[0]) or at and "v" in repr(at[0]), "inspection", prog + " place", w.site(o),
                      lambda: "the line of the declaration isn't printed: %s" % show(w, got)[:300])


def canon_name(tag):
    n = NAMES_OF[tag]
    return [n[0] if isinstance(n, tuple) else n]


def literal_or_name(w):
    fid = w.p.acc["tID_STR"][1]

    def f(v):
        s = literal(v)
        if s is None and v[0] == "ld" and v[2] == fid and v[1][0] == "p":
            return v[1][1].rstrip("'")
        return s
    return f


def number(w, v, o):
    v = bare(v)
    for k in range(6):
        if v[0] == "i":
            return v[1]
        if v[0] == "zc":
            return v[1]
        if v[0] in ("wrap", "zv", "zget"):
            v = v[-1]
            continue
        if v in o.st.env:
            v = o.st.env[v]
            continue
        z = o.st.env.get(("Z", v))
        if z is None:
            break
        v = z
    return None


TEXT = 'a"b\\c'


def flat(w, got):
    """What was printed as one text, with each value as <value>, and the values."""
    vals, out = [], []
    for x in got:
        if x[0] == "text":
            out.append(x[1])
        else:
            out.append("\x01%d\x02" % len(vals))
            vals.append(x)
    return "".join(out), vals


def dumps(w, ctx):
    """Every part of a node is in its dump."""
    t = ("p", "t")
    kinds = sorted(x[0] for x in w.p.ctypes)
    for fn in ("tree_dump", "tree_dump_dot"):
        if w.p.lookup("main.c", fn) is None:
            raise Limit("%s not found" % fn)
        for tag in sorted(w.tt):
            if tag == "CHAIN_HEAD":
                continue
            fields = {n: m for n, (ty, m) in w.p.acc.items() if ty == tag}
            modes = ["plain", "chain"] if any(re.match(r"t\d", m) for m in fields.values()) else ["plain"]
            if any(m.startswith(("flag", "comp_decl_type")) for m in fields.values()):
                modes.append("other")
            if tag == "T_LIVE_VAR":
                modes += kinds
            for mode in modes:
                what = "%s of %s%s" % (fn, tag, "" if mode == "plain" else " (%s)" % mode)
                with ctx.guarded(what):
                    node_dump(w, ctx, fn, tag, fields, mode, what, t)
        with ctx.guarded("%s of lists" % fn):
            list_dump(w, ctx, fn)


def node_dump(w, ctx, fn, tag, fields, mode, what, t):
    f = w.p.lookup("main.c", fn)
    fl = printer(w)
    st = State()
    st.facts[("ty", t)] = frozenset([w.tt[tag]])
    scalars = {}
    for acc, m in fields.items():
        kind = re.sub(r"\d+$", "", m)
        if kind == "t":
            kid = ("new", "kid", acc)
            st.env[("F", t, m)] = kid
            st.env[("F", kid, "type")] = ("i", w.tt[mode if mode in w.tt and acc == "tLV_TYPE" else "T_INTEGER"])
            if mode == "chain":
                make_list(w, st, kid, [("new", "first", acc)])
        elif kind == "string":
            st.env[("F", t, m)] = ("str", TEXT)
        elif kind == "flag":
            st.env[("F", t, m)] = ("i", int(mode == "other"))
        elif kind == "comp_decl_type":
            st.env[("F", t, m)] = ("i", w.p.enums["uunion" if mode == "other" else "sstruct"])
        elif kind in ("sz", "ptr"):
            st.env[("F", t, m)] = ("p", "scalar " + acc)
        elif kind == "live_var_val":
            st.env[("F", t, m)] = ("p", "storage")

    def sub(fl2, name, args, st, loc, e):
        # dumping another node; the dump of a child is one event
        if args[:1] == (t,) or not st.cnt.get("dumped"):
            st = st.copy()
            st.cnt["dumped"] = 1
            return fl2.real_inline(name, fl2.p.lookup(f["unit"], name), args, st, loc)
        return [(("void",), fl2.emit(st, ev(loc, "say", (("node", "", args[0]),))))]
    if w.p.lookup(f["unit"], "__" + fn) is None:
        raise Limit("__%s not found" % fn)
    fl.special["__" + fn] = sub
    outs = run_self(fl, fn, "main.c", (t,), st)
    w.note(fl)
    ctx.check(bool(outs), "dumps", what, f["loc"], "the dump has no end")
    for o in outs:
        got = said(o.st)
        text, vals = flat(w, got)
        ctx.check(o.kind == "ret" and re.search(r"\b%s\b" % tag, text), "dumps", what, w.site(o),
                  "the dump doesn't name the node's type")
        for acc, m in sorted(fields.items()):
            kind = re.sub(r"\d+$", "", m)
            if kind in ("jmp_buf", "ffi_closure", "ffi_cif", "ffi_types"):
                continue                    # nothing to print
            part = part_of(w, fn, acc, t, kind, text, vals)
            ok = part is not None and shows(w, kind, part, vals, acc, mode, fn)
            ctx.check(ok, "dumps", "%s: %s" % (what, acc), w.site(o),
                      lambda: "the dump doesn't show %s: %s" % (acc, show(w, got)[:600]))


def make_list(w, st, h, nodes):
    """The list headed by h has the nodes, which are numbers."""
    st.env[("F", h, "type")] = ("i", w.tt["CHAIN_HEAD"])
    ring = [h] + nodes
    for k, n in enumerate(ring):
        nxt = ring[(k + 1) % len(ring)]
        st.env[("F", n, "chain.next")] = ("pl", ("F", nxt, "chain"))
        st.env[("F", nxt, "chain.prev")] = ("pl", ("F", n, "chain"))
        if k:
            st.env[("F", n, "type")] = ("i", w.tt["T_INTEGER"])


def list_dump(w, ctx, fn):
    """All the nodes of a list are dumped, in order."""
    f = w.p.lookup("main.c", fn)
    for size, nested in [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (3, 1), (2, 2)]:
        fl = printer(w)
        st = State()
        nodes = [("new", "list", k) for k in range(1, size + 1)]
        top = ("new", "list", 0)
        make_list(w, st, top, nodes)
        for k in range(nested):             # in another node
            tag, m = w.p.acc["tBLOCK_STMTS"]
            node = ("new", "above", k)
            st.env[("F", node, "type")] = ("i", w.tt[tag])
            st.env[("F", node, m)] = top
            top = node
        outs = run_self(fl, fn, "main.c", (top,), st)
        w.note(fl)
        what = "%s of a list of %d%s" % (fn, size, " in %d nodes" % nested if nested else "")
        ctx.check(bool(outs), "dumps", what, f["loc"], "the dump has no end")
        for o in outs:
            text, vals = flat(w, said(o.st))
            seen = [n for x in vals if x[1] == "Zd" for n in nodes if n in spots(x[2])]
            ctx.check(o.kind == "ret" and seen == nodes and text.count("T_INTEGER") == size, "dumps",
                      what, w.site(o), "the nodes that are dumped are %s" % seen)


class Dumps(Compose):
    """Strings are walked by pointers into them."""

    def arith(self, op, a, b, ty, lty, st):
        if a[0] == "str" and b[0] == "i" and op in "+-":
            return ("pl", ("X", a, b if op == "+" else ("i", -b[1])))
        return super().arith(op, a, b, ty, lty, st)


def printer(w):
    fl = Dumps(w.p, ncap=2, keep_facts=True, unroll=16, saturate=60)
    output(fl, literal)
    return fl


def spots(v):
    yield v
    for x in v[1:] if isinstance(v, tuple) else ():
        if isinstance(x, tuple):
            yield from spots(x)


def part_of(w, fn, acc, t, kind, text, vals):
    """The piece of the dump that is about the property."""
    if fn == "tree_dump":
        m = re.search(r"\b%s: ?(.*?)(?=\st[A-Z0-9_]+: |\s*>\s*$)" % acc, text, re.S)
        return m.group(1) if m else None
    edges = [(m.groups(), m.end()) for m in
             re.finditer(r'tree_\x01(\d+)\x02(\w*) *-> *tree_\x01(\d+)\x02(\w*) *\[label="(\w*)"', text)]
    edges = [(g, end) for g, end in edges if vals[int(g[0])][2] == t and not g[1] and acc.endswith("_" + g[4])]
    if not edges:
        return None
    (a, asuf, b, bsuf, label), end = max(edges, key=lambda x: len(x[0][4]))
    if kind == "t":
        return "\x01%s\x02" % b + text[end:]
    if vals[int(b)][2] != t or not bsuf:
        return None
    defs = re.findall(r'(?<!-> )(?<!->)tree_\x01(\d+)\x02%s \[label="((?:[^"\\]|\\.)*)"\]' % bsuf, text)
    return defs[0][1] if len(defs) == 1 and vals[int(defs[0][0])][2] == t else None


def shows(w, kind, part, vals, acc, mode, fn):
    part = part if kind == "t" else part.strip()
    vs = [vals[int(k)] for k in re.findall(r"\x01(\d+)\x02", part)]
    if kind == "t":
        kid = ("new", "kid", acc)
        if fn == "tree_dump":
            return [x[2] for x in vs] == [kid]
        want = ("new", "first", acc) if mode == "chain" else kid
        return vs[0][2] == want and any(x[0] == "node" and x[2] == kid for x in vs)
    if kind == "string":
        return part == (TEXT.replace("\\", "\\\\").replace('"', '\\"') if fn == "tree_dump_dot" else '"%s"' % TEXT)
    if kind == "flag":
        return part == ("true" if mode == "other" else "false")
    if kind == "comp_decl_type":
        return part == ("union" if mode == "other" else "struct")
    if kind in ("sz", "ptr"):
        return [(x[1], bare(x[2])) for x in vs] in [[(c, ("p", "scalar " + acc))] for c in (("p",) if kind == "ptr" else ("zu", "lu"))]
    if kind == "live_var_val":
        if mode in CONV:
            return len(vs) == 1 and vs[0][1] in CONV[mode] and member(w, vs[0][2], ("p", "storage")) == mode
        return not vs and part != ""
    return len(vs) == 1 and vs[0][1] == {"integer": "Zd", "ffloat": "Ff"}.get(kind) and repr(("p", "t")) in repr(vs[0][2])


def run(ctx):
    R = ctx.rule
    R("values", "each kind of value is printed by a conversion for its type, from the object that is printed")
    R("compounds", "all members of a structure or union are printed, with their names and in order")
    R("inspection", "an object's inspection prints its type, value, size and the place of its declaration")
    R("dumps", "the dump of a node has all of its parts")
    w = World(ctx, targets=("cscript",))
    initial(w)
    spread(ctx, [("values", lambda: values(w, ctx)), ("objects", lambda: objects(w, ctx)), ("dumps", lambda: dumps(w, ctx))])
    for rule, n in (("values", 30), ("compounds", 8), ("inspection", 100), ("dumps", 1000)):
        ctx.need(rule, n)
