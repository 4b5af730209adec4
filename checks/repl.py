"""P22: what the REPL does with each line."""
import re
from program import *
from oblig import spread
from driver import at_start
from storage import root
from printing import make_list, Dumps


class Session(Dumps):
    """Structures are passed by value, strings are walked, memory is cleared."""

    def e_ld(self, e, st):
        out = []
        for v, s in super().e_ld(e, st):
            if len(e) > 2 and e[2] and e[2].startswith("struct ") and not e[2].endswith("*"):
                rec = self.p.recs.get(e[2][7:])
                where = self.lval(e[1], st)
                if rec and len(where) == 1 and where[0][0][0] in ("L", "G"):
                    v = ("st", tuple((f[0], self.load(self.member(where[0][0], f[0]), s, f[1])) for f in rec["fields"]))
            out.append((v, s))
        return out

    def load(self, cell, st, cty=None):
        if cell[0] == "S" and cell not in st.env and ("ZERO", cell[1]) in st.env:
            return ("i", 0)
        return super().load(cell, st, cty)


def place(p):
    """The array a pointer points into, and the index."""
    p, off = root(p)
    while p[0] == "pl" and p[1][0] == "X" and p[1][2][0] == "i":
        off += p[1][2][1]
        p, more = root(p[1][1])
        off += more
    return p, off


def contents(fl, st, p):
    """The string p points to."""
    base, off = place(p)
    out = ""
    for k in range(300):
        c = ("X", base, ("i", off + k))
        v = st.env.get(c)
        if v is None and base[0] == "str":
            v = ("i", ord((base[1] + "\0")[off + k])) if off + k <= len(base[1]) else ("unk",)
        if v is None and base[:2] == ("new", "zeroed"):
            v = ("i", 0)
        if v is None:
            v = fl.load(c, st)
        while v[0] == "cast":
            v = v[2]
        if v[0] != "i":
            return out + "?" if out else None
        if v[1] == 0:
            return out
        out += chr(v[1] & 255)
    return out


def put(st, p, t):
    base, off = place(p)
    st = st.copy()
    for k, c in enumerate(t + "\0"):
        st.env[("X", base, ("i", off + k))] = ("i", ord(c))
    return st


def buffer(st, kind):
    st = st.copy()
    n = st.cnt["buffers"] = st.cnt.get("buffers", 0) + 1
    return ("new", kind, n), st


def strings(fl):
    """Model the functions on strings and memory."""
    def need(fl2, st, p):
        t = contents(fl2, st, p)
        if t is None:
            raise Limit("string with unknown contents: %s" % (p,))
        return t

    def strlen(fl2, name, args, st, loc, e):
        return [(("i", len(need(fl2, st, args[0]))), st)]

    def add(keep, limit=None):
        def h(fl2, name, args, st, loc, e):
            t = need(fl2, st, args[1])
            if limit is not None:
                t = t[:args[limit][1]]
            return [(args[0], put(st, args[0], (need(fl2, st, args[0]) if keep else "") + t))]
        return h

    def compare(limit=None):
        def h(fl2, name, args, st, loc, e):
            x, y = need(fl2, st, args[0]), need(fl2, st, args[1])
            if limit is not None:
                if args[limit][0] != "i":
                    raise Limit("comparison of an unknown length")
                x, y = x[:args[limit][1]], y[:args[limit][1]]
            return [(("i", (x > y) - (x < y)), st)]
        return h

    def find(how):
        def h(fl2, name, args, st, loc, e):
            x = need(fl2, st, args[0])
            y = chr(args[1][1]) if args[1][0] == "i" else need(fl2, st, args[1])
            k = how(x, y)
            base, off = place(args[0])
            return [(("i", 0) if k < 0 else ("pl", ("X", base, ("i", off + k))), st)]
        return h

    def dup(fl2, name, args, st, loc, e):
        t = contents(fl2, st, args[0])
        if t is None:
            return [(args[0], st)]
        if name.endswith("ndup"):
            t = t[:args[1][1]]
        b, st = buffer(st, "copy")
        return [(b, put(st, b, t))]

    def alloc(kind):
        def h(fl2, name, args, st, loc, e):
            b, st = buffer(st, kind)
            if all(a[0] == "i" for a in args):
                st.env[("SIZE", b)] = ("i", args[0][1] * (args[1][1] if len(args) > 1 else 1))
            return [(b, st)]
        return h

    def fmt(fl2, st, args):
        f, rest, out = need(fl2, st, args[0]), list(args[1:]), ""
        for piece in re.split(r"(%[-.0-9]*[a-z%])", f):
            if piece == "%%":
                out += "%"
            elif piece[:1] == "%" and piece[-1] == "s":
                t = contents(fl2, st, rest.pop(0))
                out += piece % ("?" if t is None else t)
            elif piece[:1] == "%":
                raise Limit("format %s" % piece)
            else:
                out += piece
        return out

    def asprintf(fl2, name, args, st, loc, e):
        t = fmt(fl2, st, args[1:])
        b, st = buffer(st, "composed")
        st = put(st, b, t)
        st.env[fl2.cell_of(args[0])] = b
        return [(("i", len(t)), st)]

    def sprintf(k):
        def h(fl2, name, args, st, loc, e):
            t = fmt(fl2, st, args[k:])
            return [(("i", len(t)), put(st, args[0], t))]
        return h
    def clear(fl2, name, args, st, loc, e):
        if args[1] == ("i", 0) and args[0][0] == "pl" and args[0][1][0] in ("L", "G"):
            st = st.copy()
            st.env[("ZERO", args[0][1])] = ("i", 0)
        return [(args[0], st)]
    fl.special.update({"memset": clear, "__builtin_memset": clear, "strlen": strlen, "strcat": add(True), "strcpy": add(False), "strncpy": add(False, 2), "strncat": add(True, 2),
                       "strcmp": compare(), "strncmp": compare(2), "strstr": find(lambda x, y: x.find(y)),
                       "strchr": find(lambda x, y: x.find(y)), "strrchr": find(lambda x, y: x.rfind(y)),
                       "strdup": dup, "__strdup": dup, "strndup": dup, "malloc": alloc("memory"), "calloc": alloc("zeroed"),
                       "asprintf": asprintf, "__asprintf": asprintf, "sprintf": sprintf(1), "snprintf": sprintf(2)})


def files(fl, texts):
    """Model streams whose text is known."""
    def pos(st, f):
        return st.env.get(("POS", f), ("i", 0))[1]

    def at(st, f, n):
        st = st.copy()
        st.env[("POS", f)] = ("i", n)
        return st

    def fseek(fl2, name, args, st, loc, e):
        f, off, wh = args
        if off[0] != "i" or wh[0] != "i":
            raise Limit("fseek by an unknown distance")
        n = off[1] + {0: 0, 1: pos(st, f), 2: len(texts(st, f))}[wh[1]]
        return [(("i", -1), st)] if n < 0 else [(("i", 0), at(st, f, n))]

    def rewind(fl2, name, args, st, loc, e):
        return [(("void",), at(st, args[0], 0))]

    def ftell(fl2, name, args, st, loc, e):
        return [(("i", pos(st, args[0])), st)]

    def fgetc(fl2, name, args, st, loc, e):
        f = args[0]
        n, t = pos(st, f), texts(st, f)
        return [(("i", ord(t[n]) if n < len(t) else -1), at(st, f, min(n + 1, len(t))))]

    def fclose(fl2, name, args, st, loc, e):
        return [(("i", 0), fl2.emit(st, ev(loc, "close", args[0])))]

    def fgets(fl2, name, args, st, loc, e):
        buf, size, f = args
        n, t = pos(st, f), texts(st, f)
        if n >= len(t):
            return [(("i", 0), st)]
        if size[0] != "i":
            raise Limit("fgets of an unknown length")
        line = t[n:].split("\n")[0] + ("\n" if "\n" in t[n:] else "")
        line = line[:size[1] - 1]
        return [(buf, put(at(st, f, n + len(line)), buf, line))]
    fl.special.update({"fseek": fseek, "rewind": rewind, "ftell": ftell, "fgetc": fgetc, "getc": fgetc, "_IO_getc": fgetc,
                       "fclose": fclose, "fgets": fgets})


class Line:
    """A line that is typed: what its parses and its evaluation yield."""

    def __init__(self, text, first=("T_ADD",), second=None, value=True, cpp=None):
        self.text, self.first, self.value = text, first, value
        self.second = first if second is None else second
        self.cpp = cpp if cpp is not None else text


GOOD = Line("x + 1;", value=True)
QUIET = Line("f();", value=False)
MACRO = Line("M;", cpp="(2 * 3);")
WRONG = Line("x +;", first=None)
LATE = Line("N;", second=None, cpp="x +;")
LATE.second = None
INC = Line("#include <a.h>", first=("CPP_INCLUDE",), value=False)
TWO = Line("x; y;", first=("T_ADD", "T_SUB"))
DECL = Line("typedef int T;", first=("T_DECL",), value=False)
SHORT = Line(";", first=("T_EMPTY",), value=False)


def session(w, lines, junk="int a;\nint b;\n"):
    """Outcomes of bic_repl when the lines are typed."""
    fl = Session(w.p, ncap=8, keep_facts=True, unroll=60, saturate=200)
    strings(fl)
    stream = ("pl", ("G", "", "#cpp"))

    def current(st):
        return st.cnt.get("typed", 0) - 1
    files(fl, lambda st, f: junk + lines[current(st)].cpp + "\n")

    def readline(fl2, name, args, st, loc, e):
        n = st.cnt.get("typed", 0)
        st = st.copy()
        st.cnt["typed"] = n + 1
        st.cnt["parses"] = 0
        st = fl2.emit(st, ev(loc, "read", n))
        if n == len(lines):
            return [(("i", 0), st)]
        line = ("pl", ("G", "", "#line %d" % n))
        return [(line, put(st, line, lines[n].text))]

    def strof(fl2, st, p):
        return contents(fl2, st, p)

    def scan(fl2, name, args, st, loc, e):
        st = fl2.emit(st, ev(loc, "scan", strof(fl2, st, args[0])))
        return [(("p", "buffer"), st)]

    def parse(fl2, name, args, st, loc, e):
        k = current(st)
        n = st.cnt.get("parses", 0)
        st = st.copy()
        st.cnt["parses"] = n + 1
        st = fl2.emit(st, ev(loc, "parse", n))
        # the parser declares the names of typedefs
        f = fl2.p.lookup("typename.c", "add_typename")
        name_ = ("new", "typename", k, n)
        st = st.copy()
        st.env[("F", name_, "type")] = ("i", w.tt["T_IDENTIFIER"])
        res = fl2.inline(f, (name_,), st, loc)
        if len(res) != 1:
            raise Limit("add_typename has several outcomes")
        st = res[0][1].copy()
        tags = lines[k].first if n == 0 else lines[k].second
        if tags is None:
            return [(("i", 1), st)]
        nodes = [("new", "stmt", k, n, j) for j in range(len(tags))]
        headn = ("new", "head", k, n)
        make_list(w, st, headn, nodes)
        for x, t in zip(nodes, tags):
            st.env[("F", x, "type")] = ("i", w.tt[t])
        st.env[("G", "", "repl_parse_head")] = headn
        return [(("i", 0), st)]

    def chain(fl2, name, args, st, loc, e):
        return [(("void",), fl2.emit(st, ev(loc, "named")))]

    def cpp(fl2, name, args, st, loc, e):
        opts = contents(fl2, st, args[1])
        st = fl2.emit(st, ev(loc, "cpp", args[0], opts, None if args[2] == ("i", 0) else strof(fl2, st, args[2])))
        st = st.copy()
        st.env[("POS", stream)] = ("i", 0)
        return [(stream, st)]

    def evaluate(fl2, name, args, st, loc, e):
        k = current(st)
        st = fl2.emit(st, ev(loc, "evaluate", args[0]))
        return [(("new", "value") if lines[k].value else ("i", 0), st)]

    def show(what):
        return lambda fl2, name, args, st, loc, e: [(("i", 0), fl2.emit(st, ev(loc, what) + tuple(args)))]
    fl.special.update({"readline": readline, "repl_scan_string": scan, "replparse": parse, "tree_chain": chain, "run_cpp": cpp,
                       "evaluate_expr": evaluate, "pretty_print": show("print"), "repl_delete_buffer": show("unscan"),
                       "add_history": show("history"), "evaluate_startup_file": show("startup"),
                       "get_identifier": lambda fl2, name, args, st, loc, e: [(("p", "copy"), st)],
                       "free": show("free")})
    st = State()
    at_start(w, st)
    for n, g in w.p.globals["typename.c"].items():
        if g["static"] and not g["type"].endswith("*"):
            i = g.get("init")
            st.env[("G", "typename.c", n)] = ("i", i[1] if i is not None and i[0] == "i" else 0)
    st.env[("G", "evaluate.c", "include_chain")] = ("p", "headers")
    outs = run_self(fl, "bic_repl", "repl.c", (), st)
    w.note(fl)
    return outs


def expected(lines):
    """What has to happen, as (event, detail); "exit" ends it."""
    out = []
    for k, l in enumerate(lines):
        out.append(("scan", l.text))
        if l.first is None:
            continue
        if len(l.first) > 1:
            return out + [("exit",)]
        if l.first == ("CPP_INCLUDE",):
            out.append(("evaluate", ("new", "stmt", k, 0, 0)))
        else:
            out += [("cpp", l.text), ("scan", l.cpp), ("named",)]
            if l.second is None:
                continue
            if len(l.second) > 1:
                return out + [("exit",)]
            out.append(("evaluate", ("new", "stmt", k, 1, 0)))
        if l.value:
            out.append(("print", ("new", "value")))
    return out + [("end",)]


def happened(o):
    out = []
    for e in o.st.trace:
        if e[0] == "scan":
            out.append(("scan", e[1].strip() if e[1] else e[1]))
        elif e[0] == "cpp":
            out.append(("cpp", e[3]))
        elif e[0] in ("evaluate", "print"):
            out.append((e[0], e[1]))
        elif e[0] == "named":
            out.append(("named",))
    out.append(("end",) if o.kind == "ret" else ("exit",))
    return out


def tell(es):
    return ", ".join(" ".join(str(x[-1] if isinstance(x, tuple) else x) for x in e) for e in es)


def lines(w, ctx):
    """Each line is handled by itself."""
    f = w.p.lookup("repl.c", "bic_repl")
    for ls in ([GOOD], [QUIET], [MACRO], [WRONG], [LATE], [INC], [TWO], [DECL], [SHORT], [], [WRONG, GOOD], [LATE, GOOD], [GOOD, QUIET, GOOD],
               [INC, GOOD], [DECL, DECL], [GOOD, TWO, GOOD], [QUIET, WRONG, WRONG, MACRO]):
        what = " | ".join(l.text + (" (%s)" % l.cpp if l.cpp != l.text else "") for l in ls) or "end of input"
        with ctx.guarded(what):
            for junk in ("int a;\nint b;\n", "", "\n"):
                outs = session(w, ls, junk)
                want = expected(ls)
                ctx.check(bool(outs), "lines", what, f["loc"], "the REPL doesn't end")
                for o in outs:
                    got = happened(o)
                    ctx.check(got == want, "lines", what, w.site(o),
                              lambda: "what happens is: %s; instead of: %s" % (tell(got), tell(want)))
                    if o.kind == "exit":
                        ctx.check(o.val[2][0] != ("i", 0), "lines", what + " status", w.site(o), "the error isn't in the status")
                    for e in o.st.trace:
                        if e[0] == "cpp":
                            ctx.check(e[1] == ("p", "headers") and re.search(r"(^| )-E( |$)", e[2] or "") and
                                      re.search(r"(^| )-P( |$)", e[2] or ""), "lines", what + " preprocessor", w.site(o),
                                      "the preprocessor is given %s with %s" % (e[2], w.sh(e[1])))


def includes(w, ctx):
    """#include in the REPL."""
    f = w.p.lookup("evaluate.c", "eval_cpp_include")
    if f is None:
        raise Limit("eval_cpp_include not found")
    st = State()
    t, headers = ("p", "t"), ("new", "headers")
    for n, g in w.p.globals["typename.c"].items():
        if g["static"] and not g["type"].endswith("*"):
            st.env[("G", "typename.c", n)] = ("i", 0)
    st.facts[("ty", t)] = frozenset([w.tt["CPP_INCLUDE"]])
    st.env[("F", t, w.p.acc["tCPP_INCLUDE_STR"][1])] = ("str", "#include <new.h>")
    old = ("new", "old")
    make_list(w, st, headers, [old])
    st.env[("F", old, "type")] = ("i", w.tt["CPP_INCLUDE"])
    st.env[("F", old, w.p.acc["tCPP_INCLUDE_STR"][1])] = ("str", "#include <old.h>")
    st.env[("G", "evaluate.c", "include_chain")] = headers
    outer = ("new", "outer")
    st.env[("F", outer, "type")] = ("i", w.tt["E_CTX"])
    st.env[("F", outer, w.p.acc["tECTX_PARENT_CTX"][1])] = ("i", 0)
    st.env[("G", "gc.c", "gc_inhibited")] = ("i", 0)
    st.env[("G", "evaluate.c", "cur_ctx")] = outer
    # what the preprocessor makes of a header with nothing but macros
    fl = w.flow()
    r = w.fronts["cscript"].parse(fl, [], "cscript_translation_unit", "$end", State())
    ctx.check(bool(r), "includes", "a header that declares nothing", "parser.m4", "the parser rejects an empty text")
    for v, s in r or ():
        head = s.env.get(("G", "", "cscript_parse_head"))
        ctx.check(head == ("i", 0) or head == v and v[0] == "new" and s.env.get(("F", v, "type")) == ("i", w.tt["CHAIN_HEAD"]), "includes",
                  "what a header that declares nothing leaves", "parser.m4", "the tree isn't an empty list: %s" % w.sh(head or ("unk",)))
    for parsed in (0, 1):
        fl = Session(w.p, ncap=8, keep_facts=True, unroll=10, saturate=60)
        strings(fl)
        chained = []

        def cpp(fl2, name, args, st, loc, e):
            st = fl2.emit(st, ev(loc, "cpp", args[0], contents(fl2, st, args[1]), args[2], headers_of(w, fl2, st, args[0])))
            return [(("p", "stream"), st)]

        def parse(fl2, name, args, st, loc, e):
            # the parser declares the names of typedefs
            st = fl2.emit(st, ev(loc, "parse", st.env.get(("G", "", "cscriptin"))))
            g = fl2.p.lookup("typename.c", "add_typename")
            n = ("new", "typename")
            st = st.copy()
            st.env[("F", n, "type")] = ("i", w.tt["T_IDENTIFIER"])
            st.cnt["naming"] = 1
            res = fl2.inline(g, (n,), st, loc)
            if len(res) != 1:
                raise Limit("add_typename has several outcomes")
            st = res[0][1].copy()
            st.cnt["naming"] = 0
            st.env[("G", "", "cscript_parse_head")] = ("p", "declarations")
            return [(("i", parsed), st)]

        def chain(fl2, name, args, st, loc, e):
            if st.cnt.get("naming"):
                return [(("void",), fl2.emit(st, ev(loc, "named", args[1])))]
            return None

        def evaluate(fl2, name, args, st, loc, e):
            if args[0] != ("p", "declarations"):
                return None
            c = [v for k, v in st.env.items() if k[0] == "G" and k[2] == "cur_ctx"]
            return [(("i", 0), fl2.emit(st, ev(loc, "evaluate", tuple(c))))]
        fl.special.update({"run_cpp": cpp, "cscriptparse": parse, "tree_chain": chain, "__evaluate": evaluate,
                           "fclose": lambda fl2, name, args, st, loc, e: [(("i", 0), fl2.emit(st, ev(loc, "close", args[0])))],
                           "strdup": lambda fl2, name, args, st, loc, e: [(args[0], st)]})
        outs = run_self(fl, "eval_cpp_include", "evaluate.c", (t, ("i", 0)), st.copy())
        w.note(fl)
        what = "an #include whose headers %s" % ("parse" if not parsed else "don't parse")
        ctx.check(bool(outs), "includes", what, f["loc"], "the #include has no end")
        for o in outs:
            def ck(cond, title, why):
                ctx.check(cond, "includes", "%s: %s" % (what, title), w.site(o), why)
            kinds = [x[0] for x in o.st.trace if x[0] in ("cpp", "parse", "named", "evaluate")]
            want = ["cpp", "parse", "named"] + ([] if parsed else ["evaluate"])
            ck(kinds == want, "steps", lambda: "the steps are %s instead of %s" % (kinds, want))
            ck(o.kind == ("die" if parsed else "ret"), "outcome", lambda: "it ends with %s" % o.kind)
            for x in o.st.trace:
                if x[0] == "cpp":
                    ck(x[4] == ("#include <old.h>", "#include <new.h>") and x[3] == ("i", 0) and
                       re.search(r"(^| )-E( |$)", x[2] or ""), "headers", lambda: "the preprocessor gets %s" % (x[2:],))
                elif x[0] == "parse":
                    ck(x[1] == ("p", "stream"), "source", lambda: "%s is parsed" % w.sh(x[1] or ("unk",)))
                elif x[0] == "named" and not parsed:
                    ck(x[1] == o.st.env.get(("G", "typename.c", "include_type_names")) and x[1][0] == "new", "type names",
                       "the headers' type names aren't kept apart, in a list that is made for them")
                elif x[0] == "evaluate":
                    kept = o.st.env.get(("G", "evaluate.c", "include_ctx"))
                    ck(kept is not None and kept[0] == "new" and kept in x[1], "context",
                       "the declarations aren't evaluated in the context that is kept for headers")
                    ck(kept is not None and o.st.env.get(("F", kept, w.p.acc["tECTX_PARENT_CTX"][1])) == ("i", 0), "parent",
                       "the context for headers keeps the context of the #include alive")
            ck(o.st.env.get(("G", "evaluate.c", "cur_ctx")) == outer or o.kind == "die", "scope", "the current scope is lost")
            ck(headers_of(w, fl, o.st, headers) == ("#include <old.h>", "#include <new.h>") and
               o.st.env.get(("G", "evaluate.c", "include_chain")) == headers, "kept", "the headers aren't kept for later lines")
            if not parsed:
                g = fl.p.lookup("typename.c", "add_typename")
                n, s2 = ("new", "typename"), o.st.copy()
                s2.cnt["naming"] = 1
                s2.trace = ()
                fl.stack.append({"name": "", "unit": "typename.c", "loc": ""})
                for v, s3 in fl.inline(g, (n,), s2, ""):
                    at = [x[1] for x in s3.trace if x[0] == "named"]
                    ck(at and at[0] != o.st.env.get(("G", "typename.c", "include_type_names")), "later names",
                       "type names declared later are taken for the headers'")
                fl.stack.pop()


def preprocess(w, ctx):
    """The text that is preprocessed: the headers and the line."""
    f = w.p.lookup("preprocess.c", "run_cpp")
    for heads in ([], ["#include <a.h>"], ["#include <a.h>", "#include \"b.h\"", "#include <c.h>"]):
        for line in (None, "x + 1;"):
            for status in (0, 256, -1):
                st = State()
                h = ("new", "headers")
                nodes = [("new", "header", k) for k in range(len(heads))]
                make_list(w, st, h, nodes)
                for n, t in zip(nodes, heads):
                    st.env[("F", n, "type")] = ("i", w.tt["CPP_INCLUDE"])
                    st.env[("F", n, w.p.acc["tCPP_INCLUDE_STR"][1])] = ("str", t)
                at_start(w, st)
                fl = Session(w.p, ncap=20, keep_facts=True, unroll=20, saturate=100)
                strings(fl)

                def temp(fl2, name, args, st, loc, e):
                    n = st.cnt.get("temps", 0)
                    st = st.copy()
                    st.cnt["temps"] = n + 1
                    return [(("i", 10 + n), put(st, args[0], "/temp%d.c" % n))]

                def write(fl2, name, args, st, loc, e):
                    t = contents(fl2, st, args[1])
                    if t is None or args[2][0] != "i":
                        raise Limit("write of unknown text")
                    return [(args[2], fl2.emit(st, ev(loc, "write", args[0], t[:args[2][1]])))]

                def system(fl2, name, args, st, loc, e):
                    return [(("i", status), fl2.emit(st, ev(loc, "system", contents(fl2, st, args[0]))))]

                def effect(what, ret):
                    return lambda fl2, name, args, st, loc, e: [(ret, fl2.emit(st, ev(loc, what) + tuple(args)))]
                fl.special.update({"mkstemps": temp, "mkstemp": temp, "write": write, "system": system,
                                   "fdopen": lambda fl2, name, args, st, loc, e: [(("new", "stream", args[0]), st)],
                                   "close": effect("close", ("i", 0)), "unlink": effect("unlink", ("i", 0)),
                                   "free": effect("free", ("void",))})
                what = "%s%s, status %d" % (" ".join(heads) or "no header", " and a line" if line else "", status)
                with ctx.guarded(what):
                    outs = run_self(fl, "run_cpp", "preprocess.c",
                                    (h, ("str", "-E -P"), ("str", line) if line else ("i", 0)), st)
                    w.note(fl)
                    ctx.check(bool(outs), "preprocess", what, f["loc"], "the preprocessor isn't run")
                    for o in outs:
                        sys_ = [k for k, x in enumerate(o.st.trace) if x[0] == "system"]
                        ws = [(k, x) for k, x in enumerate(o.st.trace) if x[0] == "write"]
                        body = "".join(x[2] for k, x in ws)
                        want = "".join(t + "\n" for t in heads) + (line or "")
                        fds = {x[1] for k, x in ws}
                        ctx.check(body.strip() == want.strip() and len(fds) <= 1, "preprocess", what + ": text", f["loc"],
                                  lambda: "the text is %r instead of %r" % (body, want))
                        if not sys_:
                            ctx.fail("preprocess", what + ": command", f["loc"], "the preprocessor isn't run")
                            continue
                        cmd = o.st.trace[sys_[0]][1] or ""
                        src = "/temp%d.c" % (list(fds)[0][1] - 10) if fds else None
                        m = re.match(r"\S+ .*-E -P.*? (\S+) *> *(\S+)$", cmd)
                        ctx.check(len(sys_) == 1 and m and (src is None or m.group(1) == src) and m.group(1) != m.group(2) and
                                  all(k < sys_[0] for k, x in ws), "preprocess", what + ": command", f["loc"],
                                  lambda: "the command is %s" % cmd)
                        if status:
                            ctx.check(o.kind == "exit" and o.val[2][0] != ("i", 0), "preprocess", what + ": failure", f["loc"],
                                      "the failure isn't noticed")
                        else:
                            out = [x for x in (o.val,) if x[:2] == ("new", "stream")]
                            ctx.check(o.kind == "ret" and m and out and "/temp%d.c" % (out[0][2][1] - 10) == m.group(2),
                                      "preprocess", what + ": output", f["loc"], "the output isn't what is returned")
                        gone = {contents(fl, o.st, x[1]) for x in o.st.trace if x[0] == "unlink"}
                        early = [k for k, x in enumerate(o.st.trace) if x[0] == "unlink" and k < sys_[0]]
                        ctx.check(gone == {"/temp0.c", "/temp1.c"} and not early, "preprocess", what + ": files", f["loc"],
                                  lambda: "the files that are removed are %s" % sorted(map(str, gone)))


def headers_of(w, fl, st, h):
    """The texts of the list of headers."""
    out, n = [], h
    for k in range(10):
        p = st.env.get(("F", n, "chain.next"))
        if p is None or p[0] != "pl":
            return None
        n = p[1][1]
        if n == h:
            return tuple(out)
        out.append(contents(fl, st, st.env.get(("F", n, w.p.acc["tCPP_INCLUDE_STR"][1]), ("unk",))))
    return None


def settled(w):
    """A flow and a state in which the REPL has been started."""
    fl = Session(w.p, ncap=20, keep_facts=True, unroll=40, saturate=200)
    strings(fl)
    st = State()
    at_start(w, st)
    return fl, st


def entry(w):
    """The function readline calls for completions."""
    fl, st = settled(w)
    fl.special["readline"] = lambda fl2, name, args, st, loc, e: [(("i", 0), st)]
    fl.special["evaluate_startup_file"] = lambda fl2, name, args, st, loc, e: [(("void",), st)]
    for o in run_self(fl, "bic_repl", "repl.c", (), st):
        v = o.st.env.get(("G", "", "rl_attempted_completion_function"))
        if v is None:
            return None
        if v[0] == "pl":
            v = ("fn", v[1][1])
        return v[1] if isinstance(v[1], str) else v[1][-1]
    return None


def name_map(w, st, key, names):
    """A list of E_MAPs for the names."""
    h = ("new", "map " + key)
    nodes = []
    for n in names:
        m, i = ("new", "entry " + key, n), ("new", "id " + key, n)
        st.env[("F", i, "type")] = ("i", w.tt["T_IDENTIFIER"])
        st.env[("F", i, w.p.acc["tID_STR"][1])] = ("str", n)
        st.env[("F", m, w.p.acc["tEMAP_LEFT"][1])] = i
        nodes.append(m)
    make_list(w, st, h, nodes)
    for m in nodes:
        st.env[("F", m, "type")] = ("i", w.tt["E_MAP"])
    return h


def complete(w, name, typed, setup, more=None):
    """Outcomes of asking for the completions of what was typed."""
    fl, st = settled(w)
    st = setup(st)

    def ident(fl2, nm, args, st, loc, e):
        st = st.copy()
        n = st.cnt["made"] = st.cnt.get("made", 0) + 1
        x = ("new", "made", n)
        st.env[("F", x, "type")] = ("i", w.tt["T_IDENTIFIER"])
        st.env[("F", x, w.p.acc["tID_STR"][1])] = args[0]
        return [(x, st)]
    fl.special["get_identifier"] = ident
    fl.special.update(more or {})
    outs = run_self(fl, name, "repl.c", (("str", typed), ("i", 0), ("i", len(typed))), st)
    w.note(fl)
    return fl, outs


def offered(fl, o):
    """The strings readline is given, or None."""
    if o.val == ("i", 0):
        return []
    base, off = place(o.val)
    out = []
    for k in range(30):
        v = o.st.env.get(("X", base, ("i", off + k)))
        if v is None and base[:2] == ("new", "zeroed"):
            v = ("i", 0)
        if v is None:
            return ["?"]
        size = o.st.env.get(("SIZE", base))
        if size is not None and 8 * (off + k + 1) > size[1]:
            return ["more than there is room for"]
        if v == ("i", 0):
            return out
        out.append(contents(fl, o.st, v))
    return ["?"]


def completion(w, ctx):
    """The names that are offered."""
    name = entry(w)
    f = w.p.lookup("repl.c", name) if name else None
    if f is None:
        ctx.fail("completion", "registration", w.p.lookup("repl.c", "bic_repl")["loc"], "no completion function is registered")
        return
    E = lambda a: w.p.acc[a][1]

    def scopes(st):
        inner, outer, heads = ("new", "inner"), ("new", "outer"), ("new", "heads")
        for c, k, names, parent in ((inner, "inner", ["foo", "bar", "food"], outer), (outer, "outer", ["fizz", "foo2", "fo"], ("i", 0)),
                                    (heads, "heads", ["fopen", "bare"], ("i", 0))):
            st.env[("F", c, "type")] = ("i", w.tt["E_CTX"])
            st.env[("F", c, E("tECTX_PARENT_CTX"))] = parent
            st.env[("F", c, E("tECTX_IS_FN_CALL"))] = ("i", 0)
            st.env[("F", c, E("tECTX_ID_MAP"))] = name_map(w, st, k, names)
        for u in ("", "evaluate.c"):
            st.env[("G", u, "cur_ctx")] = inner
            st.env[("G", u, "include_ctx")] = heads
            st.env[("G", u, "toplevel_ctx")] = outer
        return st
    every = ["foo", "bar", "food", "fizz", "foo2", "fo", "fopen", "bare"]
    for typed in ("fo", "ba", "fi", "zz", "foo", "food", "b", "bar", "barex", "f"):
        want = sorted(n for n in every if n.startswith(typed))
        with ctx.guarded("completions of %s" % typed):
            fl, outs = complete(w, name, typed, scopes)
            ctx.check(bool(outs), "completion", typed, f["loc"], "nothing is returned")
            for o in outs:
                got = offered(fl, o) if o.kind == "ret" else [o.kind]
                ok = got == want if len(want) < 2 else got[:1] == [typed] and sorted(map(str, got[1:])) == want
                ctx.check(ok, "completion", typed, f["loc"], lambda: "%s are offered for `%s' instead of %s" % (got, typed, want))
    # members: a child process evaluates the object and reports the names
    members = ["mem1", "other", "mem2"]
    for typed, expr, op, prefix in (("obj.me", "obj", ".", "me"), ("p->me", "p", "->", "me"), ("a.b.o", "a.b", ".", "o"),
                                    ("a->b.", "a->b", ".", ""), ("a.b->mem2", "a.b", "->", "mem2"), ("o.x", "o", ".", "x")):
        for result in ("compound", "variable", "nothing", "syntax"):
            what = "%s (%s)" % (typed, result)
            want = [expr + op + m for m in members if m.startswith(prefix)] if result == "compound" else []
            with ctx.guarded("completions of %s" % what):
                members_of(w, ctx, name, f, typed, expr, op, result, members, want, what, scopes)


def members_of(w, ctx, name, f, typed, expr, op, result, members, want, what, scopes):
    def ck(cond, title, o, why):
        ctx.check(cond, "completion", "%s: %s" % (what, title), f["loc"], why)

    def child_parse(fl2, nm, args, st, loc, e):
        st = st.copy()
        make_list(w, st, ("new", "parsed"), [("new", "expression")])
        st.env[("F", ("new", "expression"), "type")] = ("i", w.tt["T_ADD"])
        st.env[("G", "", "repl_parse_head")] = ("new", "parsed")
        return [(("i", int(result == "syntax")), st)]

    def scan(fl2, nm, args, st, loc, e):
        return [(("p", "buffer"), fl2.emit(st, ev(loc, "scan", contents(fl2, st, args[0]))))]

    def evaluate(fl2, nm, args, st, loc, e):
        st = fl2.emit(st, ev(loc, "evaluate", args[0])).copy()
        if result == "nothing":
            return [(("i", 0), st)]
        x = ("new", "object")
        ok = result == "compound" and args[0] == ("new", "expression")
        st.env[("F", x, "type")] = ("i", w.tt["T_LIVE_COMPOUND" if ok else "T_LIVE_VAR"])
        st.env[("F", x, w.p.acc["tLV_COMP_MEMBERS"][1])] = name_map(w, st, "members", members)
        return [(x, st)]

    def write(fl2, nm, args, st, loc, e):
        if args[1][0] == "pl" and args[1][1][0] in ("L", "S", "G"):
            v = fl2.load(args[1][1], st)
            if v[0] != "i":
                raise Limit("an unknown number is sent")
        else:
            v = ("text", contents(fl2, st, args[1]))
        return [(args[2], fl2.emit(st, ev(loc, "write", v, args[2])))]

    def effect(what, ret):
        return lambda fl2, nm, args, st, loc, e: [(ret, fl2.emit(st, ev(loc, what) + tuple(args)))]
    base = {"replparse": child_parse, "repl_scan_string": scan, "evaluate_expr": evaluate, "write": write,
            "pipe": effect("pipe", ("i", 0)), "close": effect("close", ("i", 0)), "waitpid": effect("wait", ("i", 0)),
            "free": effect("free", ("void",)), "repl_delete_buffer": effect("unscan", ("void",))}
    fl, outs = complete(w, name, typed, scopes, dict(base, fork=effect("fork", ("i", 0)), read=reader([])))
    ck(bool(outs), "child", None, "the process that evaluates the object has no end")
    sent = None
    for o in outs:
        ck(o.kind == "exit", "child ends", o, "the process that evaluates the object goes on as a second REPL")
        scans = [x[1] for x in o.st.trace if x[0] == "scan"]
        src = re.sub(r"\s", "", scans[0] or "") if scans else ""
        ck(len(scans) == 1 and src in ((expr + ";", "(%s);" % expr) if op == "." else ("*(%s);" % expr, "(*(%s));" % expr, "*%s;" % expr)),
           "object", o, lambda: "the expression that is evaluated is %s" % scans)
        sent = [x[1:] for x in o.st.trace if x[0] == "write"]
    fl, outs = complete(w, name, typed, scopes, dict(base, fork=effect("fork", ("i", 77)), read=reader(sent or [])))
    ck(bool(outs), "parent", None, "there is no answer")
    for o in outs:
        got = offered(fl, o) if o.kind == "ret" else [o.kind]
        ok = got == want if len(want) < 2 else got[:1] == [typed] and sorted(map(str, got[1:])) == sorted(want)
        ck(ok, "offer", o, lambda: "%s are offered instead of %s" % (got, want))
        ck(not any(x[0] in ("scan", "evaluate") for x in o.st.trace), "effects", o, "the object is evaluated in the REPL's own process")
    # the child died: there is nothing to read
    fl, outs = complete(w, name, typed, scopes, dict(base, fork=effect("fork", ("i", 77)), read=reader([])))
    for o in outs:
        got = offered(fl, o) if o.kind == "ret" else [o.kind]
        ck(got == [], "dead child", o, lambda: "%s are offered when the object can't be evaluated" % got)


def reader(items):
    def read(fl2, nm, args, st, loc, e):
        n = st.cnt.get("read", 0)
        if n >= len(items):
            return [(("i", 0), st)]
        st = st.copy()
        st.cnt["read"] = n + 1
        v, size = items[n]
        if v[0] == "text":
            st = put(st, args[1], v[1] or "")
        else:
            st.env[fl2.cell_of(args[1])] = v
        return [(args[2], st)]
    return read


def startup(w, ctx):
    """The startup file."""
    f = w.p.lookup("repl.c", "bic_repl")
    for home in ("/home/u", None):
        for there in (True, False):
            fl, st = settled(w)
            user = ("new", "user")

            def getpwuid(fl2, nm, args, st, loc, e):
                st = st.copy()
                st.env[("F", user, "pw_dir")] = ("str", "/home/v")
                return [(user, st)]
            fl.special.update({
                "getenv": lambda fl2, nm, args, st, loc, e: [(("str", home) if home and args[0] == ("str", "HOME") else ("i", 0), st)],
                "getpwuid": getpwuid, "getuid": lambda fl2, nm, args, st, loc, e: [(("i", 5), st)],
                "access": lambda fl2, nm, args, st, loc, e: [(("i", 0 if there else -1),
                                                              fl2.emit(st, ev(loc, "access", contents(fl2, st, args[0]), args[1])))],
                "evaluate_cscript": lambda fl2, nm, args, st, loc, e: [
                    (("i", 0), fl2.emit(st, ev(loc, "script", contents(fl2, st, args[0]), args[1])))],
                "readline": lambda fl2, nm, args, st, loc, e: [(("i", 0), fl2.emit(st, ev(loc, "read")))],
                "free": lambda fl2, nm, args, st, loc, e: [(("void",), st)]})
            what = "HOME %s, %s file" % (home or "unset", "a" if there else "no")
            with ctx.guarded(what):
                outs = run_self(fl, "bic_repl", "repl.c", (), st)
                w.note(fl)
                ctx.check(bool(outs), "startup", what, f["loc"], "the REPL doesn't start")
                for o in outs:
                    got = [x for x in o.st.trace if x[0] in ("script", "read")]
                    name = (home or "/home/v") + "/.bic"
                    want = ([("script", name, ("i", 0))] if there else []) + [("read",)]
                    ctx.check([tuple(x) for x in got] == want, "startup", what, w.site(o),
                              lambda: "what happens is %s instead of %s" % (got, want))


def run(ctx):
    R = ctx.rule
    R("lines", "a line is parsed, preprocessed after the headers and parsed again, evaluated once, and its value printed")
    R("includes", "an #include re-reads all headers, in order, and their declarations replace those of earlier headers")
    R("preprocess", "the preprocessor gets the headers and the line, and its output is what is used")
    R("completion", "the names that are offered are those that are visible, or members, and start with what was typed")
    R("startup", "the file .bic in the home directory is run before the first line is read")
    w = World(ctx, targets=("cscript",))
    initial(w)
    spread(ctx, [("lines", lambda: lines(w, ctx)), ("includes", lambda: includes(w, ctx)), ("preprocess", lambda: preprocess(w, ctx)),
                 ("completion", lambda: completion(w, ctx)), ("startup", lambda: startup(w, ctx))])
    for rule, n in (("lines", 400), ("includes", 15), ("preprocess", 80), ("completion", 200), ("startup", 8)):
        ctx.need(rule, n)
