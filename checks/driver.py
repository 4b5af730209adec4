"""P20: what a run of bic does as a whole."""
import re
import lexical
from program import *
from oblig import spread
from storage import root

INT = ["0", "1", "2", "7", "42", "127", "128", "255"]


def apart(a, b):
    """Do two pointers point into different allocations, or to different elements of one?"""
    (ra, ka), (rb, kb) = root(a), root(b)
    if not (allocated(ra) and allocated(rb)):
        return False
    return ra != rb or abs(ka - kb) >= 8


def head(st):
    """The variable the parser leaves the program in."""
    return ("G", "", "cscript_parse_head")


def at_start(w, st):
    """Objects with static storage duration are zero when the program starts."""
    for u, gl in w.p.globals.items():
        for n, g in gl.items():
            c = ("G", u if g["static"] else "", n)
            if g["static"] and not g.get("init") and "[" not in g["type"] and g["type"].endswith("*"):
                st.env.setdefault(c, ("i", 0))
    return st


def text(fl, st, p):
    """The contents of a string, or None."""
    while p[0] == "r" and p[1] in ("strdup", "__strdup"):
        p = p[2][0]
    if p[0] == "str":
        return p[1]
    base, off = root(p)
    if ("TXT", base) in st.env:
        return st.env[("TXT", base)][1][off:]
    if fl.load(fl.elem_cell(p, ("i", 0)), st) == ("i", 0):
        return ""
    return None


def strings(fl):
    """Model the functions that compose strings."""
    def need(fl2, st, p):
        t = text(fl2, st, p)
        if t is None:
            raise Limit("string with unknown contents: %s" % (p,))
        return t

    def strlen(fl2, name, args, st, loc, e):
        t = text(fl2, st, args[0])
        return None if t is None else [(("i", len(t)), st)]

    def put(st, p, t):
        base, off = root(p)
        if off:
            t = st.env[("TXT", base)][1][:off] + t
        st = st.copy()
        st.env[("TXT", base)] = ("str", t)
        return st

    def add(keep):
        def h(fl2, name, args, st, loc, e):
            t = (need(fl2, st, args[0]) if keep else "") + need(fl2, st, args[1])
            return [(args[0], put(st, args[0], t))]
        return h

    def fmt(fl2, st, args):
        f, rest, out = need(fl2, st, args[0]), list(args[1:]), ""
        for piece in re.split(r"(%[-.0-9]*[a-z%])", f):
            if piece == "%%":
                out += "%"
            elif piece[:1] == "%" and piece[-1] == "s":
                t = text(fl2, st, rest.pop(0))
                out += piece % ("?" if t is None else t)
            elif piece[:1] == "%":
                raise Limit("format %s" % piece)
            else:
                out += piece
        return out

    def asprintf(fl2, name, args, st, loc, e):
        c = fl2.cell_of(args[0])
        t = fmt(fl2, st, args[1:])
        st = fl2.emit(st, ev(loc, "command", t))
        st = st.copy()
        p = ("pl", ("G", "", "#command"))
        st.env[c] = p
        st.env[("TXT", p)] = ("str", t)
        return [(("i", len(t)), st)]

    def sprintf(k):
        def h(fl2, name, args, st, loc, e):
            t = fmt(fl2, st, args[k:])
            return [(("i", len(t)), put(st, args[0], t))]
        return h
    fl.special.update({"strlen": strlen, "strcat": add(True), "strcpy": add(False), "asprintf": asprintf,
                       "sprintf": sprintf(1), "snprintf": sprintf(2)})


def script(w, prog, argc=1, parsed=0, closed=0, opened=True, dump=0, kind="TEXTUAL", argv=("p", "argv"), observe=None, **kw):
    """Outcomes of evaluate_cscript on a program."""
    items = tokens(prog)
    reads = []

    def run(fl, v, s):
        s = s.copy()
        s.trace = ()
        at_start(w, s)
        f = fl.p.lookup("cscript.c", "evaluate_cscript")
        if f is None:
            raise Limit("evaluate_cscript not found")
        fl.outcomes_dead = []

        def parse(fl2, name, args, st, loc, e):
            st = fl2.emit(st, ev(loc, "parse", st.env.get(("G", "", "cscriptin"))))
            if st.env.get(head(st)) != v:
                st = st.copy()
                st.env[head(st)] = v
            return [(("i", parsed), st)]

        def popen(fl2, name, args, st, loc, e):
            st = fl2.emit(st, ev(loc, "call", "popen", args))
            return [(("pl", ("G", "", "#stream")) if opened else ("i", 0), st)]

        def pclose(fl2, name, args, st, loc, e):
            return [(("i", closed), fl2.emit(st, ev(loc, "call", "pclose", args)))]

        def asprintf(fl2, name, args, st, loc, e):
            st = fl2.emit(st, ev(loc, "call", "asprintf", args))
            st = st.copy()
            c = fl2.cell_of(args[0])
            st.env[c] = ("pl", ("G", "", "#command"))
            return [(("i", 1), st)]
        fl.special.update({"cscriptparse": parse, "popen": popen, "pclose": pclose, "asprintf": asprintf,
                           "__asprintf": asprintf})
        for n in ("tree_dump", "tree_dump_dot"):
            fl.special[n] = lambda fl2, name, args, st, loc, e: [(("void",), fl2.emit(st, ev(loc, "dump", args[0])))]
        fl.catch = True
        fl.distinct = (lambda old: lambda a, b: apart(a, b) or old(a, b))(fl.distinct)
        fl.special.pop("cscript_exit", None)
        fl.stack.append({"name": "", "unit": "cscript.c", "loc": ""})
        try:
            res = fl.inline(f, (("str", "f.c"), ("i", dump), ("i", w.p.enums[kind]), ("i", argc), argv), s, "")
        finally:
            fl.stack.pop()
        return [Outcome("ret", x, s2) for x, s2 in res] + fl.outcomes_dead
    kw.setdefault("early", True)
    kw.setdefault("ncap", 200)
    outs = execute(w, prog, observe=observe, more=("argc", "argv", "main"), run=run, **kw)
    if outs is None:
        raise Limit("the grammar rejects %s" % prog)
    return outs


def status(o):
    """The exit status, when it is known."""
    v = o.val
    if o.kind in ("ret", "exit"):
        x = v if o.kind == "ret" else v[2][0]
        if x[0] == "i":
            return x[1] & 255
    return None


def ends(w, o):
    s = status(o)
    return "an error" if o.kind == "die" else "status %s" % (w.sh(o.val) if s is None else s)


def fails(o):
    return o.kind == "die" or status(o) not in (None, 0)


def order(o):
    """The operands that were evaluated, in order."""
    return [e[1][1] for e in o.st.trace if e[0] == "eval" and e[1][0] == "p" and e[1][1][0] != "#"]


def position(o, what):
    for i, e in enumerate(o.st.trace):
        if e[0] == what or e[0] == "call" and e[1] == what:
            return i
    return None


def statuses(w, ctx):
    """What main returns is the status."""
    loc = w.p.lookup("cscript.c", "evaluate_cscript")["loc"]
    for form, wants in (("int main() { return %s; }", INT), ("int main(int argc, char **argv) { return %s; }", ["5"]),
                        ("int f() { return 9; } int main() { f(); return %s; }", ["3"]),
                        ("int main() { int x = %s; return x; }", ["6"]),
                        ("int main() { { return %s; } return 1; }", ["8"]),
                        ("char main() { return %s; }", ["0", "4"]), ("long main() { return %s; }", ["0", "4"]),
                        ("unsigned int main() { return %s; }", ["4"]),
                        ("return %s;", ["0", "3", "255"]), ("int x = %s; return x;", ["5"]),
                        ("{ return %s; }", ["5"])):
        for n in wants:
            prog = form % n
            outs = script(w, prog)
            ctx.check(bool(outs), "status", prog, loc, "the program has no end")
            for o in outs:
                if status(o) is None and o.kind in ("ret", "exit"):
                    raise Limit("status not known: %s" % w.sh(o.val))
                ctx.check(status(o) == int(n) & 255, "status", prog, w.site(o),
                          lambda: "the program `%s' ends with %s" % (prog, ends(w, o)))
    for prog in ("int main() { }", "int main() { @A; }", "@A;", "int x;", "int f() { return 3; }",
                 "int mainly() { return 3; }", "int f() { return 4; } f();", "int f() { return 4; } int main() { f(); }"):
        outs = script(w, prog)
        for o in outs:
            ctx.check(o.kind in ("ret", "exit") and status(o) == 0, "status", prog, w.site(o),
                      lambda: "the program `%s' ends with %s" % (prog, ends(w, o)))


def sequence(w, ctx):
    """Which code is run, and in which order."""
    loc = w.p.lookup("cscript.c", "evaluate_cscript")["loc"]
    for prog, want in (("@A; @B; @C;", "ABC"), ("int main() { @A; @B; }", "AB"),
                       ("int x = @A; int main() { @B; return 2; }", "AB"),
                       ("int main() { @B; } int x = @A;", "AB"), ("int f() { @A; } int main() { @B; }", "B"),
                       ("int f() { @A; } int main() { @B; f(); @C; }", "BAC"),
                       ("int main() { @A; return 0; @B; }", "A"), ("@A; return 1; @B;", "A"),
                       ("int f() { @A; return 1; } @B; f(); @C;", "BAC"),
                       ("int mainly() { @A; }", ""), ("int mai() { @A; } @B;", "B"),
                       ("int f() { @A; } int g() { f(); @B; } int main() { g(); @C; }", "ABC"),
                       ("int main(int n) { @A; }", "A"), ("int main(int n, char **v) { @A; }", "A"),
                       ("int x = @A, y = @B; int main() { @C; }", "ABC"),
                       ("static int x = @A; int main() { @C; }", "AC"),
                       ("int main(int n, char **v) { @A; { @B; return 0; } @C; }", "AB")):
        outs = script(w, prog)
        ctx.check(bool(outs), "sequence", prog, loc, "the program has no end")
        for o in outs:
            got = order(o)
            ctx.check(got == list(want) and o.kind in ("ret", "exit"), "sequence", prog, w.site(o),
                      lambda: "`%s' evaluates %s instead of %s" % (prog, " ".join(got) or "nothing", " ".join(want)
                                                                 or "nothing"))
    for prog in ("@A; int main() { @B; }", "int main() { @B; } @A;", "int x; if (@A) @B; int main() { @C; }",
                 "int main() { @A; } int f() { @B; } f();"):
        for o in script(w, prog):
            ctx.check(fails(o) and not order(o), "sequence", prog, w.site(o),
                      "a program with both main and statements outside of functions isn't rejected")


def content(w, fl, st, v, member):
    """What an object of the program contains."""
    if v[0] != "new" and v[0] != "ld":
        return None
    p = fl.load(("F", v, w.f_lvval), st)
    return st.env.get(("F", p, member))


def strip(v):
    """A pointer without the conversions that keep it."""
    while True:
        if v[0] == "cast" and (v[1].endswith("*") or v[1] in ("long", "unsigned long", "uintptr_t", "ptrdiff_t")):
            v = v[2]
        elif v[0] in ("wrap", "zv"):
            v = v[1]
        elif v[0] == "zget":
            v = v[2]
        else:
            return v


def arguments(w, ctx):
    """What argc and argv are."""
    loc = w.p.lookup("cscript.c", "evaluate_cscript")["loc"]
    P = ("p", "args")
    for n in (1, 2, 3):
        for form, c, v in (("%s", "argc", "argv"), ("int main(int argc, char **argv) { %s }", "argc", "argv"),
                           ("int main(int k, char *v[]) { %s }", "k", "v"), ("int main(int k) { %s }", "k", None)):
            for k in range(-1, n + 1 if v else 0):
                use = c if k < 0 else "%s[%d]" % (v, k)
                prog = form % ("int r; r = %s; r;" % use if k < 0 else "char *r; r = %s; r;" % use)

                def observe(name, x, fl, st):
                    if name != "r":
                        return st
                    return fl.emit(st, ev("", "use", content(w, fl, st, x, "D_T_INT" if k < 0 else "D_T_PTR")))
                outs = script(w, prog, argc=n, argv=P, observe=observe)
                title = "%s with %d of them" % (prog, n)
                ctx.check(bool(outs), "arguments", title, loc, "the program has no end")
                for o in outs:
                    got = [e[1] for e in o.st.trace if e[0] == "use"][-1:]
                    if not got or got[0] is None:
                        ctx.fail("arguments", title, w.site(o), "%s isn't available: the program ends with %s"
                                 % (use, ends(w, o)))
                        continue
                    x = got[0] if k < 0 else strip(got[0])
                    if x[0] == "ld" and x not in o.st.env:
                        r, off = root(x[1])
                        size = r[2][0][1] * r[2][1][1] if r[0] == "r" and r[1] == "calloc" and \
                            all(y[0] == "i" for y in r[2]) else 0
                        x = ("i", 0) if off + 8 <= size else x
                    want = ("i", n) if k < 0 else ("i", 0) if k == n else ("ldx", P, ("i", k))
                    ctx.check(x == want, "arguments", title, w.site(o),
                              lambda: "%s is %s" % (use, w.sh(x)))


def failures(w, ctx):
    """A program that can't be read isn't run."""
    loc = w.p.lookup("cscript.c", "evaluate_cscript")["loc"]
    for prog in ("@A;", "int x = @A; int main() { @B; return 0; }"):
        for what, kw in (("doesn't conform to the grammar", {"parsed": 1}), ("exhausts the parser", {"parsed": 2}),
                         ("can't be preprocessed", {"closed": 256}), ("kills the preprocessor", {"closed": 11}),
                         ("isn't passed to the preprocessor", {"opened": False})):
            for o in script(w, prog, **kw):
                ctx.check(not order(o) and fails(o), "failures", "a program that %s: %s" % (what, prog), w.site(o),
                          lambda: "a program that %s is run, or ends with %s" % (what, ends(w, o)))
        for o in script(w, prog):
            tr = o.st.trace
            k = next((i for i, e in enumerate(tr) if e[0] == "parse"), None)
            c = next((i for i, e in enumerate(tr) if e[0] == "call" and e[1] == "asprintf"), None)
            ctx.check(k is not None and tr[k][1] == ("pl", ("G", "", "#stream")), "failures",
                      "what is parsed: %s" % prog, w.site(o), "the parser doesn't read the preprocessor's output")
            ctx.check(c is not None and ("str", "f.c") in tr[c][2], "failures", "what is preprocessed: %s" % prog,
                      w.site(o), "the preprocessor isn't given the program's file")
            ctx.check(sum(e[0] == "parse" for e in tr) == 1, "failures", "read once: %s" % prog, w.site(o),
                      "the program is parsed more than once")
        for o in [o for k in ("TEXTUAL", "DOT") for n in (1, 3) for o in script(w, prog, dump=1, kind=k, argc=n)]:
            ctx.check(not order(o) and status(o) == 0 and any(e[0] == "dump" for e in o.st.trace), "failures",
                      "dump of %s" % prog, w.site(o), "a program that is to be dumped is run, or isn't dumped")
    n = 0
    for (u, nm), f in all_functions(w):
        if not f.get("noreturn") or not f.get("body") or nm == "main":
            continue
        fl = w.flow(unroll=2)
        fl.special.pop(nm, None)
        with ctx.guarded(nm):
            outs = run_self(fl, nm, u, tuple(("p", "a%d" % i) for i in range(len(f["params"]))), State())
            n += 1
            for o in outs:
                zero = o.kind == "exit" and o.val[2][0] == ("i", 0)
                ctx.check(o.kind != "ret" and not zero, "errors", "%s (%s)" % (nm, o.kind), f["loc"],
                          "%s ends the program successfully" % nm if zero else "%s returns" % nm)
                if o.kind == "exit" and o.val[2][0][0] == "i":
                    said = any(e[0] == "call" and e[1] in ("fprintf", "vfprintf", "perror", "fputs", "fputc", "fwrite",
                                                          "__fprintf_chk", "__vfprintf_chk") for e in o.st.trace)
                    ctx.check(said, "errors", "%s reports" % nm, f["loc"], "%s ends the program silently" % nm)
    f = w.p.lookup("cscript.c", "cscripterror")
    fl = w.flow(unroll=2)
    fl.special.pop("cscripterror", None)
    for o in run_self(fl, "cscripterror", "cscript.c", (("p", "message"),), State()):
        said = any(e[0] == "call" and e[1] in ("fprintf", "perror", "fputs", "__fprintf_chk") for e in o.st.trace)
        ctx.check(o.kind == "exit" and o.val[2][0][0] == "i" and o.val[2][0][1] & 255 and said, "errors",
                  "syntax errors", f["loc"], "a syntax error doesn't end the program with an error")


def all_functions(w):
    seen = set()
    for u, fs in sorted(w.p.units.items()):
        for n, f in sorted(fs.items()):
            if (n, f["loc"]) not in seen:
                seen.add((n, f["loc"]))
                yield (u, n), f


def options(w, ctx):
    """The command line."""
    f = w.p.lookup("main.c", "main")

    def go(opts, argc, optind, dl=True):
        given, strs = list(opts), []
        fl = w.flow(unroll=8)

        def getopt(fl2, name, args, st, loc, e):
            strs.append(args[2])
            n = st.cnt.get("getopt", 0)
            st = st.copy()
            st.cnt["getopt"] = n + 1
            st = fl2.emit(st, ev(loc, "getopt", ("i", n)))
            if n >= len(given):
                st.env[("G", "", "optind")] = ("i", optind)
                return [(("i", -1), st)]
            o, arg = given[n]
            st.env[("G", "", "optarg")] = ("str", arg) if arg is not None else ("i", 0)
            st.env[("G", "", "optind")] = ("i", optind if n == len(given) - 1 else 2)
            return [(("i", ord(o)), st)]

        def effect(ret):
            return lambda fl2, name, args, st, loc, e: [(ret, fl2.emit(st, ev(loc, "call", name, args)))]
        fl.special.update({"getopt": getopt, "getopt_long": getopt, "dlopen": effect(("pl", ("G", "", "#lib")) if dl else ("i", 0)),
                           "evaluate_cscript": effect(("p", "status")), "bic_repl": effect(("void",)),
                           "typename_init": effect(("void",)), "eval_init": effect(("void",)),
                           "preprocessor_add_include_dir": effect(("void",)),
                           "concat_strings": lambda fl2, name, args, st, loc, e: [
                               (("str", args[0][1] + args[1][1]) if args[0][0] == args[1][0] == "str"
                                else ("r", name, args, 0), st)],
                           "strcmp": lambda fl2, name, args, st, loc, e: [
                               (("i", int(args[0] != args[1])), st)] if args[0][0] == args[1][0] == "str" else None,
                           "strdup": lambda fl2, name, args, st, loc, e: [(args[0], st)]})
        st = State()
        for n, g in w.p.globals["main.c"].items():
            i = g.get("init")
            while i is not None and i[0] == "cast":
                i = i[2]
            if i is not None and i[0] in ("i", "e"):
                st.env[("G", "main.c" if g["static"] else "", n)] = ("i", i[1] if i[0] == "i" else i[2])
            elif g.get("static") and i is None:
                st.env[("G", "main.c", n)] = ("i", 0)
        outs = run_self(fl, "main", "main.c", (("i", argc), ("p", "argv")), st)
        return outs, strs

    def calls(o, n):
        return [e[2] for e in o.st.trace if e[0] == "call" and e[1] == n]

    def ck(cond, title, o, why):
        ctx.check(cond, "options", title, w.site(o) if o else f["loc"], why)
    cases = [([("s", "x.c")], 5, 3, 0, "TEXTUAL", "-s x.c a b"), ([("s", "x.c")], 3, 3, 0, "TEXTUAL", "-s x.c"),
             ([("T", None), ("s", "x.c")], 4, 4, 1, "TEXTUAL", "-T -s x.c"),
             ([("D", None), ("T", None), ("s", "x.c")], 6, 5, 1, "DOT", "-D -T -s x.c a"),
             ([("I", "dir"), ("s", "x.c")], 5, 5, 0, "TEXTUAL", "-I dir -s x.c"),
             ([("I", "d1"), ("I", "d2"), ("s", "x.c")], 8, 7, 0, "TEXTUAL", "-I d1 -I d2 -s x.c a"),
             ([("l", "foo"), ("s", "x.c")], 7, 5, 0, "TEXTUAL", "-l foo -s x.c a b")]
    for opts, argc, oi, dump, kind, title in cases:
        outs, strs = go(opts, argc, oi)
        ck(bool(outs), title, None, "bic has no end")
        for o in outs:
            c = calls(o, "evaluate_cscript")
            ck(len(c) == 1 and o.kind == "ret" and o.val == ("p", "status"), title + ": the script is run", o,
               "the script isn't run once and its status returned")
            if not c:
                continue
            a = c[0]
            ck(a[0] == ("str", "x.c"), title + ": the file", o, "the script isn't the file that -s names")
            ck(a[1] == ("i", dump), title + ": the dump", o, "-T isn't taken into account")
            ck(a[3] == ("i", argc - oi + 1), title + ": argc", o, "the script has %s arguments" % (a[3][1:],))
            v = a[4]
            while v[0] == "op" and v[1] == "+" and v[3][0] == "i":
                v = ("pl", ("X", v[2], v[3]))
            ck(v == ("pl", ("X", ("p", "argv"), ("i", oi - 1))), title + ": argv", o,
               lambda: "the script's arguments begin with %s" % w.sh(v))
            dirs = [x[0] for x in calls(o, "preprocessor_add_include_dir")]
            ck(dirs == [("str", x) for n, x in opts if n == "I"], title + ": directories", o,
               "the include directories are %s" % [w.sh(x) for x in dirs])
            libs = [x[0] for x in calls(o, "dlopen")]
            ck(bool(libs) == any(n == "l" for n, x in opts), title + ": libraries", o, "libraries aren't opened")
            ck(len(calls(o, "eval_init")) == 1 and len(calls(o, "typename_init")) == 1, title + ": preparation", o,
               "the evaluator isn't prepared")
            kinds = {a2[2] for o2 in outs for a2 in calls(o2, "evaluate_cscript")}
            ck(len(kinds) == 1, title + ": format", o, "the format of dumps isn't fixed")
            ck(sum(e[0] == "getopt" for e in o.st.trace) == len(opts), title + ": the script's own options", o,
               "options after the script's name are taken for bic's")
    kinds = []
    for opts in ([("T", None), ("s", "x")], [("D", None), ("T", None), ("s", "x")], [("T", None), ("D", None), ("s", "x")]):
        kinds.append({a[2] for o in go(opts, 4, 4)[0] for a in calls(o, "evaluate_cscript")})
    ck(kinds[0] != kinds[1] == kinds[2], "-D", None, "-D doesn't choose another format for dumps")
    for o in go([], 1, 1)[0]:
        ck(len(calls(o, "bic_repl")) == 1 and o.kind == "ret" and o.val == ("i", 0) and not calls(o, "evaluate_cscript"),
           "no script", o, "bic without a script isn't the REPL")
    for opts, dl, title, ok in (([("?", None)], True, "an unknown option", 0), ([("l", "foo"), ("s", "x")], False, "a library "
                                "that can't be opened", 0), ([("v", None)], True, "-v", 1)):
        for o in go(opts, 4, 4, dl)[0]:
            ck(o.kind == "exit" and (status(o) == 0) == bool(ok) and not calls(o, "evaluate_cscript") and
               not calls(o, "bic_repl"), title, o, "%s ends with %s" % (title, ends(w, o)))
    s = go([], 1, 1)[1]
    if s and s[0][0] == "str":
        for x in ("v", "T", "D", "l:", "s:", "I:"):
            i = s[0][1].find(x[0])
            ck(i >= 0 and (s[0][1][i + 1:i + 2] == ":") == (len(x) == 2), "option -%s" % x[0], None,
               "the option -%s isn't recognised with%s an argument" % (x[0], "" if len(x) == 2 else "out"))


def commands(fl, outs):
    return [(o, [e[1] for e in o.st.trace if e[0] == "command"]) for o in outs]


def directories(w, ctx):
    """The commands that preprocess scripts and lines name the directories, in order."""
    for dirs in ((), ("d1",), ("d1", "d2"), ("d1", "d2", "d3")):
        for what in ("script", "line"):
            f = w.p.lookup("cscript.c", "evaluate_cscript") if what == "script" else w.p.lookup("preprocess.c", "run_cpp")
            title = "%d directories, a %s" % (len(dirs), what)
            with ctx.guarded(title):
                fl = w.flow(unroll=8)
                strings(fl)
                fl.outcomes_dead = []
                opened = lambda fl2, name, args, st, loc, e: [(("pl", ("G", "", "#stream")), st)]
                ok = lambda fl2, name, args, st, loc, e: [(("i", 0), st)]
                fl.special.update({"popen": opened, "fopen": opened, "fdopen": opened, "pclose": ok,
                                   "cscriptparse": lambda fl2, name, args, st, loc, e: [(("i", 1), st)],
                                   "system": ok, "fclose": ok,
                                   "open": lambda fl2, name, args, st, loc, e: [(("i", 5), st)],
                                   "mkstemps": lambda fl2, name, args, st, loc, e: [(("i", 5), st)]})
                fl.distinct = (lambda old: lambda a, b: apart(a, b) or old(a, b))(fl.distinct)
                sts = [at_start(w, initial(w))]
                for d in dirs:
                    nxt = []
                    for s in sts:
                        nxt += [o.st for o in run_self(fl, "preprocessor_add_include_dir", "main.c", (("str", d),), s)
                                if o.kind == "ret"]
                    sts = nxt
                n = 0
                for s in sts:
                    if what == "script":
                        outs = run_self(fl, "evaluate_cscript", "main.c",
                                        (("str", "f.c"), ("i", 1), ("i", w.p.enums["TEXTUAL"]), ("i", 1), ("p", "argv")), s)
                    else:
                        outs = run_self(fl, "run_cpp", "repl.c", (("p", "chain"), ("str", "-E"), ("str", "x")), s)
                    for o, cmds in commands(fl, outs):
                        n += 1
                        got = re.findall(r"-I *(\S+)", cmds[0]) if cmds else []
                        ctx.check(bool(cmds) and got == list(dirs), "directories", title, f["loc"],
                                  "with the directories %s, %s" % (" ".join(dirs) or "(none)", "the command is `%s'" % cmds[0]
                                                                  if cmds else "there is no command"))
                        if what == "script":
                            ctx.check(bool(cmds) and re.search(r"f\.c\b", cmds[0]), "directories", title + ": file", f["loc"],
                                      "the script isn't in the command")
                ctx.check(n > 0, "directories", title + ": composed", f["loc"], "no command is composed")


def run(ctx):
    R = ctx.rule
    R("status", "the exit status is what main, or a return outside of functions, returns; 0 when nothing is returned")
    R("sequence", "the code outside of functions is run in order, then main if there is one; not both")
    R("arguments", "argc and argv are the script's name and arguments")
    R("failures", "a program that can't be preprocessed or parsed isn't run and the status isn't 0; a dumped one isn't run")
    R("errors", "errors are reported and end the program with a status other than 0")
    R("options", "the command line's options have their documented effect; what follows the script is the script's")
    R("directories", "scripts and lines are preprocessed with the -I directories in the order given")
    w = World(ctx, targets=("cscript",))
    initial(w)
    spread(ctx, [("status", lambda: statuses(w, ctx)), ("sequence", lambda: sequence(w, ctx)),
                 ("failures", lambda: failures(w, ctx)), ("options", lambda: options(w, ctx)),
                 ("arguments", lambda: arguments(w, ctx)), ("directories", lambda: directories(w, ctx))])
    for r, n in (("status", 40), ("sequence", 30), ("arguments", 60), ("failures", 20), ("errors", 6), ("options", 60), ("directories", 12)):
        ctx.need(r, n)
