"""P17: declaration specifiers give what is declared the type C says."""
from itertools import permutations, combinations_with_replacement
from program import *
from oblig import spread

CORE = {
    "char": "D_T_CHAR", "signed char": "D_T_CHAR", "unsigned char": "D_T_UCHAR",
    "short": "D_T_SHORT", "signed short": "D_T_SHORT", "short int": "D_T_SHORT", "signed short int": "D_T_SHORT",
    "unsigned short": "D_T_USHORT", "unsigned short int": "D_T_USHORT",
    "int": "D_T_INT", "signed": "D_T_INT", "signed int": "D_T_INT",
    "unsigned": "D_T_UINT", "unsigned int": "D_T_UINT",
    "long": "D_T_LONG", "signed long": "D_T_LONG", "long int": "D_T_LONG", "signed long int": "D_T_LONG",
    "unsigned long": "D_T_ULONG", "unsigned long int": "D_T_ULONG",
    "long long": "D_T_LONGLONG", "signed long long": "D_T_LONGLONG", "long long int": "D_T_LONGLONG",
    "signed long long int": "D_T_LONGLONG",
    "unsigned long long": "D_T_ULONGLONG", "unsigned long long int": "D_T_ULONGLONG",
    "float": "D_T_FLOAT", "double": "D_T_DOUBLE", "long double": "D_T_LONGDOUBLE",
}
WORDS = ["char", "short", "int", "long", "float", "double", "signed", "unsigned"]
VALID = {tuple(sorted(k.split())): t for k, t in CORE.items()}


def orders(k):
    return sorted(set(permutations(k)))


def typename(w, o, v, depth=0):
    """The C type a type tree stands for, as nested tuples; None when unknown."""
    t = w.ty(v, o)
    if t is None or depth > 6:
        return None
    if t == "D_T_PTR":
        return ("ptr", typename(w, o, o.fl.load(("F", v, w.p.acc["tDTPTR_EXP"][1]), o.st), depth + 1))
    return t


def lookup(w, st, names, text):
    """[(outcome)] of an expression in the state a program leaves."""
    r = execute(w, text, st=clean(st), operands=None, more=names, again=names, ncap=12, goal=("expression", "';'", "__evaluate_1"))
    if r is None:
        raise Limit("not an expression: " + text)
    return r


def object_type(w, o):
    """The type of the object an expression designates."""
    if o.kind != "ret" or w.ty(o.val, o) != "T_LIVE_VAR":
        return None
    return typename(w, o, o.fl.load(("F", o.val, w.f_lvtype), o.st))


def declared(ctx, w, prog, use, want, rule="type", sub=None):
    """Every path through the program leaves `use' designating an object of the
    type; without a use, those of V in the program do."""
    sub = "%s: %s" % (prog, use or "V")
    names = [x[1] for x in unique(tokens(prog)) if x[0] in NAMES]

    def observe(n, v, fl, st):
        if n != "V":
            return st
        o = Outcome("ret", v, st)
        o.fl = fl
        return fl.emit(st, ev("", "use", (object_type(w, o),)))
    outs = execute(w, prog, operands=None, more=names, ncap=12, observe=None if use else observe)
    if outs is None:
        return ctx.fail(rule, sub, "parser.m4", "not accepted by the grammar")
    n = 0
    for o in outs:
        if o.kind == "die" and "extern" in prog and any(e[:2] == ("call", "dlsym") for e in o.st.trace):
            continue            # there may be no such symbol
        n += 1
        if not ctx.check(o.kind == "ret", rule, sub, w.site(o), lambda: "rejected: " + w.desc(o)):
            continue
        if use:
            got = [object_type(w, u) for u in lookup(w, o.st, names, use)]
        else:
            got = [e[1][0] for e in o.st.trace if e[0] == "use"]
        ctx.check(bool(got) and set(got) == {want}, rule, sub, w.site(o), lambda: "has the type %s, not %s" % (got, want))
    if not n:
        ctx.limit(sub + ": no path")


def rejected(ctx, w, prog):
    outs = execute(w, prog, operands=None, ncap=12)
    for o in outs or ():
        ctx.check(o.kind == "die", "rejected", prog, w.site(o), "accepted")
    if not outs:
        ctx.ok("rejected", prog)


def P(t):
    return ("ptr", t)


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("type", "an object declared with a list of type specifiers, in any order and with qualifiers and storage "
             "classes anywhere among them, has the type C gives it")
    ctx.rule("rejected", "a list of type specifiers that names no type in C is rejected")
    initial(w)
    jobs = []

    def job(title, fn, *a, **k):
        jobs.append((title or a[0], lambda: fn(ctx, w, *a, **k)))
    for key, t in sorted(VALID.items()):
        for o in orders(key):
            s = " ".join(o)
            job(s, declared, s + " V;", "V", t)
    for n in (1, 2, 3):
        for k in combinations_with_replacement(WORDS, n):
            if tuple(sorted(k)) not in VALID:
                job(" ".join(k), rejected, " ".join(k) + " V;")
    for k in ("long long long int", "long long unsigned signed", "long long double", "_Bool"):
        job(k, rejected, k + " V;")
    # where a declaration may occur
    for k, t in sorted(CORE.items()):
        ws = k.split()
        for c in ("static", "const", "volatile"):
            for i in range(len(ws) + 1):
                s = " ".join(ws[:i] + [c] + ws[i:])
                job(s, declared, s + " V;", "V", t)
        for i in range(len(ws) + 1):
            s = " ".join(ws[:i] + ["typedef"] + ws[i:])
            job(s, declared, "%s T; ~T V;" % s, "V", t)
        job(k + " member", declared, "struct S { %s M; }; struct S V;" % k, "V.M", t)
        job(k + " pointer", declared, "%s * V;" % k, "V", ("ptr", t))
        job(k + " typedef pointer", declared, "typedef %s * T; ~T V;" % k, "V", ("ptr", t))
    # declarators: each takes the specifiers' type and its own derivation
    for base in ("int", "unsigned char", "long double", "typedef"):
        t = "D_T_SHORT" if base == "typedef" else CORE[base]
        pre = "typedef short T; " if base == "typedef" else ""
        b = "~T" if base == "typedef" else base
        forms = {"V": t, "* V": P(t), "* * V": P(P(t)), "* * * V": P(P(P(t)))}
        for sc in ("", "static "):
            for d1, t1 in forms.items():
                for d2, t2 in forms.items():
                    d = "%s%s%s %s, %s;" % (pre, sc, b, d1, d2.replace("V", "W"))
                    job(d, declared, d, "V", t1)
                    job(d, declared, d, "W", t2)
        for d1, t1 in forms.items():
            job("", declared, "%s{ %s %s; V; }" % (pre, b, d1), None, t1)
            job("", declared, "%sint F() { %s %s; V; } F();" % (pre, b, d1), None, t1)
            job("", declared, "%sint F() { static %s %s; V; } F();" % (pre, b, d1), None, t1)
            job("", declared, "%sfor (%s %s; ; ) { V; break; }" % (pre, b, d1), None, t1)
            if base != "long double" or d1 != "V":    # such objects can't be assigned
              job("", declared, "%s%s %s; int F(%s %s) { V; } F(A);" % (pre, b, d1.replace("V", "A"), b, d1), None, t1)
            if base != "long double" or d1 != "V":
              job("", declared, "%s%s %s; int F(char W, %s %s) { V; } F(1, A);" % (pre, b, d1.replace("V", "A"), b, d1), None, t1)
            job("", declared, "%stypedef %s %s; ~V W;" % (pre, b, d1), "W", t1)
            job("", declared, "%stypedef %s %s; ~V * W;" % (pre, b, d1), "W", P(t1))
            job("", declared, "%stypedef %s %s; typedef ~V X; ~X W;" % (pre, b, d1), "W", t1)
            job("", declared, "%stypedef %s %s; static ~V W;" % (pre, b, d1), "W", t1)
            for k in ("struct", "union"):
                for d2, t2 in forms.items():
                    d = "%s%s S { %s %s, %s; }; %s S X;" % (pre, k, b, d1, d2.replace("V", "W"), k)
                    job(d, declared, d, "X.V", t1)
                    job(d, declared, d, "X.W", t2)
            d = "%sstruct S { char A; %s %s; char B; }; " % (pre, b, d1)
            job("", declared, d + "struct S X; struct S * Y; Y = &X;", "Y->V", t1)
            job("", declared, d + "struct R { struct S Q; char C; }; struct R X;", "X.Q.V", t1)
            job("", declared, d + "typedef struct S T2; ~T2 X;", "X.V", t1)
            job("", declared, "%stypedef struct { %s %s; } R; ~R X;" % (pre, b, d1), "X.V", t1)
            job("", declared, "%sstruct { %s %s; } X;" % (pre, b, d1), "X.V", t1)
            job("", declared, "%s%s %s; " % (pre, b, d1.replace("V", "A [ 3 ]")), "A [ 1 ]", t1)
            job("", declared, "%sstatic %s %s; " % (pre, b, d1.replace("V", "A [ 3 ]")), "A [ 1 ]", t1)
            job("", declared, "%stypedef %s %s; ~T2 A;" % (pre, b, d1.replace("V", "T2 [ 3 ]")), "A [ 1 ]", t1)
            job("", declared, "%sstruct S { char C; %s %s; }; struct S X;" % (pre, b, d1.replace("V", "A [ 3 ]")), "X.A [ 1 ]", t1)
            job("", declared, "%sextern %s %s;" % (pre, b, d1), "V", t1)
            job("", declared, "%s{ extern %s %s; V; }" % (pre, b, d1), None, t1)
            job("", declared, "%sextern %s W, %s;" % (pre, b, d1), "V", t1)
            job("", declared, "%sextern %s %s, W;" % (pre, b, d1), "V", t1)
            job("", declared, "%sstruct S { %s %s; } X; struct S * Y; Y = &X;" % (pre, b, d1), "Y->V", t1)
            job("", declared, "%sstruct S { %s %s; } X, * Y; Y = &X;" % (pre, b, d1), "Y->V", t1)
            job("", declared, "%sstruct S { %s %s; }; typedef struct S * R; struct S X; ~R Y; Y = &X;" % (pre, b, d1), "Y->V", t1)
            job("", declared, "%sstatic struct S { %s %s; } X;" % (pre, b, d1), "X.V", t1)
            job("", declared, "%sunion S { char C; struct { %s %s; } Q; } X;" % (pre, b, d1), "X.Q.V", t1)
            if d1 != "V":
                job("", declared, "%s%s %s;" % (pre, b, d1), "* V", t1[1])
                job("", declared, "%s%s %s;" % (pre, b, d1), "& V", P(t1))
    jobs.sort(key=lambda j: len(j[0]))
    spread(ctx, jobs)
    ctx.need("type", 900)
    ctx.need("rejected", 80)
