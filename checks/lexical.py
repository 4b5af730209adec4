"""What the scanner makes of a program's text.

The scanner's automaton accepts one regular language per rule and start
condition.  Those languages are compared with C's by taking the product of the
automaton with derivatives of regular expressions, which gives a witness
lexeme when one language contains what the other doesn't; the rules' actions
are analysed by their dataflow.
"""
import re
from flow import *
from front import *
from rx import *
from oblig import spread

DIG, LET = rng("09"), rng("az", "AZ", "_")
HEX = rng("09", "af", "AF")
ID = cat(LET, star(alt(LET, DIG)))
DROPPED = ["const", "volatile", "restrict", "__restrict", "inline", "__inline", "__inline__",
           "__extension__", "_Nullable", "_Nonnull"]
KEYWORDS = ["auto", "break", "case", "char", "continue", "default", "do", "double", "else", "enum",
            "extern", "float", "for", "goto", "if", "int", "long", "register", "return", "short",
            "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void",
            "while", "_Bool"]
PUNCT = ["[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%",
         "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...",
         "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|=", ","]
OTHERTOK = ["<REPL>", "'"]
SPACE = rng("  ", "\t\t", "\r\r", "\v\v", "\f\f", "\n\n")
HSPACE = rng("  ", "\t\t")
DEC = alt("0", cat(rng("19"), star(DIG)))
OCT = cat("0", star(rng("07")))
HEXC = cat("0", alt("x", "X"), plus(HEX))
BIN = cat("0", alt("b", "B"), plus(rng("01")))
INTC = alt(DEC, OCT, HEXC, BIN)
CHARC = cat(opt("L"), "'", plus(alt(but("'\\\n"), cat("\\", but("\n")))), "'")
FLC = cat(plus(DIG), ".", plus(DIG))
MARKER = cat("#", star(HSPACE), opt("line"), star(HSPACE), plus(DIG), star(HSPACE),
             opt(cat('"', star(but('"\n')), '"')), star(rng("  ", "14")))
OPENER = cat(alt("__attribute__", "__attribute", "asm", "__asm", "__asm__"), star(HSPACE), "(")
STR = cat('"', star(alt(but('"\\\n'), cat("\\", but("\n")))), '"')

MAXTOK = 40


class Unknown(Exception):
    pass


def handler(h):
    def f(fl, name, args, st, loc, e):
        try:
            return h(fl, args, st)
        except Unknown:
            return None
    return f


class Model:
    """The C library as far as scanners use it, on texts that are known."""

    def __init__(self):
        self.n = 0

    def ops(self):
        d = {}
        for n in dir(self):
            if n.startswith("f_"):
                d[n[2:]] = handler(getattr(self, n))
                d["__builtin_" + n[2:]] = d[n[2:]]
        for n in ("__gmpz_init_set_str", "__gmpz_set_str"):
            d[n] = lambda fl, name, args, st, loc, e: self.num(fl, name, args, st, loc, e)
        for n in ("__gmpf_init_set_str", "__gmpf_set_str"):
            d[n] = lambda fl, name, args, st, loc, e: self.flt(fl, args, st)
        return d

    # texts
    def put(self, st, base, text, at=0):
        st = st.copy()
        if text is None:
            st.env[("X", base, ("i", at))] = ("unk", "text")
            return st
        for i, ch in enumerate(text + "\0"):
            st.env[("X", base, ("i", at + i))] = ("i", ord(ch))
        return st

    def where(self, v):
        if v[0] == "pl" and v[1][0] == "X" and v[1][2][0] == "i":
            return v[1][1], v[1][2][1]
        if v[0] == "op" and v[1] == "+" and len(v) == 4:
            for a, b in (v[2:], v[:1:-1]):
                if b[0] == "i" and a[0] != "i":
                    p, k = self.where(a)
                    return p, k + b[1]
        return v, 0

    def get(self, st, v):
        b, k = self.where(v)
        out = ""
        while len(out) < 4096:
            c = st.env.get(("X", b, ("i", k)))
            if k == 0 and ("F", b, "") in st.env:
                raise Limit("text written through two views")
            if c is None and b[0] == "str":
                c = ("i", ord(b[1][k])) if k < len(b[1]) else ("i", 0) if k == len(b[1]) else None
            if c is None:
                return None
            if c[0] != "i":
                return None
            if c[1] == 0:
                return out
            out += chr(c[1] & 255)
            k += 1
        raise Limit("text without an end")

    def known(self, st, v):
        t = self.get(st, v)
        if t is None:
            raise Unknown()
        return t

    def fresh(self):
        self.n += 1
        return ("r", "malloc", (), ("lex", self.n))

    # library
    def f_malloc(self, fl, a, st):
        return [(self.fresh(), st)]

    def f_calloc(self, fl, a, st):
        m = self.fresh()
        if a[0][0] != "i" or a[1][0] != "i" or a[0][1] * a[1][1] > 4096:
            return [(m, st)]
        st = st.copy()
        for i in range(a[0][1] * a[1][1]):
            st.env[("X", m, ("i", i))] = ("i", 0)
        return [(m, st)]

    def f_realloc(self, fl, a, st):
        m = self.fresh()
        t = self.get(st, a[0]) if a[0] != ("i", 0) else None
        return [(m, st if t is None else self.put(st, m, t))]

    def f_free(self, fl, a, st):
        if a[0][0] == "r" and a[0][1] == "malloc":
            st = st.copy()
            for c in [c for c in st.env if c[0] == "X" and c[1] == a[0]]:
                st.env[c] = ("undef", "released storage")
        return [(("void",), st)]

    def f_strlen(self, fl, a, st):
        return [(("i", len(self.known(st, a[0]))), st)]

    def f_strdup(self, fl, a, st):
        t = self.get(st, a[0])
        if t is None:
            return [(("dup", a[0]), st)]
        m = self.fresh()
        return [(m, self.put(st, m, t))]

    f___strdup = f_strdup

    def f_strndup(self, fl, a, st):
        m = self.fresh()
        if a[1][0] != "i":
            raise Limit("text of unknown length")
        return [(m, self.put(st, m, self.known(st, a[0])[:a[1][1]]))]

    def f_strcpy(self, fl, a, st):
        b, k = self.where(a[0])
        return [(a[0], self.put(st, b, self.get(st, a[1]), k))]

    def f_strcat(self, fl, a, st):
        b, k = self.where(a[0])
        return [(a[0], self.put(st, b, self.get(st, a[1]), k + len(self.known(st, a[0]))))]

    def f_memcpy(self, fl, a, st):
        b, k = self.where(a[0])
        sb, sk = self.where(a[1])
        if a[2][0] != "i" or self.get(st, a[1]) is None:
            return None
        t = self.known(st, a[1]) + "\0"
        if a[2][1] > len(t):
            raise Limit("more copied than the text")
        st = st.copy()
        for i in range(a[2][1]):
            st.env[("X", b, ("i", k + i))] = ("i", ord(t[i]))
        return [(a[0], st)]

    f_memmove = f_memcpy

    def f_strcmp(self, fl, a, st):
        x, y = self.known(st, a[0]), self.known(st, a[1])
        return [(("i", (x > y) - (x < y)), st)]

    def f_strchr(self, fl, a, st):
        t = self.known(st, a[0])
        b, k = self.where(a[0])
        if a[1][0] != "i":
            raise Limit("search for an unknown character")
        i = (t + "\0").find(chr(a[1][1] & 255))
        return [(("i", 0) if i < 0 else b if k + i == 0 else ("pl", ("X", b, ("i", k + i))), st)]

    def f_strtol(self, fl, a, st):
        t = self.known(st, a[0])
        if a[1] != ("i", 0) or a[2][0] != "i":
            raise Limit("strtol with an end pointer")
        base = a[2][1]
        return [(("i", cnum(t, base)[0]), st)]

    f_strtoul = f_strtol

    def f_atoi(self, fl, a, st):
        return [(("i", cnum(self.known(st, a[0]), 10)[0]), st)]

    f_atol = f_atoi

    def f_strtok(self, fl, a, st):
        """Pieces are copies; how the text itself changes is not modelled."""
        st = st.copy()
        rest = self.known(st, a[0]) if a[0] != ("i", 0) else st.env.get(("STRTOK",), ("i", ""))[1]
        sep = self.known(st, a[1])
        rest = rest.lstrip(sep)
        if not rest:
            st.env[("STRTOK",)] = ("i", "")
            return [(("i", 0), st)]
        k = next((i for i, ch in enumerate(rest) if ch in sep), len(rest))
        st.env[("STRTOK",)] = ("i", rest[k + 1:])
        m = self.fresh()
        return [(("pl", ("X", m, ("i", 0))), self.put(st, m, rest[:k]))]

    def num(self, fl, name, args, st, loc, e):
        t = self.get(st, args[1])
        if t is None:
            return gmp(fl, name, args, st, loc, e)
        if args[2][0] != "i":
            raise Limit("number in an unknown base")
        n, ok = gnum(t, args[2][1])
        return [(("i", 0 if ok else -1), fl.zstore(args[0], ("zc", n if ok else 0), st, loc))]

    def flt(self, fl, args, st):
        st = st.copy()
        st.env[("FLOATCST",)] = ("tup", (args[1], args[2]))
        return [(("i", 0), st)]


def cnum(t, base):
    """What strtol makes of a text, and whether all of it was a number."""
    m = re.match(r"[ \t\n\v\f\r]*([-+]?)(0[xX](?=[0-9a-fA-F]))?", t)
    sign, hx = m.group(1), m.group(2)
    rest = t[m.end():]
    if hx and base not in (0, 16):
        rest, hx = t[m.end() - 2:], None
    if base == 0:
        base = 16 if hx else 8 if rest[:1] == "0" else 10
    n, k = 0, 0
    for ch in rest:
        d = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch.lower())
        if d < 0 or d >= base:
            break
        n, k = n * base + d, k + 1
    return (-n if sign == "-" else n), k > 0 and k == len(rest)


def gnum(t, base):
    """mpz_set_str."""
    t = re.sub(r"\s", "", t)
    m = re.match(r"-?", t)
    neg, t = m.group() == "-", t[m.end():]
    if base == 0:
        if t[:2] in ("0x", "0X"):
            base, t = 16, t[2:]
        elif t[:2] in ("0b", "0B"):
            base, t = 2, t[2:]
        elif t[:1] == "0" and len(t) > 1:
            base, t = 8, t[1:]
        else:
            base = 10
    if not t:
        return 0, False
    n = 0
    for ch in t:
        d = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch.lower())
        if d < 0 or d >= base:
            return 0, False
        n = n * base + d
    return (-n if neg else n), True


def cint(t):
    """Value of a C integer constant."""
    neg = t.startswith("-")
    t = t.lstrip("-").lower()
    n = int(t, 16) if t.startswith("0x") else int(t, 2) if t.startswith("0b") else \
        int(t, 8) if t.startswith("0") else int(t)
    return -n if neg else n


class Scan:
    """One target's scanner."""

    def __init__(self, ctx, target):
        self.ctx, self.target, self.p = ctx, target, ctx.prog
        self.L = Lexer(ctx.prog, target)
        self.G = Grammar(ctx.prog, target, "%s/%sparser.xml" % (ctx.dir, target))
        self.eob = self.L.nrules + 1
        self.start = ("G", "", self.target + "lex.c:yy_start")
        self.conds = sorted(set(self.conditions()))
        self.outs = {}

    def conditions(self):
        """Start conditions: those that EOF rules are numbered for."""
        return [k - self.eob - 1 for k in self.L.index if k > self.eob]

    def flow(self):
        mod = self.mod = Model()
        op = mod.ops()
        op["is_typename"] = lambda fl, n, a, st, loc, e: [(("r", n, a, 0), st)]
        op[self.target + "_parser_set_file"] = lambda fl, n, a, st, loc, e: [(("void",), st)]
        return self.L.flow(opaque=op)

    def cell(self, fl, name):
        fl.stack.append({"name": self.L.fn["name"], "unit": self.L.unit, "loc": ""})
        try:
            return fl.gcell(name)
        finally:
            fl.stack.pop()

    def act(self, rule, lexeme, st=None, cond=None):
        """Outcomes of a rule's action: [(kind, value, state)]."""
        fl = self.flow() if not hasattr(self, "fl") else self.fl
        self.fl = fl
        st = (st or State()).copy()
        st.env[("G", "", self.target + "text")] = ("str", lexeme) if lexeme is not None else ("p", "yytext")
        st.env[("G", "", self.target + "leng")] = ("i", len(lexeme)) if lexeme is not None else ("p", "yyleng")
        if cond is not None:
            st.env[self.cell(fl, "yy_start")] = ("i", 1 + 2 * cond)
        fl.stack.append({"name": self.L.fn["name"], "unit": self.L.unit, "loc": ""})
        fl.outcomes_dead = []
        fl.steps = 0
        try:
            if rule not in self.L.index:
                raise Limit("no action for rule %d" % rule)
            outs = fl.run_seq(self.L.items, st, self.L.index[rule])
        finally:
            fl.stack.pop()
        return outs + [("dead", o.val, o.st) for o in fl.outcomes_dead]

    def cond(self, st):
        v = st.env.get(self.cell(self.fl, "yy_start"))
        if not v or v[0] != "i" or (v[1] - 1) // 2 not in self.conds:
            raise Limit("start condition not known")
        return (v[1] - 1) // 2

    def scan(self, text, st=None, cond=0):
        """All ways to scan a text: [(tokens, state, end)]; a token is
        (name, lexeme, state); end is "end", "dead" or "stuck"."""
        done = []
        st = (st or State()).copy()
        work = [((), st, cond, 0)]
        while work:
            toks, st, c, i = work.pop()
            if i == len(text):
                done.append((toks, st, "end", c))
                continue
            if len(toks) > MAXTOK:
                raise Limit("too many tokens")
            m = self.match(text[i:], c)
            if m is None:
                done.append((toks, st, "stuck", c))
                continue
            lex = text[i:i + m[1]]
            for kind, val, s in self.act(m[0], lex, st, c):
                if kind == "dead":
                    done.append((toks, s, "dead", c))
                elif kind == "r":
                    done_tok = (self.tokname(val), lex, s)
                    work.append((toks + (done_tok,), s, self.cond(s), i + m[1]))
                elif kind in ("b", "n"):
                    work.append((toks, s, self.cond(s), i + m[1]))
                else:
                    raise Limit("scanner action ends in %s" % kind)
        return done

    def match(self, text, c):
        s, best = 1 + 2 * c, None
        for i, ch in enumerate(text):
            s = self.L.step(s, ord(ch))
            if s == self.L.jam:
                break
            if self.L.accept[s]:
                best = (self.L.accept[s], i + 1)
        return best

    def tokname(self, val):
        if val[0] != "i":
            raise Limit("token not known: %s" % (val[0],))
        n = self.G.tok.get(val[1])
        return n if n is not None else "token %d" % val[1]

    def loc(self, rule):
        """Where the rule's action is."""
        def find(x):
            if isinstance(x, list):
                for y in x:
                    r = find(y)
                    if r:
                        return r
            elif isinstance(x, str) and re.search(r"\.(m4|c|h|l):\d+", x):
                return x
        for it in self.L.items[self.L.index.get(rule, 0):][:3]:
            r = find(it)
            if r:
                return r
        return self.L.fn["loc"]

    # -- rules
    def rules_of(self, c):
        """Rules with a lexeme in condition c: {rule: shortest lexeme}."""
        s0 = 1 + 2 * c
        seen, todo, out = {s0: b""}, [s0], {}
        for s in todo:
            for b in classes(self.L, ANY):
                s2 = self.L.step(s, b)
                if s2 == self.L.jam or s2 in seen:
                    continue
                seen[s2] = seen[s] + bytes([b])
                a = self.L.accept[s2]
                if a and a not in out:
                    out[a] = seen[s2].decode("latin-1")
                todo.append(s2)
        return out

    def outcomes(self, rule, c, lexeme):
        """What the rule's action can do: set of ("token", name, next condition),
        ("skip", next condition), ("die",)."""
        key = (rule, c)
        if key in self.outs:
            return self.outs[key]
        res = set()
        try:
            outs = self.act(rule, None, None, c)
        except Limit:
            outs = self.act(rule, lexeme, None, c)
        for kind, val, s in outs:
            if kind == "dead":
                res.add(("die",))
            elif kind == "r":
                res.add(("token", self.tokname(val), self.cond(s)))
            elif kind in ("b", "n"):
                res.add(("skip", self.cond(s)))
            else:
                raise Limit("scanner action ends in %s" % kind)
        self.outs[key] = res
        return res


def follow_pairs(G):
    """Pairs of terminals that can be adjacent in a sentence (over-approximated)."""
    first = {t: {t} for t in G.tokno}
    last = {t: {t} for t in G.tokno}
    empty = set()
    ch = True
    while ch:
        ch = False
        for lhs, rhs in G.rules.values():
            if lhs not in empty and all(x in empty for x in rhs):
                empty.add(lhs)
                ch = True
    for tab, order in ((first, 1), (last, -1)):
        ch = True
        while ch:
            ch = False
            for lhs, rhs in G.rules.values():
                d = tab.setdefault(lhs, set())
                n = len(d)
                for x in rhs[::order]:
                    d |= tab.get(x, set())
                    if x not in empty:
                        break
                ch |= len(d) != n
    pairs = set()
    for lhs, rhs in G.rules.values():
        for i, x in enumerate(rhs):
            for y in rhs[i + 1:]:
                pairs |= set((a, b) for a in last.get(x, ()) for b in first.get(y, ()))
                if y not in empty:
                    break
    return pairs


def viable(G, toks):
    """Whether the tokens can be a part of an expression, going by the LALR automaton."""
    starts = [s for (s, x) in G.goto if x == "expression"]
    for s0 in sorted(set(starts)):
        stack, i = [s0], 0
        while True:
            if i == len(toks):
                return True
            s, t = stack[-1], toks[i]
            if (s, t) in G.shift:
                stack.append(G.shift[(s, t)])
                i += 1
                continue
            r = G.red.get((s, t), G.dflt.get(s))
            if r is None:
                break
            lhs, rhs = G.rules[r]
            if len(rhs) >= len(stack):
                break
            if rhs:
                del stack[-len(rhs):]
            g = G.goto.get((stack[-1], lhs))
            if g is None:
                break
            stack.append(g)
    return False


def show(t):
    return repr(t)[1:-1] if t is not None else "?"


def languages(S):
    ctx = S.ctx
    tg = S.target
    words = {}          # token -> {(cond, rule)}
    opens = set()
    for c in S.conds:
        rules = S.rules_of(c)
        for r, lex in sorted(rules.items()):
            outs = S.outcomes(r, c, lex)
            for o in outs:
                if o[0] == "token":
                    words.setdefault(o[1], set()).add((c, r, o[2]))
    text_conds = condition_roles(S)
    for c in S.conds:
        role = text_conds.get(c)
        for r, lex in sorted(S.rules_of(c).items()):
            outs = S.outcomes(r, c, lex)
            skip = [o for o in outs if o[0] == "skip"]
            if not skip:
                continue
            if role in ("text", "tag"):
                what = {text_conds.get(o[1]) for o in skip}
                if what == {role}:
                    allowed, name = alt(SPACE, plus(SPACE), MARKER, *DROPPED), "is skipped"
                elif what == {"annotation"}:
                    allowed, name = OPENER, "starts an attribute"
                elif what == {"string"}:
                    allowed, name = cat('"'), "starts a string"
                else:
                    ctx.fail("skipped", "%s: %s" % (tg, show(lex)), S.loc(r),
                             "after `%s' the scanner goes on in another mode" % show(lex))
                    continue
                w = outside(S.L, c, {r}, allowed)
                ctx.check(w is None, "skipped", "%s: what begins like `%s' %s" % (tg, show(lex), name)
                          if w is None else "%s: `%s' %s" % (tg, show(w), name), S.loc(r),
                          "the scanner drops `%s' from the program" % show(w))
    # what C has white space for and the qualifiers that mean nothing here
    for c in S.conds:
        if text_conds.get(c) not in ("text", "tag"):
            continue
        sk = {r for r, lex in S.rules_of(c).items()
              if any(o[0] == "skip" for o in S.outcomes(r, c, lex))}
        w = missing(S.L, c, sk, SPACE)
        ctx.check(w is None, "skipped", "%s: white space (%s)" % (tg, text_conds[c]), S.L.fn["loc"],
                  "white space `%s' isn't skipped" % show(w))
    # tokens
    multi = {"IDENTIFIER": ID, "TYPE_NAME": ID, "FLOAT_CST": cat(opt("-"), FLC),
             "CONST_STRING": cat('"'),
             "C_PRE_INC": cat("#include", star(HSPACE), "<", plus(alt(LET, DIG, ".", "/")), ">")}
    used = set(x for lhs, rhs in S.G.rules.values() for x in rhs)
    spelled = {}
    for t, rs in sorted(words.items()):
        for c, r, c2 in sorted(rs):
            lex = S.rules_of(c)[r]
            role = text_conds.get(c)
            if t == "INTEGER":
                w = outside(S.L, c, {r}, alt(cat(opt("-"), plus(DIG)), cat(opt("-"), HEXC),
                                             cat(opt("-"), BIN), CHARC))
                ctx.check(w is None, "tokens", "%s: %s (`%s'...)" % (tg, t, show(lex)), S.loc(r),
                          "`%s' is taken for an integer constant" % show(w))
            elif t in multi:
                w = outside(S.L, c, {r}, multi[t])
                ctx.check(w is None, "tokens", "%s: %s (%s)" % (tg, t, role), S.loc(r),
                          "`%s' is taken for %s" % (show(w), t))
                if t in ("IDENTIFIER", "TYPE_NAME") and role == "text":
                    w = inside(S.L, c, {r}, alt(*(KEYWORDS + DROPPED)))
                    ctx.check(w is None, "tokens", "%s: %s isn't a keyword" % (tg, t), S.loc(r),
                              "the keyword `%s' is taken for an identifier" % show(w))
            elif t not in used:
                # loud: no production has it
                ctx.ok("tokens", "%s: %s is never part of a program" % (tg, t))
            else:
                one = next((k for k in KEYWORDS + PUNCT + OTHERTOK if k == lex), None)
                w = outside(S.L, c, {r}, word(lex))
                ctx.check(one is not None and w is None, "tokens", "%s: %s" % (tg, t), S.loc(r),
                          "token %s is made of `%s'" % (t, show(w or lex)))
                if one is not None:
                    spelled.setdefault(t, set()).add(one)
            want = "tag" if lex in ("struct", "union", "enum") else "text"
            if t in used:
                got = text_conds.get(c2)
                ctx.check(got == "text" or got == want, "tokens", "%s: after %s" % (tg, t), S.loc(r),
                          "after `%s' the scanner expects a %s" % (show(lex), got))
    for t, sp in sorted(spelled.items()):
        ctx.check(len(sp) == 1, "tokens", "%s: one spelling of %s" % (tg, t), S.L.fn["loc"],
                  "%s are the same token" % " and ".join("`%s'" % x for x in sorted(sp)))
    # every identifier is one
    ids = {r for t in ("IDENTIFIER", "TYPE_NAME") for c, r, c2 in words.get(t, ()) if c == 0}
    w = missing(S.L, 0, ids, minus(ID, alt(*(KEYWORDS + DROPPED))))
    ctx.check(w is None, "tokens", "%s: all identifiers" % tg, S.L.fn["loc"],
              "the identifier `%s' isn't recognised" % show(w))
    for c in S.conds:
        if text_conds.get(c) == "tag":
            ids = {r for t in ("IDENTIFIER",) for c1, r, c2 in words.get(t, ()) if c1 == c}
            w = missing(S.L, c, ids, ID)
            ctx.check(w is None, "tokens", "%s: all tags" % tg, S.L.fn["loc"],
                      "the tag `%s' isn't recognised" % show(w))
    ints = {r for c, r, c2 in words.get("INTEGER", ()) if c == 0}
    w = missing(S.L, 0, ints, alt(DEC, OCT, cat("0x", plus(HEX)), cat("'", rng("az", "AZ", "09"), "'")))
    ctx.check(w is None, "tokens", "%s: all integer constants" % tg, S.L.fn["loc"],
              "the constant `%s' isn't recognised" % show(w))
    fl = {r for c, r, c2 in words.get("FLOAT_CST", ()) if c == 0}
    w = missing(S.L, 0, fl, FLC)
    ctx.check(w is None, "tokens", "%s: all floating constants" % tg, S.L.fn["loc"],
              "the constant `%s' isn't recognised" % show(w))


def condition_roles(S):
    """{start condition: what the scanner is inside of}."""
    if hasattr(S, "roles"):
        return S.roles
    roles = {0: "text"}
    for lex, role in (("struct", "tag"), ("union", "tag"), ('"', "string"), ("__attribute__((", "annotation"),
                      ("__asm(", "annotation")):
        try:
            for toks, st, end, c in S.scan(lex):
                if end == "end" and c not in roles:
                    roles[c] = role
        except Limit:
            pass
    S.roles = roles
    return roles


def same_as(S, text, want, rule, what, why):
    """The scanner makes of the text the tokens wanted, or reports an error."""
    res = S.scan(text)
    got = [tuple(t[0] for t in toks) for toks, st, end, c in res if end == "end" and c == 0]
    ok = all(g == tuple(want) for g in got)
    S.ctx.check(ok, rule, "%s: %s" % (S.target, what), S.L.fn["loc"],
                lambda: "%s: %s" % (why, " ".join(next(g for g in got if g != tuple(want))) or "nothing"))
    return bool(got)


def munch(S):
    """Tokens that C has and the scanner has not are rejected by the grammar."""
    ctx, tg = S.ctx, S.target
    pairs = follow_pairs(S.G)
    forms = ["10u", "10U", "10l", "10L", "10ul", "10LL", "0x1FL", "1.5f", "1.5L", "1e5", "1E5", "1.5e3", "1.5E-3",
             ".5", "0x1p3", "0b2", "09", "1.2.3", "5x", "0x", "0xg", "12abc", "1'0"]
    for p in PUNCT:
        forms.append(p)
    forms += ["<:", ":>", "<%", "%>", "##", "#", "@", "$", "`", "\\", "\x7f", "\x80", "\x01", "\xff"]
    for f in forms:
        toks = None
        res = S.scan(f)
        for tk, st, end, c in res:
            if end != "end":
                ctx.ok("munch", "%s: %s" % (tg, show(f)))
                continue
            names = [t[0] for t in tk]
            used = set(x for lhs, rhs in S.G.rules.values() for x in rhs)
            whole = len(names) == 1 and (f in PUNCT or re.fullmatch(r"0|[1-9][0-9]*|0[0-7]+|0[xX][0-9a-fA-F]+|"
                                                                    r"0[bB][01]+|[0-9]+\.[0-9]+", f))
            loud = any(n not in used for n in names) or any(
                (a, b) not in pairs for a, b in zip(names, names[1:]))
            ctx.check(whole or loud, "munch", "%s: %s" % (tg, show(f)), S.L.fn["loc"],
                      "`%s' is silently taken for %s" % (show(f), " ".join(names) or "nothing"))
    # a sign that belongs to a constant never swallows an operator
    if any(len(tk) == 1 for tk, st, end, c in S.scan("-1")):
        for e in (["IDENTIFIER"], ["INTEGER"], ["FLOAT_CST"], ["CONST_STRING"], ["IDENTIFIER", "'['", "INTEGER", "']'"],
                  ["IDENTIFIER", "'('", "')'"], ["IDENTIFIER", "INC"], ["IDENTIFIER", "DEC"],
                  ["'('", "IDENTIFIER", "')'"], ["IDENTIFIER", "PTR_ACCESS", "IDENTIFIER"],
                  ["IDENTIFIER", "'.'", "IDENTIFIER"], ["SIZEOF", "'('", "INT", "')'"], ["SIZEOF", "IDENTIFIER"]):
            if not viable(S.G, e):
                continue
            ctx.check(not viable(S.G, e + ["INTEGER"]), "munch",
                      "%s: %s followed by a constant with a sign" % (tg, " ".join(e)),
                      S.L.fn["loc"], "after %s, `-1' is another operand" % " ".join(e))
    # sequences of operators are split the way C does
    for text, want in ((("a+++b", ["a", "++", "+", "b"])), ("a---b", ["a", "--", "-", "b"]),
                       ("p->x", ["p", "->", "x"]), ("a<<=b", ["a", "<<=", "b"]), ("a>>=b", ["a", ">>=", "b"]),
                       ("a<=b", ["a", "<=", "b"]), ("a<<b", ["a", "<<", "b"]), ("a==b", ["a", "==", "b"]),
                       ("a=!b", ["a", "=", "!", "b"]), ("a!=b", ["a", "!=", "b"]), ("a&&b", ["a", "&&", "b"]),
                       ("a&b", ["a", "&", "b"]), ("a=*b", ["a", "=", "*", "b"]), ("a^=b", ["a", "^=", "b"]),
                       ("f(...)", ["f", "(", "...", ")"]), ("intx", ["intx"]), ("int x", ["int", "x"]),
                       ("structs", ["structs"]), ("constant", ["constant"]), ("inliner", ["inliner"]),
                       ("a/b", ["a", "/", "b"]), ("1.5", ["1.5"]), ("x1", ["x1"]), ("_x", ["_x"]), ("a?b:c",
                       ["a", "?", "b", ":", "c"]), ("if(a)", ["if", "(", "a", ")"]), ("a.b", ["a", ".", "b"])):
        for tk, st, end, c in S.scan(text):
            if end != "end":
                continue
            got = [t[1] for t in tk]
            ctx.check(got == want, "munch", "%s: %s" % (tg, text), S.L.fn["loc"],
                      "`%s' is split into %s" % (text, " ".join(got)))


def integers(S):
    """The values of integer constants."""
    ctx, tg = S.ctx, S.target
    cell = ("Z", ("S", ("G", "", tg + "lval"), "integer"))
    sm = ["0", "1", "7", "9", "10", "42", "123", "2147483647", "2147483648", "4294967295", "4294967296",
          "9223372036854775807", "9223372036854775808", "18446744073709551615", "-1", "-2147483648", "-10",
          "00", "07", "010", "017", "0777", "-010", "0123", "037777777777", "01777777777777777777777",
          "0x0", "0x1", "0x9", "0xa", "0xA", "0xf", "0xF", "0x10", "0xff", "0xDEADbeef", "0x7fffffff",
          "0xffffffff", "0xffffffffffffffff", "0x8000000000000000", "0X1F", "0b101", "0B11"]
    sm += [str(i) for i in range(11, 100, 8)] + ["0%o" % i for i in range(8, 64, 5)] + ["0x%x" % i for i in range(0, 256, 17)]
    bad = ["08", "09", "018", "0779", "-09", "00008"]
    for t in sm + bad:
        for tk, st, end, c in S.scan(t):
            if end != "end":
                ctx.ok("values", "%s: %s" % (tg, t))
                continue
            names = [x[0] for x in tk]
            if names != ["INTEGER"]:
                ctx.check(len(names) > 1 or names == ["FLOAT_CST"] and False, "values", "%s: %s" % (tg, t),
                          S.L.fn["loc"], "`%s' is scanned as %s" % (t, names))
                continue
            z = S.fl.zload(zcell(S, "integer"), st)
            if t in bad:
                ctx.fail("values", "%s: %s" % (tg, t), S.L.fn["loc"],
                         "`%s' isn't a constant of any base but is accepted" % t)
            else:
                if z[0] != "zc":
                    raise Limit("value of %s not known: %s" % (t, z[0]))
                ctx.check(z == ("zc", cint(t)), "values", "%s: %s" % (tg, t), S.L.fn["loc"],
                          "`%s' gets the value %s" % (t, z[1]))
    # whatever the digits: the text is converted as it stands, and a failure is noticed
    for r, lex in sorted(S.rules_of(0).items()):
        outs = S.outcomes(r, 0, lex)
        if not any(o[0] == "token" and o[1] == "INTEGER" for o in outs) or not re.match(r"[-0-9]", lex):
            continue
        valid = outside(S.L, 0, {r}, cat(opt("-"), INTC)) is None
        try:
            acts = S.act(r, None, None, 0)
        except Limit:
            continue
        for kind, val, st in acts:
            if kind != "r" or S.tokname(val) != "INTEGER":
                continue
            z = S.fl.zload(zcell(S, "integer"), st)
            ok = z == ("zstr", ("p", "yytext"), ("i", 0))
            ctx.check(ok, "values", "%s: every constant like `%s'" % (tg, lex), S.loc(r),
                      "the constant's value isn't the one of its text in the base that its prefix says")
            if not valid:
                unchecked = [1 for b, s in S.fl.branch(("r", "__gmpz_init_set_str", z[1:], 0), st) if b]
                ctx.check(not unchecked, "values", "%s: constants like `%s' that are none" % (tg, lex), S.loc(r),
                          "it isn't noticed when the text isn't a number")


def zcell(S, m):
    return ("S", ("G", "", S.target + "lval"), m)


CESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63, "e": 27}


def sbyte(n):
    return n - 256 if n > 127 else n


def chars(S):
    """The values of character constants."""
    ctx, tg = S.ctx, S.target

    def one(body, want):
        t = "'%s'" % body
        for pre in ("", "L") if len(body) < 3 and body[0].isalpha() else ("",):
            for tk, st, end, c in S.scan(pre + t):
                if end != "end":
                    ctx.ok("values", "%s: %s" % (tg, show(pre + t)))
                    continue
                names = [x[0] for x in tk]
                if names != ["INTEGER"]:
                    used = set(x for lhs, rhs in S.G.rules.values() for x in rhs)
                    ctx.check(len(names) != 1, "values", "%s: %s" % (tg, show(pre + t)), S.L.fn["loc"],
                              "%s is scanned as %s" % (show(t), names))
                    continue
                z = S.fl.zload(zcell(S, "integer"), st)
                if z[0] != "zc":
                    raise Limit("value of %s not known: %s" % (t, z))
                ctx.check(want is not None and z[1] == want, "values", "%s: %s" % (tg, show(pre + t)),
                          S.L.fn["loc"], "the constant %s gets the value %s" % (show(t), z[1]))
    for b in range(1, 256):
        ch = chr(b)
        if ch not in "'\\\n":
            one(ch, sbyte(b))
        if ch != "\n":
            want = CESC.get(ch)
            if ch in "01234567":
                want = int(ch)
            one("\\" + ch, want)
    for o in ("00", "12", "101", "377", "177", "0011"):
        one("\\" + o, sbyte(int(o, 8)) if len(o) < 4 else None)
    for h in ("x41", "xff", "x0"):
        one("\\" + h, sbyte(int(h[1:], 16)))
    for t in ("'''", "''", "'\n'"):
        for tk, st, end, c in S.scan(t):
            ctx.check(end != "end" or [x[0] for x in tk] != ["INTEGER"], "values", "%s: %s" % (tg, show(t)),
                      S.L.fn["loc"], "%s is taken for a constant" % show(t))


def floats(S):
    ctx, tg = S.ctx, S.target
    for t in ("1.5", "0.25", "12.75", "3.14159", "007.5", "100.0", "-2.5"):
        for tk, st, end, c in S.scan(t):
            if end != "end":
                ctx.ok("values", "%s: %s" % (tg, t))
                continue
            v = st.env.get(("FLOATCST",))
            if [x[0] for x in tk] != ["FLOAT_CST"] or v is None:
                ctx.fail("values", "%s: %s" % (tg, t), S.L.fn["loc"],
                         "`%s' is scanned as %s" % (t, [x[0] for x in tk]))
                continue
            txt = S.fl_text(st, v[1][0])
            ctx.check(txt == t and v[1][1] == ("i", 10), "values", "%s: %s" % (tg, t), S.L.fn["loc"],
                      "`%s' is converted from the text `%s' in base %s" % (t, txt, v[1][1][1]))


def cstring(body):
    """The bytes of a C string literal, or None if it isn't valid."""
    out, i = [], 0
    while i < len(body):
        ch = body[i]
        if ch != "\\":
            out.append(ord(ch))
            i += 1
            continue
        e = body[i + 1]
        if e in "01234567":
            m = re.match(r"[0-7]{1,3}", body[i + 1:])
            out.append(int(m.group(), 8) & 255)
            i += 1 + len(m.group())
        elif e == "x":
            m = re.match(r"[0-9a-fA-F]+", body[i + 2:])
            if not m:
                return None
            out.append(int(m.group(), 16) & 255)
            i += 2 + len(m.group())
        elif e in CESC:
            out.append(CESC[e])
            i += 2
        else:
            return None
    return out


def initial(S):
    """The scanner's own variables when it starts."""
    st = State()
    for n, g in S.p.globals[S.L.unit].items():
        if g.get("static") and not n.startswith("yy"):
            i = g.get("init")
            while i is not None and i[0] == "cast":
                i = i[2]
            if i is None or i[0] == "i":
                st.env[("G", S.L.unit, n)] = ("i", i[1] if i else 0)
    return st


def strings(S):
    """The contents of string literals."""
    ctx, tg = S.ctx, S.target
    bodies = ["", "a", "hello, world", " ", "%d\\n", "\\n", "\\t", "\\\\", "\\\"", "a\\nb\\nc", "\\\\n", "\\\\\\n",
              "\\n\\n", "x\\ty\\\\z\\\"w", "it's", "a/*b*/c//d", "#if", "\\\"\\\"", "(", "a)b"]
    plain = "".join(chr(b) for b in range(1, 256) if chr(b) not in '"\\\n')
    bodies.append(plain)
    for b in range(1, 256):
        if chr(b) != "\n" and not chr(b).isdigit():
            bodies.append("x\\%cy" % b)
    for n in list(range(8)):
        bodies += ["a\\%ob" % n, "a\\%o" % n]
    for n in list(range(64)):
        bodies.append("\\%02o" % n)
    for n in list(range(0, 256, 3)) + [8, 64, 127, 128, 255]:
        bodies.append("<\\%03o>" % n)
    for n in (0o10, 0o12, 0o61, 0o101, 0o377):
        bodies += ["\\%03o7" % n, "\\%03o8" % n, "\\%02o8" % (n & 63), "\\%03o\\%03o" % (n, n)]
    bodies += ["x\\x41y", "\\8", "\\9", "a\\08b"]
    nul = None
    fresh = initial(S)
    used = [r for r in S.scan('"zz\\n";', fresh) if r[2] == "end"]
    for b, start in [(b, x) for b in bodies for x in [fresh] + [r[1] for r in used]]:
        want = cstring(b)
        text = '"%s"' % b
        for tk, st, end, c in S.scan(text + ";", start):
            if end != "end":
                ctx.ok("strings", "%s: %s" % (tg, show(text)))
                continue
            names = [x[0] for x in tk]
            if names[:1] != ["CONST_STRING"] or len(names) != 2 or c != 0:
                ctx.fail("strings", "%s: %s" % (tg, show(text)), S.L.fn["loc"],
                         "%s is scanned as %s" % (show(text), names))
                continue
            s = tk[0][2]
            got = S.mod.get(s, s.env.get(zcell(S, "string"), ("unk",)))
            if got is None:
                raise Limit("contents of a string not known")
            got = [ord(x) for x in got]
            if want is not None and 0 in want:
                if got == want[:want.index(0)]:
                    ctx.ok("strings", "%s: %s" % (tg, show(text)))
                elif nul is None or len(b) < len(nul):
                    nul = b
                continue
            ctx.check(got == want, "strings", "%s: %s" % (tg, show(text)), S.L.fn["loc"],
                      "the literal %s contains %s" % (show(text), show("".join(map(chr, got)))))
    if nul is not None:
        ctx.fail("strings", "%s: a NUL in a literal" % tg, S.L.fn["loc"],
                 "a NUL escape is dropped and what follows it belongs to the string, as in \"%s\"" % show(nul))
    # two literals don't affect one another, and the storage of one isn't the other's
    for x, y in (("ab", "c"), ("", "q"), ("\\n", "")):
        for tk, st, end, c in S.scan('"%s" "%s"' % (x, y), fresh):
            if end != "end":
                continue
            got = [S.mod.get(t[2], t[2].env.get(zcell(S, "string"), ("unk",))) for t in tk]
            again = S.mod.get(st, tk[0][2].env.get(zcell(S, "string"), ("unk",))) if tk else None
            want = ["".join(map(chr, cstring(x))), "".join(map(chr, cstring(y)))]
            ctx.check(got == want and again == want[0], "strings", "%s: \"%s\" then \"%s\"" % (tg, show(x), show(y)),
                      S.L.fn["loc"], lambda: "the literals contain %s; the first then %s" % (got, again))
    for t in ('"abc\n"', '"abc\\\n"', '"\n'):
        for tk, st, end, c in S.scan(t):
            ctx.check(end == "dead", "strings", "%s: %s" % (tg, show(t)), S.L.fn["loc"],
                      "a line end in a string isn't reported")
    # the end of the program inside of a string or an attribute
    for c, role in sorted(condition_roles(S).items()):
        if role in ("string", "annotation"):
            outs = S.act(S.eob + 1 + c, "", None, c)
            ctx.check(all(k == "dead" for k, v, s in outs), "strings", "%s: end of file in a %s" % (tg, role),
                      S.L.fn["loc"], "a %s that isn't closed is accepted" % role)


def annotations(S, depth):
    """Attributes and asm statements are skipped up to their own closing parenthesis."""
    ctx, tg = S.ctx, S.target
    parts = ["(", ")", "a", '"(\\")"', "\n"]
    seen = 0
    for op in ("__attribute__(", "__attribute__ (", "__asm(", "__asm__("):
        first = [r for r in S.scan(op) if r[2] == "end" and not r[0]]
        if not first:
            ctx.ok("annotation", "%s: %s isn't an opener" % (tg, op))
            continue
        work = [("", r[1], r[3], 1) for r in first]
        while work:
            done, st, c, open_ = work.pop()
            k = done.count("\x00")
            if k >= 3 * depth:
                continue
            for p in parts if k < depth else parts[:2]:
                if p == "a" and done.endswith("a\x00"):
                    continue
                o2 = open_ + (p == "(") - (p == ")")
                text = done.replace("\x00", "") + p
                for tk, s, end, c2 in S.scan(p, st, c):
                    seen += 1
                    if end != "end" or tk:
                        if tk:
                            ctx.fail("annotation", "%s: %s%s" % (tg, op, show(text)), S.L.fn["loc"],
                                     "a part of an annotation is taken for program text")
                        continue
                    inside_ = S.roles.get(c2) != "text"
                    ctx.check(inside_ == (o2 > 0), "annotation", "%s: %s%s" % (tg, op, show(text)), S.L.fn["loc"],
                              "the annotation `%s%s' %s" % (op, show(text), "is closed but what follows is skipped"
                                                           if inside_ else "isn't closed yet"))
                    if o2 > 0 and inside_:
                        work.append((done + p + "\x00", s, c2, o2))
    c = next((c for c, r in S.roles.items() if r == "annotation"), None)
    if c is None:
        return
    for r, lex in sorted(S.rules_of(c).items()):
        outs = S.outcomes(r, c, lex)
        if all(o[0] == "die" for o in outs):
            continue
        kinds = [cat("("), cat(")"), plus(but('()"')), STR]
        ok = any(outside(S.L, c, {r}, k) is None for k in kinds)
        ctx.check(ok, "annotation", "%s: text like `%s'" % (tg, show(lex)), S.loc(r),
                  "`%s' is skipped at once in an annotation" % show(outside(S.L, c, {r}, alt(*kinds)) or lex))


def lines(S):
    """Tokens carry the line that they are on."""
    ctx, tg = S.ctx, S.target
    cell = ("S", ("G", "", tg + "lloc"), "first_line")

    def line(tok):
        return tok[2].env.get(cell)

    def diff(a, b):
        """b - a if they are known to differ by a constant."""
        if a == b:
            return 0
        if a and b and a[0] == "i" and b[0] == "i":
            return b[1] - a[1]
        return ("?", a, b)
    start = State()
    fl = S.flow() if not hasattr(S, "fl") else S.fl
    start.env[S.cell(fl, "linenum")] = ("i", 1)
    for text, want in (("a b", [1, 1]), ("a\nb", [1, 2]), ("a\n\n\nb\nc", [1, 4, 5]), ("a\n  b;\n}", [1, 2, 2, 3]),
                       ("struct\nx", [1, 2]), ("struct\n\n{", [1, 3]), ("const\na", [2]),
                       ("__attribute__((\n\na))\nb", [4]), ("\"a\\nb\"\nc", [1, 2]), ("'\\n'\nb", [1, 2]),
                       ("__asm(\"x\n", None), ("a\r\nb", [1, 2]),
                       ('# 42 "f.c"\na\nb', [42, 43]), ('x\n# 7 "/usr/include/f-1.h" 1 3 4\na\n# 3 "g.c" 2\nb', [1, 7, 3]),
                       ('# 10 "f.c"\n\n\na', [12])):
        if text.startswith("#") or "\n#" in text:
            if tg != "cscript":
                continue
        for tk, st, end, c in S.scan(text, start):
            if end != "end" or want is None:
                continue
            got = [line(t) for t in tk]
            got = [g[1] if g and g[0] == "i" else g for g in got]
            ctx.check(got == want, "lines", "%s: %s" % (tg, show(text)), S.L.fn["loc"],
                      lambda: "tokens are said to be on lines %s instead of %s" % (got, want))
    # all other rules: no line end in the middle of a lexeme
    for c in S.conds:
        for r, lex in sorted(S.rules_of(c).items()):
            if all(o[0] == "die" for o in S.outcomes(r, c, lex)):
                continue
            w = outside(S.L, c, {r}, alt("\n", star(but("\n"))))
            ctx.check(w is None, "lines", "%s: lexemes like `%s' (%s)" % (tg, show(lex), S.roles.get(c)), S.loc(r),
                      "the line end in `%s' isn't counted" % show(w))


def names(S):
    """Identifier tokens are their text; they are type names iff declared so."""
    ctx, tg = S.ctx, S.target
    n = 0
    for c, role in sorted(condition_roles(S).items()):
        if role not in ("text", "tag"):
            continue
        for r, lex in sorted(S.rules_of(c).items()):
            if not any(o[0] == "token" and o[1] in ("IDENTIFIER", "TYPE_NAME") for o in S.outcomes(r, c, lex)):
                continue
            for kind, val, st in S.act(r, None, None, c):
                if kind != "r":
                    continue
                t = S.tokname(val)
                o = st.env.get(zcell(S, "tree"))
                f = S.p.acc["tID_STR"][1]
                txt = st.env.get(("F", o, f)) if o else None
                n += 1
                ctx.check(txt in (("dup", ("p", "yytext")), ("p", "yytext")), "names",
                          "%s: %s (%s)" % (tg, t, role), S.loc(r),
                          "the identifier that a token stands for isn't the token's text")
                if role == "text":
                    asked = [b for b, s in S.fl.branch(("r", "is_typename", (o,), 0), st)]
                    ctx.check(asked == [t == "TYPE_NAME"], "names", "%s: %s by declaration" % (tg, t), S.loc(r),
                              "whether an identifier is a type name doesn't depend on its declaration alone")
                elif role == "tag":
                    ctx.check(t == "IDENTIFIER", "names", "%s: a tag is an identifier" % tg, S.loc(r),
                              "a tag is taken for a type name")
    return n


def run(ctx):
    R = ctx.rule
    R("skipped", "only white space, line markers, qualifiers without meaning here and attributes are dropped from a program")
    R("tokens", "each token has the spelling C gives it; all identifiers and constants are recognised, no keyword is an identifier")
    R("munch", "what C has as one token is one token or is rejected; sequences of operators are split as C splits them")
    R("values", "integer, character and floating constants have the value of their text, or are reported")
    R("strings", "string literals contain the characters written, or are reported")
    R("annotation", "attributes and asm statements end at their own closing parenthesis")
    R("lines", "tokens carry the line they're on")
    R("names", "identifier tokens are the identifier written and are type names iff so declared")
    S = {}
    jobs = []
    for tg in ("cscript", "repl"):
        with ctx.guarded("%s scanner" % tg):
            s = S[tg] = Scan(ctx, tg)
            s.fl = s.flow()
            mod = s.mod
            s.fl_text = mod.get
            condition_roles(s)
            ctx.functions.add("%s (%d rules, %d conditions)" % (s.L.fn["name"], len(s.L.index), len(s.conds)))
            ctx.states += s.L.jam
            for f, k in ((languages, ()), (munch, ()), (integers, ()), (chars, ()), (floats, ()), (strings, ()),
                         (annotations, (4 if ctx.tier == "thorough" else 3,)), (lines, ()), (names, ())):
                jobs.append(("%s %s" % (tg, f.__name__), (lambda f, s, k: lambda: f(s, *k))(f, s, k)))
    spread(ctx, jobs)
    for r, n in (("skipped", 15), ("tokens", 200), ("munch", 100), ("values", 500), ("strings", 400),
                 ("annotation", 100), ("lines", 100), ("names", 8)):
        ctx.need(r, n)
