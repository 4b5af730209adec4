"""The front end as tables and summaries: the scanner's automaton and rule
actions, the LALR automaton and the dataflow summary of each semantic action.

Sentential forms (token/nonterminal sequences whose operands are opaque trees)
are taken through the LALR automaton; each reduction applies the dataflow of
its semantic action to the abstract state, which yields the abstract syntax
tree that the construct has for every choice of operands.
"""
import xml.etree.ElementTree as ET
from flow import *


def walk_switches(s):
    if isinstance(s, list):
        if s and s[0] == "switch":
            yield s
        for x in s:
            yield from walk_switches(x)


def find_vars(s, out):
    if isinstance(s, list):
        if len(s) >= 4 and s[0] == "v" and isinstance(s[1], str):
            out.setdefault(s[1], set()).add(s[2])
        for x in s:
            find_vars(x, out)


def il_ints(init):
    r = []
    for x in init[1]:
        while x[0] == "cast":
            x = x[2]
        neg = False
        if x[0] == "un" and x[1] == "-":
            neg, x = True, x[2]
        if x[0] != "i":
            raise Limit("table entry not understood")
        r.append(-x[1] if neg else x[1])
    return r


class Lexer:
    def __init__(self, prog, target):
        self.p = prog
        self.target = target
        self.unit = target + "lex.c"
        g = prog.globals[self.unit]
        t = lambda n: il_ints(g[n]["init"])
        self.ec, self.meta = t("yy_ec"), t("yy_meta")
        self.accept, self.base, self.df = t("yy_accept"), t("yy_base"), t("yy_def")
        self.nxt, self.chk = t("yy_nxt"), t("yy_chk")
        self.jam = len(self.accept) - 1
        f = prog.lookup(self.unit, target + "lex") or prog.lookup(self.unit, "yylex")
        if f is None:
            raise Limit("scanner function not found")
        self.fn = f
        sw = max(walk_switches(f["body"]), key=lambda s: len(s[3][2]))
        self.items = list(sw[3][2])
        self.index = {}
        for i, it in enumerate(self.items):
            x = it
            while x and x[0] in ("case", "default", "label"):
                if x[0] == "case":
                    self.index[x[2]] = i
                    x = x[4]
                elif x[0] == "default":
                    x = x[2]
                else:
                    x = x[3]
        self.nrules = max(a for a in self.accept) - 1   # last is end-of-buffer
        if len(self.index) < 40:
            raise Limit("scanner actions not understood")

    def step(self, s, byte):
        c = self.ec[byte]
        while self.chk[self.base[s] + c] != s:
            s = self.df[s]
            if s >= self.jam + 1:
                c = self.meta[c]
        return self.nxt[self.base[s] + c]

    def match(self, text, start=1):
        """(rule, length) of the longest match at the start of text."""
        s = start
        best = None
        for i, ch in enumerate(text.encode()):
            s = self.step(s, ch)
            if s == self.jam:
                break
            if self.accept[s]:
                best = (self.accept[s], i + 1)
        return best

    def flow(self, **kw):
        op = {"get_identifier": o_ident, "is_typename": o_pure1}
        op.update(kw.pop("opaque", {}))
        return Flow(self.p, self.unit, opaque=op, **kw)

    def action(self, rule, lexeme=None, fl=None):
        """Outcomes of the action of a rule: (kind, value, state)."""
        fl = fl or self.flow()
        st = State()
        txt = ("str", lexeme) if lexeme is not None else ("p", "yytext")
        st.env[("G", "", self.target + "text")] = txt
        fl.stack.append({"name": self.fn["name"], "unit": self.unit, "loc": ""})
        fl.outcomes_dead = []
        try:
            if rule not in self.index:
                raise Limit("no action for rule %d" % rule)
            outs = fl.run_seq(self.items, st, self.index[rule])
        finally:
            fl.stack.pop()
        return outs + [("dead", o.val, o.st) for o in fl.outcomes_dead]

    def token(self, lexeme):
        """Token number a whole lexeme is scanned as (IGNORED: it is skipped), or None."""
        m = self.match(lexeme)
        if not m or m[1] != len(lexeme.encode()):
            return None
        toks = set()
        for kind, val, st in self.action(m[0], lexeme):
            if kind == "r" and val[0] == "i":
                toks.add(val[1])
            else:
                # an action that ends without a token: the scanner goes on
                toks.add(IGNORED if kind == "b" else None)
        return toks.pop() if len(toks) == 1 else None


IGNORED = "ignored"


def o_ident(fl, name, args, st, loc, e):
    o, st = fl.new_object(st, ("i", fl.p.tree_types["T_IDENTIFIER"]), loc)
    st.env[("F", o, fl.p.acc["tID_STR"][1])] = ("dup", args[0])
    return [(o, st)]


def o_pure1(fl, name, args, st, loc, e):
    return [(("r", name, args, 0), st)]


class Grammar:
    def __init__(self, prog, target, xml):
        self.p = prog
        self.target = target
        self.unit = target + "parser.c"
        root = ET.parse(xml).getroot()
        g = root.find("grammar")
        self.rules = {}
        for r in g.find("rules"):
            rhs = [s.text for s in r.find("rhs") if s.tag == "symbol"]
            self.rules[int(r.get("number"))] = (r.find("lhs").text, rhs)
        self.tok = {}            # token number -> symbol name
        self.tokno = {}
        for s in g.find("terminals"):
            self.tok[int(s.get("token-number"))] = s.get("name")
            self.tokno[s.get("name")] = int(s.get("token-number"))
        self.nts = set(s.get("name") for s in g.find("nonterminals"))
        self.shift, self.goto, self.red, self.dflt = {}, {}, {}, {}
        for st in root.find("automaton"):
            n = int(st.get("number"))
            a = st.find("actions")
            for t in a.find("transitions"):
                (self.shift if t.get("type") == "shift" else self.goto)[
                    (n, t.get("symbol"))] = int(t.get("state"))
            for r in a.find("reductions"):
                if r.get("enabled") != "true":
                    continue
                rule = r.get("rule")
                rule = None if rule == "accept" else int(rule)
                if r.get("symbol") == "$default":
                    self.dflt[n] = rule
                else:
                    self.red[(n, r.get("symbol"))] = rule
        f = prog.lookup(self.unit, target + "parse")
        if f is None:
            raise Limit("parser function not found")
        self.fn = f
        sws = list(walk_switches(f["body"]))
        sw = max(sws, key=lambda s: len(s[3][2]))
        self.items = list(sw[3][2])
        self.index = {}
        for i, it in enumerate(self.items):
            x = it
            while x and x[0] in ("case", "default", "label"):
                if x[0] == "case":
                    self.index[x[2] - 1] = i     # bison numbers rules from 1
                    x = x[4]
                elif x[0] == "default":
                    x = x[2]
                else:
                    x = x[3]
        self.vars = {}
        find_vars(f["body"], self.vars)
        for v in ("yyvsp", "yylsp", "yyval", "yyloc"):
            if len(self.vars.get(v, ())) != 1:
                raise Limit("parser variable %s not found" % v)
        self.types = {}
        for r, (lhs, rhs) in self.rules.items():
            for x in [lhs] + rhs:
                self.types[x] = "tree"
        for sec in ("terminals", "nonterminals"):
            for s in g.find(sec):
                self.types[s.get("name")] = s.get("type") or "tree"

    def rule_name(self, r):
        lhs, rhs = self.rules[r]
        return "%s: %s" % (lhs, " ".join(rhs))

    def find_rule(self, lhs, rhs):
        for r, (l, rr) in self.rules.items():
            if l == lhs and rr == rhs.split():
                return r
        return None

    def reduce(self, fl, rule, vals, st, step):
        """Apply the action's dataflow: list of (value, state).  vals: list of
        (value dict or value, location)."""
        lhs, rhs = self.rules[rule]
        n = len(rhs)
        fl.stack.append({"name": self.fn["name"], "unit": self.unit,
                         "loc": "reduction%s" % step})
        try:
            fr = fl.frame()
            var = lambda v: ("L", fr, "%s#%s" % (v, next(iter(self.vars[v]))))
            st = st.copy()
            st.env[var("yyvsp")] = ("p", "$")
            st.env[var("yylsp")] = ("p", "@")
            tmp = []
            for i, (v, l) in enumerate(vals):
                k = i - n + 1
                x = ("X", ("p", "$"), ("i", k))
                for m in ("tree", "string", "compound_type"):
                    c = ("S", x, m)
                    st.env[c] = v
                    tmp.append(c)
                if v[0] == "mpz":
                    st.env[("Z", ("S", x, "integer"))] = v[1]
                    tmp.append(("Z", ("S", x, "integer")))
                c = ("X", ("p", "@"), ("i", k))
                st.env[c] = l
                tmp.append(c)
            yv = var("yyval")
            first = vals[0][0] if n else ("undef", "$1")
            for m in ("tree", "string", "compound_type"):
                st.env[("S", yv, m)] = first
            if rule not in self.index:
                return [(first, self.clean(st, fr, tmp))]
            out = []
            for kind, val, s in fl.run_seq(self.items, st, self.index[rule]):
                if kind == "n" or kind == "b":
                    v = s.env[("S", yv, self.types.get(lhs, "tree"))] \
                        if self.types.get(lhs) in ("tree", "string", "compound_type") \
                        else s.env[("S", yv, "tree")]
                    out.append((v, self.clean(s, fr, tmp)))
                else:
                    raise Limit("jump out of the action of rule %d" % rule)
            return out
        finally:
            fl.stack.pop()

    def clean(self, st, fr, tmp):
        s = st.copy()
        for c in tmp:
            s.env.pop(c, None)
        for c in list(s.env):
            if c[0] == "L" and c[1] == fr:
                del s.env[c]
            elif c[0] in ("S", "Z") and c[1][0] == "L" and c[1][1] == fr:
                del s.env[c]
        return s

    def parse(self, fl, syms, goal, follow, st=None, base=0):
        """syms: list of (symbol, value, location).  Returns [(value, state)]
        when the symbols reduce to `goal` with `follow` as the lookahead; None
        when the automaton rejects them."""
        st = st or State()
        if base == 0:
            base = self.start(goal)
        configs = [(((base, None, None, None),), st, 0)]
        done = []
        step = [0]
        seq = list(syms)
        guard = 0
        while configs:
            stack, s, i = configs.pop(0)
            guard += 1
            if guard > 4000:
                raise Limit("parse of sentential form does not end")
            state = stack[-1][0]
            if i == len(seq):
                if len(stack) == 2 and stack[1][1] == goal:
                    done.append((stack[1][2], s))
                    continue
                sym, look = None, follow
            else:
                sym, val, loc = seq[i]
                look = sym
            if sym is not None:
                if sym in self.nts:
                    nx = self.goto.get((state, sym))
                    look = "IDENTIFIER" if sym.endswith(("expression", "declarator")) \
                        else (self.first_of(sym))
                else:
                    nx = self.shift.get((state, sym))
                if nx is not None:
                    configs.append((stack + ((nx, sym, val, loc),), s, i + 1))
                    continue
            r = self.red.get((state, look), self.dflt.get(state))
            if r is None:
                return None
            lhs, rhs = self.rules[r]
            n = len(rhs)
            if n >= len(stack):
                return None
            args = [(x[2], x[3]) for x in stack[len(stack) - n:]]
            rest = stack[:len(stack) - n]
            step[0] += 1
            loc = args[0][1] if args else ("loc", "empty")
            for v, s2 in self.reduce(fl, r, args, s, step[0]):
                g = self.goto.get((rest[-1][0], lhs))
                if g is None:
                    return None
                configs.append((rest + ((g, lhs, v, loc),), s2, i))
        return done

    def start(self, goal):
        """The state in which a construct can begin at the start of a text."""
        state = 0
        while True:
            r = self.dflt.get(state)
            if r is None or self.rules[r][1] or self.rules[r][0] == goal:
                return state
            if any(k[0] == state for k in self.shift) or any(k[0] == state for k in self.red):
                return state
            state = self.goto[(state, self.rules[r][0])]

    def first_of(self, nt):
        seen = set()
        todo = [nt]
        while todo:
            x = todo.pop(0)
            if x not in self.nts:
                return x
            if x in seen:
                continue
            seen.add(x)
            for r, (l, rhs) in sorted(self.rules.items()):
                if l == x and rhs:
                    todo.append(rhs[0])
        return None
