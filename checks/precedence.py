"""Operator precedence and associativity, as the LALR tables and semantic
actions decide them: the tree of `A op1 B op2 C` against the tree of the
parenthesised form that C's grammar prescribes."""
import itertools
from world import *

LEVELS = [["*", "/", "%"], ["+", "-"], ["<<", ">>"], ["<", ">", "<=", ">="],
          ["==", "!="], ["&"], ["^"], ["|"], ["&&"], ["||"]]
PREC = {op: 20 - i for i, l in enumerate(LEVELS) for op in l}
ASSIGN = ["=", "+=", "-=", "/=", "<<=", ">>=", "^="]
PREFIX = ["!", "~", "*", "&", "++", "--", "sizeof"]
POSTFIX = [["++"], ["--"], ["[", P("I"), "]"], [".", ("IDENTIFIER", "m")],
           ["->", ("IDENTIFIER", "m")], ["(", ")"], ["(", P("I"), ")"]]


class Trees:
    def __init__(self, w, t):
        self.w, self.t, self.cache = w, t, {}

    def tree(self, items):
        key = tuple(items)
        if key not in self.cache:
            fl, r = self.w.parse(self.t, items, "expression", "';'")
            self.cache[key] = None if r is None else \
                sorted(set(describe(self.w.p, v, s) for v, s in r), key=repr)
        return self.cache[key]


def describe(p, v, st, depth=0):
    """A tree without source positions; an expression list of one expression
    stands for that expression."""
    if v[0] != "new" or depth > 30:
        return v
    t = st.env.get(("F", v, "type"))
    if t is None:
        return v
    name = p.type_names[t[1]]
    if name == "CHAIN_HEAD":
        return ("list",) + tuple(describe(p, x, st, depth + 1) for x in members(v, st))
    fs = []
    for c, x in st.env.items():
        if c[0] == "F" and c[1] == v and c[2] != "type" and \
                not c[2].startswith(("locus", "chain")):
            fs.append((c[2], describe(p, x, st, depth + 1)))
        if c[0] == "Z" and c[1][0] == "F" and c[1][1] == v:
            fs.append((c[1][2], x))
    if name == "T_EXPR_LIST" and len(fs) == 1 and isinstance(fs[0][1], tuple) \
            and fs[0][1][0] == "list" and len(fs[0][1]) == 2:
        return fs[0][1][1]
    return (name,) + tuple(sorted(fs, key=repr))


def members(head, st):
    """The nodes chained on a list head."""
    out = []
    end = ("pl", ("F", head, "chain"))
    x = st.env.get(("F", head, "chain.next"), end)
    while x != end:
        if x[0] != "pl" or x[1][0] != "F" or len(out) > 50:
            out.append(("?", x))
            break
        n = x[1][1]
        out.append(n)
        x = st.env.get(("F", n, "chain.next"), ("pl", ("F", n, "chain")))
        if x == ("pl", ("F", n, "chain")) or n == head:
            out.append(("unterminated",))
            break
    return out


def run(ctx):
    w = World(ctx)
    ctx.rule("binary-binary", "`A op1 B op2 C` groups as C's precedence and left associativity say")
    ctx.rule("prefix-binary", "a prefix operator or cast binds to its operand before any binary operator")
    ctx.rule("postfix", "postfix operators bind before prefix operators and chain left to right")
    ctx.rule("conditional", "?: binds looser than every binary operator and groups to the right")
    ctx.rule("assignment", "assignments bind looser than ?:, group to the right, take a unary expression "
             "on the left, and are looser only than the comma")
    ctx.rule("grouping", "the two groupings of a pair of operators give different trees")
    for t in w.targets:
        T_ = Trees(w, t)
        with ctx.guarded(t + " binary"):
            binary(ctx, T_, t)
        with ctx.guarded(t + " prefix"):
            prefix(ctx, T_, t)
        with ctx.guarded(t + " postfix"):
            postfix(ctx, T_, t)
        with ctx.guarded(t + " conditional"):
            cond(ctx, T_, t)
        with ctx.guarded(t + " assignment"):
            assign(ctx, T_, t)
    ctx.need("binary-binary", 2 * 18 * 18)


def same(ctx, rule, T_, t, plain, grouped, other=None):
    sub = "%s: %s" % (t, text(plain))
    a, b = T_.tree(plain), T_.tree(grouped)
    if b is None:
        return ctx.fail(rule, sub, "parser.m4", "`%s` is not accepted" % text(grouped))
    ctx.check(a == b, rule, sub, "parser.m4",
              lambda: "does not mean `%s`%s" % (text(grouped), ": it is rejected" if a is None else ""))
    if other is not None:
        c = T_.tree(other)
        ctx.check(c is None or c != b, "grouping", sub, "parser.m4",
                  "`%s` and `%s` give the same tree" % (text(grouped), text(other)))


def binary(ctx, T_, t):
    for o1, o2 in itertools.product(PREC, PREC):
        plain = [P("A"), o1, P("B"), o2, P("C")]
        left = ["(", P("A"), o1, P("B"), ")", o2, P("C")]
        right = [P("A"), o1, "(", P("B"), o2, P("C"), ")"]
        good, other = (left, right) if PREC[o1] >= PREC[o2] else (right, left)
        same(ctx, "binary-binary", T_, t, plain, good, other)


def prefix(ctx, T_, t):
    pre = [[x] for x in PREFIX] + [["(", T("TY"), ")"]]
    for p in pre:
        for op in PREC:
            same(ctx, "prefix-binary", T_, t, p + [P("A"), op, P("B")],
                 ["("] + p + [P("A"), ")", op, P("B")], p + ["(", P("A"), op, P("B"), ")"])
    for p in (["!"], ["~"], ["*"], ["++"], ["--"]):
        for q in (["!"], ["~"], ["*"], ["&"], ["sizeof"]):
            same(ctx, "prefix-binary", T_, t, p + q + [P("A")], p + ["("] + q + [P("A"), ")"])
    for p in pre[-1:]:
        for q in [[x] for x in PREFIX] + pre[-1:]:
            same(ctx, "prefix-binary", T_, t, p + q + [P("A")], p + ["("] + q + [P("A"), ")"])


def postfix(ctx, T_, t):
    pre = [[x] for x in PREFIX] + [["(", T("TY"), ")"]]
    for p in pre:
        for q in POSTFIX:
            same(ctx, "postfix", T_, t, p + [P("A")] + q, p + ["(", P("A")] + q + [")"],
                 ["("] + p + [P("A"), ")"] + q)
    for q in POSTFIX:
        for r in POSTFIX:
            r = [P("J") if x == P("I") else x for x in r]
            same(ctx, "postfix", T_, t, [P("A")] + q + r, ["(", P("A")] + q + [")"] + r)
        for op in PREC:
            same(ctx, "postfix", T_, t, [P("A"), op, P("B")] + q, [P("A"), op, "(", P("B")] + q + [")"])


def cond(ctx, T_, t):
    for op in PREC:
        same(ctx, "conditional", T_, t, [P("A"), op, P("B"), "?", P("C"), ":", P("D")],
             ["(", P("A"), op, P("B"), ")", "?", P("C"), ":", P("D")],
             [P("A"), op, "(", P("B"), "?", P("C"), ":", P("D"), ")"])
        same(ctx, "conditional", T_, t, [P("A"), "?", P("B"), ":", P("C"), op, P("D")],
             [P("A"), "?", P("B"), ":", "(", P("C"), op, P("D"), ")"],
             ["(", P("A"), "?", P("B"), ":", P("C"), ")", op, P("D")])
    same(ctx, "conditional", T_, t, [P("A"), "?", P("B"), ":", P("C"), "?", P("D"), ":", P("E")],
         [P("A"), "?", P("B"), ":", "(", P("C"), "?", P("D"), ":", P("E"), ")"],
         ["(", P("A"), "?", P("B"), ":", P("C"), ")", "?", P("D"), ":", P("E")])
    same(ctx, "conditional", T_, t, [P("A"), "?", P("B"), "?", P("C"), ":", P("D"), ":", P("E")],
         [P("A"), "?", "(", P("B"), "?", P("C"), ":", P("D"), ")", ":", P("E")])


def assign(ctx, T_, t):
    for a in ASSIGN:
        for op in PREC:
            same(ctx, "assignment", T_, t, [P("A"), a, P("B"), op, P("C")],
                 [P("A"), a, "(", P("B"), op, P("C"), ")"], ["(", P("A"), a, P("B"), ")", op, P("C")])
            bad = [P("A"), op, P("B"), a, P("C")]
            ctx.check(T_.tree(bad) is None, "assignment", "%s: %s rejected" % (t, text(bad)),
                      "parser.m4", "the target of an assignment may be a binary expression")
        for b in ASSIGN:
            same(ctx, "assignment", T_, t, [P("A"), a, P("B"), b, P("C")],
                 [P("A"), a, "(", P("B"), b, P("C"), ")"], ["(", P("A"), a, P("B"), ")", b, P("C")])
        same(ctx, "assignment", T_, t, [P("A"), a, P("B"), "?", P("C"), ":", P("D")],
             [P("A"), a, "(", P("B"), "?", P("C"), ":", P("D"), ")"])
        same(ctx, "assignment", T_, t, [P("A"), a, P("B"), ",", P("C")],
             ["(", P("A"), a, P("B"), ")", ",", P("C")], [P("A"), a, "(", P("B"), ",", P("C"), ")"])
        same(ctx, "assignment", T_, t, [P("A"), ",", P("B"), a, P("C")],
             [P("A"), ",", "(", P("B"), a, P("C"), ")"])
        same(ctx, "assignment", T_, t, ["*", P("A"), a, P("B")], ["(", "*", P("A"), ")", a, P("B")],
             ["*", "(", P("A"), a, P("B"), ")"])
