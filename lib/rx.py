"""Regular expressions over bytes, by derivatives; comparison with the language
that a scanner's automaton accepts for given rules.

Expressions: ("0",) nothing, ("1",) the empty word, ("c", mask) one byte of a
set, ("&", a, b), ("|", frozenset), (".", a, b), ("*", a), ("!", a).
"""
NONE, EPS = ("0",), ("1",)
ALL = (1 << 256) - 2            # NUL is the end of a lexeme


def cls(s):
    m = 0
    for ch in (s.encode("latin-1") if isinstance(s, str) else s):
        m |= 1 << ch
    return ("c", m)


def rng(*pairs):
    m = 0
    for p in pairs:
        for c in range(ord(p[0]), ord(p[-1]) + 1):
            m |= 1 << c
    return ("c", m)


def but(s):
    return ("c", ALL & ~cls(s)[1])


ANY = ("c", ALL)


def cat(*xs):
    r = EPS
    for x in reversed(xs):
        if isinstance(x, str):
            x = word(x)
        if x == NONE or r == NONE:
            return NONE
        r = x if r == EPS else r if x == EPS else (".", x, r)
    return r


def word(s):
    return cat(*[cls(bytes([b])) for b in s.encode("latin-1")]) if s else EPS


def alt(*xs):
    out = set()
    for x in xs:
        if isinstance(x, str):
            x = word(x)
        if x[0] == "|":
            out |= x[1]
        elif x != NONE:
            out.add(x)
    if not out:
        return NONE
    return out.pop() if len(out) == 1 else ("|", frozenset(out))


def star(x):
    if isinstance(x, str):
        x = word(x)
    return EPS if x in (NONE, EPS) else x if x[0] == "*" else ("*", x)


def plus(x):
    return cat(x, star(x))


def opt(x):
    return alt(EPS, x)


def inter(a, b):
    return NONE if NONE in (a, b) else ("&", a, b) if a != b else a


def minus(a, b):
    return inter(a, ("!", b))


def nullable(r):
    k = r[0]
    if k == "|":
        return any(nullable(x) for x in r[1])
    if k in "&.":
        return nullable(r[1]) and nullable(r[2])
    if k == "!":
        return not nullable(r[1])
    return k in "1*"


def deriv(r, b, memo={}):
    key = (r, b)
    if key in memo:
        return memo[key]
    k = r[0]
    if k in "01":
        d = NONE
    elif k == "c":
        d = EPS if r[1] >> b & 1 else NONE
    elif k == "|":
        d = alt(*[deriv(x, b) for x in r[1]])
    elif k == "&":
        d = inter(deriv(r[1], b), deriv(r[2], b))
    elif k == "!":
        d = ("!", deriv(r[1], b))
    elif k == "*":
        d = cat(deriv(r[1], b), r)
    else:
        d = cat(deriv(r[1], b), r[2])
        if nullable(r[1]):
            d = alt(d, deriv(r[2], b))
    memo[key] = d
    return d


def sets(r, out):
    if r[0] == "c":
        out.add(r[1])
    elif r[0] == "|":
        for x in r[1]:
            sets(x, out)
    else:
        for x in r[1:]:
            sets(x, out)


def classes(L, r):
    """One byte for each class that neither the scanner nor r distinguishes,
    printable ones preferred."""
    ms = set()
    sets(r, ms)
    seen = {}
    for b in sorted(range(1, 256), key=lambda b: (not 97 <= b < 123, not 32 < b < 127, b)):
        seen.setdefault((L.ec[b],) + tuple(m >> b & 1 for m in sorted(ms)), b)
    return list(seen.values())


def search(L, cond, r, hit):
    """Shortest lexeme whose (scanner state, derivative of r) satisfies hit."""
    start = (1 + 2 * cond, r)
    bs = classes(L, r)
    seen = {start: None}
    todo = [start]
    for s, d in todo:
        for b in bs:
            s2 = L.jam if s == L.jam else L.step(s, b)
            d2 = deriv(d, b)
            if s2 == L.jam and d2 == NONE:
                continue
            n = (s2, d2)
            if n in seen:
                continue
            seen[n] = ((s, d), b)
            if hit(L.accept[s2] if s2 != L.jam else 0, d2):
                out = []
                while seen[n]:
                    n, b = seen[n]
                    out.append(b)
                return bytes(reversed(out)).decode("latin-1")
            todo.append(n)
    return None


def outside(L, cond, rules, r):
    """A lexeme of the rules that r doesn't contain, or None."""
    return search(L, cond, r, lambda a, d: a in rules and not nullable(d))


def missing(L, cond, rules, r):
    """A word of r that isn't a lexeme of the rules, or None."""
    return search(L, cond, r, lambda a, d: a not in rules and nullable(d))


def inside(L, cond, rules, r):
    """A lexeme of the rules that is in r, or None."""
    return search(L, cond, r, lambda a, d: a in rules and nullable(d))
