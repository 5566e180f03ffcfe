"""Independent reader of the gogll grammar notation, used only for the oracle.

It shares nothing with gogll: a hand-written scanner and recursive-descent
parser that yields regular expression trees for lexical rules and plain symbol
lists for syntax rules.
"""
import re
import unicodedata


class Gram:
    def __init__(self):
        self.package = None
        self.lex = []      # (name, suppressed, regex)
        self.rules = []    # (nt, [[symbol]]); symbol = ('nt',x) | ('t',x)
        self.literals = [] # text of string literals in syntax rules


def md_code(text):
    out, keep, i = [], False, 0
    while i < len(text):
        if text.startswith("```", i):
            keep = not keep
            i += 3
            out.append("   ")
            continue
        out.append(text[i] if keep or text[i] == "\n" else " ")
        i += 1
    return "".join(out)


ESC = {"n": "\n", "r": "\r", "t": "\t"}


def unesc(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            i += 1
            o.append(ESC.get(s[i], s[i]))
        else:
            o.append(s[i])
        i += 1
    return "".join(o)


TOK = re.compile(r"""\s+|(?P<uset>'\[(?:-?\\p\{\w+\})+\]')|(?P<char>'(?:\\.|[^'])')|(?P<str>"(?:\\.|[^"\\])*")
   |(?P<id>[^\W\d_]\w*)|(?P<p>[!:;|.()\[\]{}<>])""", re.X | re.S)


def scan(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError("grammar char %r at %d" % (text[i], i))
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def want(self, v):
        t = self.next()
        if t[1] != v:
            raise SyntaxError("want %r have %r" % (v, t))


def parse(text):
    p = P(scan(text))
    g = Gram()
    p.want("package")
    g.package = p.next()[1][1:-1]
    while p.peek()[0] != "eof":
        sup = False
        if p.peek()[1] == "!":
            p.next()
            sup = True
        k, name = p.next()
        p.want(":")
        if name[0].isupper():
            alts = [[]]
            while p.peek()[1] != ";" or p.peek()[0] == "str":
                k, v = p.next()
                if k == "p" and v == "|":
                    alts.append([])
                elif k == "id" and v == "empty":
                    alts[-1].append(("e", ""))
                elif k == "str":
                    lit = v[1:-1]
                    if lit not in g.literals:
                        g.literals.append(lit)
                    alts[-1].append(("t", unesc(lit)))
                elif k == "id":
                    alts[-1].append(("nt" if v[0].isupper() else "t", v))
                else:
                    raise SyntaxError("syntax symbol %r" % v)
            p.want(";")
            g.rules.append((name, [[s for s in a if s[0] != "e"] for a in alts]))
        else:
            rx = regexp(p)
            p.want(";")
            g.lex.append((name, sup, rx))
    return g


def regexp(p):
    seq = []
    while True:
        k, v = p.peek()
        if k == "p" and v in (";", "|", ")", "]", "}", ">"):
            break
        if k == "eof":
            raise SyntaxError("eof in regexp")
        p.next()
        if k == "char":
            seq.append(("chr", unesc(v[1:-1])))
        elif k == "uset":
            seq.append(("uset", re.findall(r"(-?)\\p\{(\w+)\}", v)))
        elif k == "p" and v == ".":
            seq.append(("any",))
        elif k == "id" and v in ("any", "not"):
            s = p.next()
            assert s[0] == "str"
            seq.append(("in" if v == "any" else "notin", unesc(s[1][1:-1])))
        elif k == "id" and v in ("letter", "upcase", "lowcase", "number"):
            seq.append((v,))
        elif k == "id":
            seq.append(("ref", v))
        elif k == "p" and v in "([{<":
            alts = [regexp(p)]
            while p.peek()[1] == "|" and p.peek()[0] == "p":
                p.next()
                alts.append(regexp(p))
            p.want({"(": ")", "[": "]", "{": "}", "<": ">"}[v])
            seq.append(({"(": "grp", "[": "opt", "{": "rep0", "<": "rep1"}[v], alts))
        else:
            raise SyntaxError("regexp symbol %r" % (v,))
    return ("seq", seq)


def expand(rx, defs, seen=()):
    k = rx[0]
    if k == "seq":
        return ("seq", [expand(x, defs, seen) for x in rx[1]])
    if k in ("grp", "opt", "rep0", "rep1"):
        return (k, [expand(x, defs, seen) for x in rx[1]])
    if k == "ref":
        if rx[1] in seen:
            raise SyntaxError("recursive definition " + rx[1])
        return expand(defs[rx[1]], defs, seen + (rx[1],))
    return rx


class Auto:
    """Position automaton of all the token rules together."""

    def __init__(self, g, use_literals=True):
        self.pos = []      # (class, rule)
        self.follow = []
        self.first = []
        self.last = {}     # pos -> True
        self.rules = []    # (id, literal?, suppress?)
        self.nullable = [] # rules that match the empty string
        defs = {n: r for n, s, r in g.lex}
        items = []
        if use_literals:
            for l in g.literals:
                items.append((unesc(l), True, False, ("seq", [("chr", c) for c in unesc(l)])))
        for n, s, r in g.lex:
            items.append((n, False, s, expand(r, defs)))
        for id, lit, sup, rx in items:
            ri = len(self.rules)
            self.rules.append((id, lit, sup))
            nl, fi, la = self.build(rx, ri)
            self.first += fi
            for q in la:
                self.last[q] = True
            if nl:
                self.nullable.append(id)

    def build(self, rx, ri):
        k = rx[0]
        if k == "seq":
            nl, fi, la = True, [], []
            for x in rx[1]:
                n2, f2, l2 = self.build(x, ri)
                for q in la:
                    self.follow[q] |= set(f2)
                if nl:
                    fi = fi + f2
                la = (la + l2) if n2 else l2
                nl = nl and n2
            return nl, fi, la
        if k in ("grp", "opt", "rep0", "rep1"):
            nl, fi, la = False, [], []
            for x in rx[1]:
                n2, f2, l2 = self.build(x, ri)
                nl, fi, la = nl or n2, fi + f2, la + l2
            if k in ("rep0", "rep1"):
                for q in la:
                    self.follow[q] |= set(fi)
            if k in ("opt", "rep0"):
                nl = True
            return nl, fi, la
        q = len(self.pos)
        self.pos.append((rx, ri))
        self.follow.append(set())
        return False, [q], [q]

    def alphabet(self):
        s = set("aZ0 _~\n\té")
        for c, _ in self.pos:
            if c[0] in ("chr", "in", "notin"):
                s |= set(c[1])
        return sorted(s)

    def access(self, limit=200):
        """One shortest input for each reachable set of live positions."""
        al = self.alphabet()
        start = frozenset(["start"])
        seen = {start: ""}
        todo = [start]
        while todo and len(seen) < limit:
            s = todo.pop(0)
            for c in al:
                if s == start and c.isspace():
                    # white space before a token is skipped
                    continue
                cand = set(self.first) if s == start else set().union(*[self.follow[q] for q in s])
                t = frozenset(q for q in cand if matches(self.pos[q][0], c))
                if t and t not in seen:
                    seen[t] = seen[s] + c
                    todo.append(t)
        return list(seen.values())


TABLES = {}


def matches(c, ch):
    k = c[0]
    if k == "chr":
        return ch == c[1]
    if k == "any":
        return True
    if k == "in":
        return ch in c[1]
    if k == "notin":
        return ch not in c[1]
    cat = unicodedata.category(ch)
    if k == "letter":
        return cat[0] == "L"
    if k == "upcase":
        return cat == "Lu"
    if k == "lowcase":
        return cat == "Ll"
    if k == "number":
        return cat[0] == "N"
    if k == "uset":
        inc = any(uni(n, cat, ch) for x, n in c[1] if not x)
        exc = any(uni(n, cat, ch) for x, n in c[1] if x)
        return inc and not exc
    raise ValueError(k)


LONG = {"Letter": "L", "Lower": "Ll", "Upper": "Lu", "Mark": "M", "Number": "N", "Other": "C", "Punct": "P", "Space": "Z", "Symbol": "S", "Title": "Lt", "Digit": "Nd"}


def uni(name, cat, ch):
    n = LONG.get(name, name)
    if len(n) <= 2:
        return cat.startswith(n)
    if name == "White_Space":
        return ch.isspace()
    if name in ("Hex_Digit", "ASCII_Hex_Digit"):
        return ch in "0123456789abcdefABCDEF"
    return False


def goq(s):
    return '"' + "".join("\\U%08x" % ord(c) if ord(c) < 32 or ord(c) > 126 or c in '"\\' else c for c in s) + '"'


def class_go(c):
    k = c[0]
    if k == "chr":
        return "{K: ref.Chr, Set: %s}" % goq(c[1])
    if k == "any":
        return "{K: ref.Any}"
    if k == "in":
        return "{K: ref.In, Set: %s}" % goq(c[1])
    if k == "notin":
        return "{K: ref.NotIn, Set: %s}" % goq(c[1])
    if k == "uset":
        inc = ", ".join("unicode." + n for x, n in c[1] if not x)
        exc = ", ".join("unicode." + n for x, n in c[1] if x)
        return "{K: ref.USet, Inc: []*unicode.RangeTable{%s}, Exc: []*unicode.RangeTable{%s}}" % (inc, exc)
    return "{K: ref.%s}" % k.capitalize()


def auto_go(a, name="Lex"):
    cls, idx = [], {}
    for c, _ in a.pos:
        key = repr(c)
        if key not in idx:
            idx[key] = len(cls)
            cls.append(c)
    o = ["var %s = &ref.Lex{" % name, "\tClasses: []ref.Class{"]
    o += ["\t\t%s," % class_go(c) for c in cls]
    o += ["\t},", "\tPos: []ref.Pos{"]
    for q, (c, r) in enumerate(a.pos):
        o.append("\t\t{C: %d, Rule: %d, Last: %s, Follow: []int{%s}}," % (idx[repr(c)], r, "true" if q in a.last else "false", ", ".join(map(str, sorted(a.follow[q])))))
    o += ["\t},", "\tFirst: []int{%s}," % ", ".join(map(str, a.first)), "\tRules: []ref.Rule{"]
    for id, lit, sup in a.rules:
        o.append("\t\t{ID: %s, Literal: %s, Suppress: %s}," % (goq(id), str(lit).lower(), str(sup).lower()))
    o += ["\t},", "}", ""]
    return "\n".join(o)


def load(path):
    text = open(path, encoding="utf-8").read()
    if path.endswith(".md"):
        text = md_code(text)
    return parse(text)


if __name__ == "__main__":
    import sys
    g = load(sys.argv[1])
    a = Auto(g)
    print(len(a.pos), len(a.access()), g.literals[:5], g.rules[:3])
