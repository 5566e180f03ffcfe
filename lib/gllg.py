"""Grammars and harness for the checks on generated parsers."""
import random
import gram

# every shape that distinguishes general parsing: left, hidden-left and right
# recursion, cycles, empty rules, ambiguity in rules, splits and alternates,
# shared prefixes, follow sets larger than the context
GRAMMARS = {
    "expr": '''
S : S "+" T | T ;
T : T "*" F | F ;
F : "(" S ")" | "i" ;
''',
    "ambexp": '''
S : S "+" S | S "*" S | "i" ;
''',
    "hidden": '''
S : A S "b" | "c" ;
A : "a" | empty ;
''',
    "gamma": '''
S : "a" S | A S "d" | empty ;
A : "a" ;
''',
    "gamma2": '''
S : "b" | S S | S S S ;
''',
    "cyc": '''
S : A ;
A : B | "a" ;
B : A | "b" S ;
''',
    "cycnul": '''
S : S S | "a" | empty ;
''',
    "units": '''
S : "b" A ;
A : A | "a" | C ;
C : A "c" ;
''',
    "split": '''
S : A B C ;
A : "a" | "a" "a" ;
B : "a" | "a" "a" ;
C : "c" | "a" ;
''',
    "share": '''
S : A B C | A B D ;
A : "a" | "a" "a" ;
B : "b" | "a" "b" ;
C : "c" ;
D : "d" | "c" ;
''',
    "four": '''
S : A A A A ;
A : "a" | "b" | empty ;
''',
    "pal": '''
S : "a" S "a" | "b" S "b" | "a" | "b" | empty ;
''',
    "paren": '''
S : "a" | "(" S ")" ;
''',
    "list": '''
S : I | I "," S ;
I : "x" | "[" S "]" | "[" "]" ;
''',
    "mutual": '''
S : A "a" | "b" ;
A : S "c" | "d" | S A ;
''',
    "nulls": '''
S : A "x" | A S ;
A : B C ;
B : empty ;
C : B B | "c" ;
''',
    "else": '''
S : "if" S | "if" S "else" S | "s" ;
''',
    "opt": '''
S : O O "z" O ;
O : "o" | empty ;
''',
    "tail": '''
S : X Y ;
X : "x" | X "x" ;
Y : "x" Y | empty | "y" ;
''',
    "words": '''
word : letter {letter} ;
num : <number> ;
S : D | S D ;
D : word "=" V | "let" word V ;
V : num | word | "(" V ")" ;
''',
    # a literal that reads like a nonterminal
    "names": '''
S : A A "c" | "A" A "c" | "S" ;
A : "A" | "A" "A" ;
''',
    # ambiguity below the second or third nonterminal only
    "second": '''
S : A B ;
A : "a" | "a" A ;
B : B B | "b" ;
''',
    "third": '''
S : A "x" A B ;
A : "a" | empty ;
B : C | "b" B ;
C : "c" C "c" | D D D | "d" ;
D : "d" | empty ;
''',
    "mid": '''
S : "a" M "c" M "e" ;
M : M N | N ;
N : "n" | "c" | empty ;
''',
}


def rand_grammar(seed):
    """A random reduced grammar over a, b, c."""
    r = random.Random(seed)
    while True:
        nts = ["S", "A", "B", "C"][:r.randint(1, 4)]
        rules = {}
        for x in nts:
            alts = []
            for _ in range(r.randint(1, 3)):
                m = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4]) if len(alts) else r.choice([1, 1, 2, 2, 3])
                a = tuple(r.choice(nts) if r.random() < 0.5 else r.choice('abc'[:r.randint(1, 3)]) for _ in range(m))
                if a not in alts:
                    alts.append(a)
            rules[x] = alts
        # reduced: every nonterminal reachable and productive
        reach, todo = set(), ["S"]
        while todo:
            x = todo.pop()
            if x in reach:
                continue
            reach.add(x)
            todo += [s for a in rules[x] for s in a if s in rules]
        prod = set()
        while True:
            new = {x for x in rules if any(all(s not in rules or s in prod for s in a) for a in rules[x])} - prod
            if not new:
                break
            prod |= new
        ts = {s for x in rules for a in rules[x] for s in a if s not in rules}
        if reach == set(nts) == prod and ts:
            return "\n".join("%s : %s ;" % (x, " | ".join(" ".join(s if s in rules else '"%s"' % s for s in a) or "empty" for a in rules[x])) for x in nts) + "\n"


def info(g):
    """nonterminals, terminals (names as the user wrote them), alternates"""
    nts = [n for n, _ in g.rules]
    terms, alts = [], []
    for _, al in g.rules:
        o = []
        for a in al:
            b = []
            for k, v in a:
                if k == "nt":
                    b.append(nts.index(v))
                else:
                    if v not in terms:
                        terms.append(v)
                    b.append(~terms.index(v))
            o.append(b)
        alts.append(o)
    return nts, terms, alts


def nullable(nts, alts):
    nul = set()
    while True:
        new = {x for x in range(len(nts)) if any(all(s in nul for s in a) for a in alts[x])} - nul
        if not new:
            return nul
        nul |= new


def order(nts, alts):
    """Callees on the same extent first, and the size of the largest cycle."""
    nul = nullable(nts, alts)
    edges = {x: set() for x in range(len(nts))}
    for x in edges:
        for a in alts[x]:
            for i, s in enumerate(a):
                if s >= 0 and all(o in nul for j, o in enumerate(a) if j != i):
                    edges[x].add(s)
    reach = {}
    for x in edges:
        seen, todo = set(), list(edges[x])
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += edges[y]
        reach[x] = seen
    out, mark = [], set()

    def visit(x):
        if x in mark:
            return
        mark.add(x)
        for y in sorted(edges[x]):
            visit(y)
        out.append(x)
    for x in edges:
        visit(x)
    scc = max(sum(1 for y in edges if y in reach[x] and x in reach[y]) for x in edges)
    return out, max(1, scc + 1 if scc else 1)


def cfg_go(g, name="G"):
    nts, terms, alts = info(g)
    o, r = order(nts, alts)
    return "var %s = &ref.CFG{\n\tNTs: []string{%s},\n\tTerms: []string{%s},\n\tAlts: [][][]int{%s},\n\tOrder: []int{%s},\n\tRounds: %d,\n}\n" % (
        name, ", ".join(gram.goq(x) for x in nts), ", ".join(gram.goq(x) for x in terms),
        ", ".join("{" + ", ".join("{" + ", ".join(map(str, a)) + "}" for a in al) + "}" for al in alts),
        ", ".join(map(str, o)), r)


HEAD = '''package h

import (
	"vh/g/@NAME@/lexer"
	"vh/g/@NAME@/parser"
@IMPORTS@	"vh/g/@NAME@/token"
	"vh/ref"
	"vh/sym"
)

@CFG@
// typ gives the token type of each terminal.
var typ []token.Type

func Setup() {
	for _, name := range G.Terms {
		for t := token.Error + 1; int(t) < len(token.TypeToID); t++ {
			if t.ID() == name {
				typ = append(typ, t)
				break
			}
		}
	}
	if len(typ) != len(G.Terms) {
		panic("a terminal has no token type")
	}
}

var text = []rune("ab\\ncdefgh")

// word returns a lexer that holds n tokens of arbitrary types, one character each.
func word(n int) *lexer.Lexer {
	l := &lexer.Lexer{I: text[:n]}
	for i := 0; i < n; i++ {
		t := sym.Int("t", int(token.Error), len(token.TypeToID)-1)
		sym.Assume(sym.Not(sym.EqInt(t, int(token.EOF))))
		l.Tokens = append(l.Tokens, token.New(token.Type(t), i, i+1, l.I))
	}
	l.Tokens = append(l.Tokens, token.New(token.EOF, n, n, l.I))
	return l
}

func is(l *lexer.Lexer) func(t, i int) bool {
	return func(t, i int) bool { return sym.EqInt(int(l.Tokens[i].Type()), int(typ[t])) }
}

// fixed is is after the tokens have been decided one by one.
func fixed(l *lexer.Lexer) func(t, i int) bool {
	w := make([]token.Type, len(l.Tokens))
	for i, t := range l.Tokens {
		w[i] = token.Type(sym.Pick(int(t.Type())))
		sym.TraceInt("t", int(w[i]))
	}
	return func(t, i int) bool { return w[i] == typ[t] }
}

const maxLen = @N@

func length() int { return sym.Pick(sym.Int("n", 0, maxLen)) }

'''


def harness(g, n, body, imports=()):
    o = HEAD.replace("@CFG@", cfg_go(g)).replace("@N@", str(n)).replace("@IMPORTS@", "".join('\t"vh/g/@NAME@/%s"\n' % i for i in imports)).replace("@NAME@", g.name)
    return o + body.replace("@NAME@", g.name)


def grammars(c, quick=10, thorough=60, base=None):
    """The grammars by hand, then seeded random ones."""
    d = dict(base if base is not None else GRAMMARS)
    for i in range(thorough if c.thorough else quick):
        d["rnd%d" % i] = rand_grammar(i)
    return d
