import itertools
import json
import unicodedata

import gram

# The front end of gogll parses a grammar whose sets hold place holders; the
# place holders are then overwritten by arbitrary characters in the text that
# the tokens refer to, and ast.Build and items.New run on that.

# kind: (text, characters it lists, Go condition over x)
def sym_text(kind, names):
    """Text with one place holder per listed character, and its Go condition."""
    if kind == "lit":
        return "'%s'" % names[0], "sym.EqRune(x, %s)" % names[0]
    if kind.startswith("any"):
        return 'any "%s"' % "".join(names), "sym.Or(%s)" % ", ".join("sym.EqRune(x, %s)" % n for n in names)
    if kind.startswith("not"):
        return 'not "%s"' % "".join(names), "sym.Not(sym.Or(%s))" % ", ".join("sym.EqRune(x, %s)" % n for n in names)
    if kind == ".":
        return ".", "true"
    if kind in FUNCS:
        return kind, "unicode.%s(x)" % FUNCS[kind]
    return "'[%s]'" % kind, uset(kind)


FUNCS = {"letter": "IsLetter", "upcase": "IsUpper", "lowcase": "IsLower", "number": "IsNumber"}


def uset(kind):
    incl, excl = [], []
    for p in kind.split("\\p")[1:]:
        n = p[1:p.index("}")]
        (excl if last_minus(kind, p) else incl).append(n)
    tab = lambda n: "unicode.Categories[%s]" % json.dumps(n) if len(n) <= 2 else "unicode.Properties[%s]" % json.dumps(n)
    s = "unicode.In(x, %s)" % ", ".join(map(tab, incl))
    if excl:
        s = "sym.And(%s, sym.Not(unicode.In(x, %s)))" % (s, ", ".join(map(tab, excl)))
    return s


def last_minus(kind, p):
    i = kind.index("\\p" + p)
    return i > 0 and kind[i - 1] == "-"


def width(kind):
    if kind == "lit":
        return 1
    if kind[:3] in ("any", "not"):
        return int(kind[3:])
    return 0


HOLD = "QWEZXVBKMGJ"

# shapes: how the alternatives are arranged; each ends in a mark of its own
MARKS = "0123456789"


def rules(kinds, shape):
    texts, conds, hold = [], [], []
    it = iter(HOLD)
    for k in kinds:
        ns = [next(it) for _ in range(width(k))]
        hold += ns
        t, cnd = sym_text(k, ns)
        for n in ns:
            cnd = cnd.replace(" %s)" % n, " c[%d])" % HOLD.index(n)).replace(" %s," % n, " c[%d]," % HOLD.index(n))
        texts.append(t)
        conds.append(cnd)
    m = ["%s '%s'" % (t, MARKS[i]) for i, t in enumerate(texts)]
    if shape == "rules":
        lex = "\n".join("r%s : %s ;" % (chr(97 + i), b) for i, b in enumerate(m))
        syn = "S : %s ;" % " | ".join("r%s" % chr(97 + i) for i in range(len(m)))
    elif shape == "group":
        lex = "ra : ( %s ) ;" % " | ".join(m)
        syn = "S : ra ;"
    elif shape == "loop":
        lex = "ra : %s %s ;" % (" ".join("{ %s }" % b for b in m[:-1]), m[-1])
        syn = "S : ra ;"
    return 'package "p"\n' + lex + "\n" + syn + "\n", conds, hold


SRC = '''package h

import (
	"unicode"

	"github.com/goccmack/gogll/v3/ast"
	"github.com/goccmack/gogll/v3/lex/items"
	"github.com/goccmack/gogll/v3/lexer"
	"github.com/goccmack/gogll/v3/parser"
	"github.com/goccmack/gogll/v3/parser/bsr"
	"vh/sym"
)

var _ = unicode.IsSpace

type Case struct {
	Text string
	At   []int
	Up   []int // characters of one set, written in ascending order
	Name string
	Want func(x rune, c []rune) []bool
	lex  *lexer.Lexer
	bs   *bsr.Set
}

var cases = []*Case{
@CASES@}

// Setup parses the texts.
func Setup() {
	for _, c := range cases {
		c.lex = lexer.New([]rune(c.Text))
		bs, errs := parser.Parse(c.lex)
		if errs != nil {
			panic("the template is not a grammar: " + c.Text)
		}
		c.bs = bs
	}
}

func scalar(r rune) bool {
	return sym.Or(sym.InRunes(r, 0, 0xD7FF), sym.InRunes(r, 0xE000, 0x10FFFF))
}

func Run() {
	ci := 0
	if len(cases) > 1 {
		ci = sym.Pick(sym.Int("case", 0, len(cases)-1))
	}
	tc := cases[ci]
	c := make([]rune, len(tc.At))
	for i, at := range tc.At {
		c[i] = sym.Rune("c")
		// not the characters that end or escape in a literal
		sym.Assume(sym.And(scalar(c[i]), sym.Not(sym.Or(sym.EqRune(c[i], '\\''), sym.EqRune(c[i], '"'), sym.EqRune(c[i], '\\\\')))))
		tc.lex.I[at] = c[i]
	}
	g := ast.Build(tc.bs.GetRoot(), tc.lex, "p")
	sets := items.New(g)
	s0 := sets.Set(0)
	x := sym.Rune("x")
	sym.Assume(scalar(x))
	for _, p := range tc.Up {
		sym.Assume(c[p] < c[p+1])
	}
	want := tc.Want(x, c)
	// the transition that the generated lexer takes: the first that holds
	var to *items.Set
	for _, t := range s0.Transitions {
		if holds(t.Event, x) {
			to = t.To
			break
		}
	}
	alive := make([]bool, len(want))
	if to != nil {
		for _, it := range to.Items() {
			if cl, ok := it.Symbol().(*ast.CharLiteral); ok {
				if m := int(cl.Char() - '0'); 0 <= m && m < len(alive) && cl.Literal[0] == '\\'' {
					alive[m] = true
				}
			}
		}
	}
	for i := range want {
		if alive[i] {
			sym.Assert(want[i], "an alternative that the character cannot start is given up: "+tc.Name)
		} else {
			sym.Assert(sym.Not(want[i]), "every alternative that the character can start is kept: "+tc.Name)
		}
		sym.TraceBool("alive", alive[i])
	}
	if to != nil {
		sym.Reach("some")
	} else {
		sym.Reach("none")
	}
	sym.Reach("end")
}

// holds is the condition that the generated lexer tests.
func holds(ev ast.LexBase, x rune) bool {
	switch e := ev.(type) {
	case *ast.Any:
		return true
	case *ast.AnyOf:
		return in(x, e.Set.Elements())
	case *ast.CharLiteral:
		return x == e.Char()
	case *ast.Not:
		return sym.Not(in(x, e.Set.Elements()))
	case *ast.UnicodeClass:
		switch e.Type {
		case ast.Letter:
			return unicode.IsLetter(x)
		case ast.Upcase:
			return unicode.IsUpper(x)
		case ast.Lowcase:
			return unicode.IsLower(x)
		case ast.Number:
			return unicode.IsNumber(x)
		case ast.Space:
			return unicode.IsSpace(x)
		}
	case *ast.UnicodeSet:
		incl, excl := e.GetRangeTables()
		return sym.And(unicode.In(x, incl...), sym.Not(unicode.In(x, excl...)))
	}
	panic("unknown event")
}

func in(x rune, rs []rune) bool {
	b := false
	for _, r := range rs {
		b = sym.Or(b, sym.EqRune(r, x))
	}
	return b
}
'''


def harness(specs, ordered):
    o = []
    for kinds, shape in specs:
        text, conds, hold = rules(kinds, shape)
        at = [text.index(h, text.index("\n")) for h in hold]
        at = []
        pos = text.index("\n")
        for h in hold:
            pos = text.index(h, pos)
            at.append(pos)
        up, n = [], 0
        for k in kinds:
            up += list(range(n, n + width(k) - 1))
            n += width(k)
        o.append("\t{Name: %s, Up: []int{%s}, Text: %s, At: []int{%s}, Want: func(x rune, c []rune) []bool { return []bool{%s} }}," % (
            gram.goq(shape + " " + " with ".join(kinds)), ", ".join(map(str, up if ordered else [])), gram.goq(text), ", ".join(map(str, at)), ", ".join(conds)))
    return SRC.replace("@CASES@", "\n".join(o) + "\n")


BASE = ["lit", "any1", "any2", "not1", "not2", "."]
CLS = list(FUNCS)
USET = [r"\p{Nd}", r"\p{Lu}\p{Nl}", r"\p{Zs}-\p{White_Space}", r"\p{Hex_Digit}", r"\p{Lt}\p{Lm}-\p{Ideographic}"]


def groups(c):
    out = {}
    pairs = list(itertools.combinations_with_replacement(BASE, 2))
    out["pairs"] = [(p, "rules") for p in pairs]
    out["pairs in a rule"] = [(p, s) for p in pairs for s in ("group", "loop") if c.thorough or s == "loop" and p.count("any2") + p.count("not2") < 2]
    out["classes"] = [((a, b), "rules") for a in CLS for b in BASE] + [((a, b), "rules") for a, b in itertools.combinations(CLS, 2)]
    out["three classes"] = [(t, "rules") for t in itertools.permutations(("letter", "number", "lowcase", ), 3)] + [(("letter", "upcase", "any1"), "rules"), (("not1", "number", "letter"), "rules"), ((".", "number", "upcase", "letter"), "loop")]
    out["sets"] = [((a, b), "rules") for a in USET for b in ("lit", "any2", "not1", ".", "letter", "number")] + [((a, b), "rules") for a, b in itertools.combinations(USET, 2)]
    out["triples"] = [(t, "rules") for t in (("lit", "any2", "not1"), ("not1", "not1", "any1"), ("any1", "not2", "."), ("not1", "number", "not1"))]
    if c.thorough:
        out["class triples"] = [(("letter", "upcase", "any2"), "rules"), (("any2", "lowcase", "letter"), "rules"), (("any2", "not1", "letter"), "rules"), (("any2", "any2", "lit"), "rules")]
        out["all triples"] = [(t, "rules") for t in itertools.combinations_with_replacement(["lit", "any1", "any2", "not1", "not2", ".", "letter"], 3)]
        out["wide"] = [(p, "rules") for p in itertools.combinations_with_replacement(["any3", "not3"], 2)] + [(("any2", "any2", "any2"), "rules"), (("not2", "not2", "any2"), "rules")]
    return out


def build(c):
    for i, (name, specs) in enumerate(groups(c).items()):
        n = 12 if not c.thorough else 6
        for j in range(0, len(specs), n):
            pkg = "vh/h/g%d_%d" % (i, j)
            c.write(pkg, "h.go", harness(specs[j:j + n], not c.thorough))
            c.job("%s %d" % (name, j // n), pkg, setup="Setup", need=["end", "some"])
        c.bounds.append("%s: %d grammars, every choice of the characters in their literals and sets, every next character" % (name, len(specs)))
