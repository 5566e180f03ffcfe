"""Grammars whose symbols are arbitrary: the front end parses a text with place
holders, which the harness overwrites with symbolic characters before ast.Build."""
import random

# A shape is a list of (head, alternates); an alternate is a string of symbols:
#   ?  an arbitrary nonterminal      .  an arbitrary one-character literal
#   A  that nonterminal              a  that literal


def text(shape):
    """Grammar text, and where its place holders are, in order of occurrence."""
    o, at = 'package "p"\n', []
    for head, alts in shape:
        o += head + " :"
        for i, a in enumerate(alts):
            o += " |" if i else ""
            if not a:
                o += " empty"
            for s in a:
                if s == "?":
                    at.append(len(o) + 1)
                    o += " S"
                elif s == ".":
                    at.append(len(o) + 2)
                    o += ' "z"'
                elif s.isupper():
                    o += " " + s
                else:
                    o += ' "%s"' % s
        o += " ;\n"
    return o, at


def go(shape):
    import gram
    t, at = text(shape)
    n = 0
    rs = []
    for head, alts in shape:
        al = []
        for a in alts:
            b = []
            for s in a:
                if s in "?.":
                    b.append("{NT: %s, Slot: %d}" % ("true" if s == "?" else "false", n))
                    n += 1
                else:
                    b.append("{NT: %s, Slot: -1, C: '%s'}" % ("true" if s.isupper() else "false", s))
            al.append("{%s}" % ", ".join(b))
        rs.append("\t\t{Head: '%s', Alts: [][]ref.Sym{%s}}," % (head, ", ".join(al)))
    heads = "".join(h for h, _ in shape)
    name = "; ".join("%s: %s" % (h, " | ".join(a or "empty" for a in al)) for h, al in shape)
    return "\t{Name: %s, Text: %s, At: []int{%s}, Rules: []ref.GRule{\n%s\n\t}, Heads: %s},\n" % (
        gram.goq(name), gram.goq(t), ", ".join(map(str, at)), "\n".join(rs), gram.goq(heads))


HEAD = '''package h

import (
	"github.com/goccmack/gogll/v3/ast"
	"github.com/goccmack/gogll/v3/lexer"
	"github.com/goccmack/gogll/v3/parser"
	"github.com/goccmack/gogll/v3/parser/bsr"
	"github.com/goccmack/gogll/v3/symbols"
@IMPORTS@	"vh/ref"
	"vh/sym"
)

type Case struct {
	Name  string
	Text  string
	At    []int
	Rules []ref.GRule
	Heads string
	lex   *lexer.Lexer
	bs    *bsr.Set
}

const letters = @LETTERS@

var cases = []*Case{
@CASES@}

// Setup parses the texts.
func Setup() {
	for _, c := range cases {
		c.lex = lexer.New([]rune(c.Text))
		bs, errs := parser.Parse(c.lex)
		if errs != nil {
			panic("the template is not a grammar: " + c.Text)
		}
		c.bs = bs
	}
}

func oneOf(r rune, s string) bool {
	b := false
	for _, c := range s {
		b = sym.Or(b, sym.EqRune(r, c))
	}
	return b
}

// grammar picks a shape, fills its place holders and builds the AST.
func grammar() (*ast.GoGLL, *ref.Grammar) {
	ci := 0
	if len(cases) > 1 {
		ci = sym.Pick(sym.Int("case", 0, len(cases)-1))
	}
	tc := cases[ci]
	rg := &ref.Grammar{}
	n := 0
	for _, r := range tc.Rules {
		cp := ref.GRule{Head: r.Head}
		for _, a := range r.Alts {
			var b []ref.Sym
			for _, s := range a {
				if s.Slot >= 0 {
					s.C = sym.Rune("s")
					if s.NT {
						sym.Assume(oneOf(s.C, tc.Heads))
					} else {
						sym.Assume(oneOf(s.C, letters))
					}
					tc.lex.I[tc.At[n]] = s.C
					n++
				}
				b = append(b, s)
			}
			cp.Alts = append(cp.Alts, b)
		}
		rg.Rules = append(rg.Rules, cp)
	}
	g := ast.Build(tc.bs.GetRoot(), tc.lex, "p")
	symbols.Init(g)
	return g, rg
}
'''


def harness(shapes, body, imports=(), letters="abc"):
    import gram
    return HEAD.replace("@IMPORTS@", "".join("\t%s\n" % i for i in imports)).replace("@LETTERS@", gram.goq(letters)).replace("@CASES@", "".join(go(s) for s in shapes)) + body


def rand_shape(seed, slots=4, nts=3, empties=True):
    """A random shape with that many place holders in all."""
    r = random.Random(seed)
    while True:
        heads = "SABCD"[:r.randint(1, nts)]
        left = slots
        shape = []
        for h in heads:
            alts = []
            for _ in range(r.randint(1, 3)):
                m = r.choice([0, 1, 1, 2, 2, 3]) if empties else r.choice([1, 1, 2, 2, 3])
                a = ""
                for _ in range(m):
                    k = r.random()
                    if k < 0.35:
                        a += "?"
                    elif k < 0.6:
                        a += "."
                    elif k < 0.8:
                        a += r.choice(heads)
                    else:
                        a += r.choice("ab")
                alts.append(a)
            shape.append((h, alts))
        n = sum(a.count("?") + a.count(".") for _, al in shape for a in al)
        q = sum(a.count("?") for _, al in shape for a in al)
        if n == slots and q >= slots // 2 and "" not in shape[0][1][:1]:
            return shape
