"""Parses do not influence one another."""
import os

import core
import gllg
import gram
import lexg
import lrg

GLL = '''
// describe says everything that can be asked about the forest.
func describe(set *bsr.Set) string {
	var out []string
	ambiguous := set.IsAmbiguous()
	for _, b := range set.GetAll() {
		s := b.String()
		y := b.Label.Symbols()
		for i, sy := range y {
			if !sy.IsNonTerminal() {
				if !ambiguous {
					s += " / " + b.GetTChildI(i).String()
				}
				continue
			}
			var cs []string
			for _, c := range b.GetNTChildrenI(i) {
				cs = append(cs, c.String())
			}
			sort.Strings(cs)
			s += " / " + strings.Join(cs, " | ")
		}
		out = append(out, s)
	}
	for _, b := range set.GetRoots() {
		out = append(out, "root "+b.String())
	}
	if ambiguous {
		out = append(out, "ambiguous")
	} else {
		out = append(out, "unambiguous")
		out = append(out, set.GetRoot().String())
	}
	done := map[sppf.Node]bool{}
	var walk func(n sppf.Node)
	walk = func(n sppf.Node) {
		if done[n] {
			return
		}
		done[n] = true
		switch n := n.(type) {
		case *sppf.SymbolNode:
			out = append(out, "symbol "+n.String())
			for _, c := range n.Children {
				walk(c)
			}
		case *sppf.IntermediateNode:
			out = append(out, "intermediate "+n.String())
			for _, c := range n.Children {
				walk(c)
			}
		case *sppf.PackedNode:
			out = append(out, "packed "+n.String())
			if n.LeftChild != nil {
				walk(n.LeftChild)
			}
			if n.RightChild != nil {
				walk(n.RightChild)
			}
		}
	}
	walk(set.ToSPPF())
	sort.Strings(out)
	return strings.Join(out, "\\n")
}

func parse(n int, in []rune, types []int) (*bsr.Set, string) {
	l := lex(n, in, types)
	set, errs := parser.Parse(l)
	if set != nil {
		return set, describe(set)
	}
	s := "no forest"
	for _, e := range errs {
		e.String() // it lists what was expected in any order
		var names []string
		for _, x := range e.Expected {
			names = append(names, x)
		}
		sort.Strings(names)
		s += fmt.Sprintf(" / %s %s %d %d ", e.Slot, e.Token, e.Line, e.Column) + strings.Join(names, " ")
	}
	return nil, s
}

func again(set *bsr.Set, was string) {
	if set != nil {
		sym.Assert(describe(set) == was, "a forest is the same after another input was parsed")
	}
}
'''

LR = '''
func parse(n int, in []rune, types []int) (interface{}, string) {
	l := lex(n, in, types)
	p := parser.New(l)
	res, err := p.Parse()
	if err == nil {
		return res, ast.Text(res)
	}
	// the order in which the expected terminals are listed varies
	msg, list, _ := strings.Cut(err.Error(), "expected one of: ")
	names := strings.Fields(list)
	sort.Strings(names)
	return nil, msg + strings.Join(names, " ")
}

func again(res interface{}, was string) {
	if res != nil {
		sym.Assert(ast.Text(res) == was, "the result is the same after another input was parsed")
	}
}
'''

COMMON = '''
func lex(n int, in []rune, types []int) *lexer.Lexer {
	l := &lexer.Lexer{I: in}
	for i := 0; i < n; i++ {
		l.Tokens = append(l.Tokens, token.New(token.Type(types[i]), i, i+1, in))
	}
	l.Tokens = append(l.Tokens, token.New(token.EOF, n, n, in))
	return l
}

func types(name string, n int) (ts []int) {
	for i := 0; i < n; i++ {
		t := sym.Int(name, int(token.Error), len(token.TypeToID)-1)
		sym.Assume(sym.Not(sym.EqInt(t, int(token.EOF))))
		ts = append(ts, t)
	}
	return
}

// Alone parses, and asks everything, without writing to what parses share.
func Alone() {
	n := length()
	ts := types("t", n)
	sym.Concurrent(func() {
		_, s := parse(n, []rune("ab\\ncdefgh")[:n], ts)
		if s == "" {
			panic("no answer")
		}
	})
	sym.Reach("done")
}

// After parses one input, another, and the first again.
func After() {
	n, k := sym.Pick(sym.Int("n", 0, @A@)), sym.Pick(sym.Int("k", 0, @B@))
	a, b := types("a", n), types("b", k)
	for i := range a {
		a[i] = sym.Pick(a[i])
	}
	for i := range b {
		b[i] = sym.Pick(b[i])
	}
	in := []rune("ab\\ncdefgh")
	first, s := parse(n, in[:n], a)
	_, t := parse(k, in[:k], b)
	sym.TraceStr("first", s)
	sym.TraceStr("second", t)
	again(first, s)
	_, s2 := parse(n, in[:n], a)
	sym.Assert(s2 == s, "an input is parsed as it was before another was parsed")
	sym.Reach("done")
}
'''

LEX = '''
// Run reads a text without writing to what lexers share.
func Run() {
	in := input()
	sym.Concurrent(func() {
		l := lexer.New(append([]rune(nil), in...))
		for i, t := range l.Tokens {
			t.Literal()
			t.LiteralString()
			t.LiteralStripEscape()
			t.GetLineColumn()
			l.GetLineColumnOfToken(i)
			l.GetLineColumn(t.Lext())
			t.Type().ID()
			t.TypeID()
			t.Suppress()
			l.GetString(i, i)
		}
@PARSE@	})
	sym.Reach("done")
}
'''

OWN = '''		if set, errs := parser.Parse(l); set != nil {
			set.IsAmbiguous()
			for _, b := range set.GetAll() {
				_ = b.String()
			}
			set.ToSPPF()
		} else {
			for _, e := range errs {
				_ = e.String()
			}
		}
'''


def ast_go(g):
    """Constructors without any memory of their own."""
    s = lrg.ast_go(g).replace("\tLog = append(Log, n)\n", "")
    s = s.replace("package ast\n", 'package ast\n\nimport "fmt"\n', 1)
    return s + '''
// Text writes a tree.
func Text(n interface{}) string {
	x, ok := n.(*Node)
	if !ok {
		return fmt.Sprint(n)
	}
	s := fmt.Sprintf("(%d/%d", x.X, x.Alt)
	for _, k := range x.Kids {
		s += " " + Text(k)
	}
	return s + ")"
}
'''


def build(c):
    n = 5 if c.thorough else 3
    a, b = (3, 3) if c.thorough else (2, 2)
    body = COMMON.replace("@A@", str(a)).replace("@B@", str(b))
    gs = gllg.grammars(c, 10, 60)
    for i, (name, text) in enumerate(gs.items()):
        g = c.gen(name, text)
        if not g:
            continue
        src = gllg.harness(g, n, body + GLL, ["parser/bsr", "sppf"]).replace("import (", 'import (\n\t"fmt"\n\t"sort"\n\t"strings"\n', 1)
        c.write("vh/h/" + name, "h.go", src.replace('\t"vh/ref"\n', '\t"vh/ref"\n'))
        c.job(name + "/alone", "vh/h/" + name, run="Alone", setup="Setup", need=["done"], steps=20000000)
        if c.thorough or i % 2 == 0:
            c.job(name + "/after", "vh/h/" + name, run="After", setup="Setup", need=["done"], steps=20000000)
        c.bounds.append("GLL grammar %s: every sequence of up to %d tokens; pairs of up to %d and %d tokens" % (name, n, a, b))
    ls = dict(lrg.GRAMMARS)
    for i in range(20 if c.thorough else 4):
        ls["lrnd%d" % i] = lrg.rand_lr(900 + i)
    for i, (name, text) in enumerate(ls.items()):
        for flag in ("knuth", "pager"):
            if not c.thorough and (flag == "knuth") != (i % 2 == 0):
                continue
            nm = "lr_%s_%s" % (name, flag)
            c.write("vh/g/%s/ast" % nm, "ast.go", ast_go(gram.parse('package "x"\n' + text)))
            g = c.gen(nm, text, ["-" + flag])
            if not g:
                continue
            src = gllg.harness(g, n, body + LR, ["ast"]).replace("import (", 'import (\n\t"sort"\n\t"strings"\n', 1)
            c.write("vh/h/" + nm, "h.go", src)
            c.job(nm + "/alone", "vh/h/" + nm, run="Alone", setup="Setup", need=["done"], steps=20000000)
            if c.thorough or i % 3 == 0:
                c.job(nm + "/after", "vh/h/" + nm, run="After", setup="Setup", need=["done"], steps=20000000)
            c.bounds.append("LR(1) grammar %s (%s): the same" % (name, flag))
    k = 3 if c.thorough else 2
    for name, text in lexg.grammars(c, 4, 30).items():
        g = c.gen("lex_" + name, text)
        if not g:
            continue
        acc = gram.Auto(g).access(60)
        a, src = lexg.harness_go(g, k, acc, LEX.replace("@PARSE@", ""))
        c.write("vh/h/lex_" + name, "h.go", src)
        c.job("lex_" + name, "vh/h/lex_" + name, need=["done"])
        c.bounds.append("lexer of grammar %s: %d access strings, then %d arbitrary characters" % (name, len(acc), k))
    own = "github.com/goccmack/gogll/v3/"
    g = gram.parse(gram.md_code(open(os.path.join(core.REPO, "gogll.md"), encoding="utf-8").read()))
    acc = gram.Auto(g).access(400)
    acc = acc[::1 if c.thorough else 8] + ['package "p" S : "a" ', 'package "p" a : \'b\' ', 'package "p" a : {', 'package "p" S : T | ']
    a, src = lexg.harness_go(g, 1, acc, LEX.replace("@PARSE@", OWN), own + "lexer", own + "token", [own + "parser"])
    c.write("vh/h/own", "h.go", src)
    c.job("own", "vh/h/own", need=["done"], steps=20000000)
    c.bounds.append("the own lexer and parser: %d texts, then an arbitrary character" % len(acc))
    c.outside += ["user code called from constructors", "longer inputs and other grammars", "writes under a lock or a sync.Once that no race shows: they are judged by the second part, which parses one input after another"]
