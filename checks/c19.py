import gram
import front

LEX = '''package h

import (
	lexer0 "github.com/goccmack/gogll/v3/lexer"
	lexer1 "vh/g/own/lexer"
	"vh/sym"
)

var access = []string{@ACCESS@}

func Run() {
	in := []rune(access[sym.Pick(sym.Int("access", 0, len(access)-1))])
	for k := 0; k < @K@; k++ {
		r := sym.Rune("r")
		sym.Assume(sym.Or(sym.InRunes(r, 0, 0xD7FF), sym.InRunes(r, 0xE000, 0x10FFFF)))
		in = append(in, r)
	}
	in = append(in, []rune(@AFTER@)...)
	a := lexer0.New(in)
	b := lexer1.New(append([]rune(nil), in...))
	sym.Assert(len(a.Tokens) == len(b.Tokens), "the same tokens")
	for i, t := range a.Tokens {
		u := b.Tokens[i]
		sym.TraceInt("l", t.Lext())
		sym.TraceInt("r", t.Rext())
		sym.TraceStr("id", t.TypeID())
		sym.Assert(t.Lext() == u.Lext() && t.Rext() == u.Rext(), "the same tokens")
		sym.Assert(t.TypeID() == u.TypeID() && t.Suppress() == u.Suppress(), "tokens of the same types")
		x, y := t.LiteralStripEscape(), u.LiteralStripEscape()
		sym.Assert(len(x) == len(y), "tokens of the same text")
		same := true
		for j := range x {
			same = sym.And(same, sym.EqRune(x[j], y[j]))
		}
		sym.Assert(same, "tokens of the same text")
	}
	sym.Reach("end")
}
'''

PARSE = '''package h

import (
	"fmt"

	lexer0 "github.com/goccmack/gogll/v3/lexer"
	parser0 "github.com/goccmack/gogll/v3/parser"
	token0 "github.com/goccmack/gogll/v3/token"
	lexer1 "vh/g/own/lexer"
	parser1 "vh/g/own/parser"
	token1 "vh/g/own/token"
	"vh/sym"
)

var text = []string{@TEXT@}

// types has the generated token type of each own one
var types []token1.Type

// straight tells whether the types are numbered alike
var straight bool

func Setup() {
	straight = true
	for i, id := range token0.TypeToID {
		t, ok := token1.IDToType[id]
		sym.Assert(ok, "the same token types")
		types = append(types, t)
		straight = straight && int(t) == i
	}
	sym.Assert(len(types) == len(token1.TypeToID), "the same token types")
}

func typeOf(id string) int { return int(token0.IDToType[id]) }

func Run() {
	var ts []int
	for _, id := range text {
		ts = append(ts, typeOf(id))
	}
	eof := typeOf("$")
	// any token in the place of another, before it, or none
	for k := 0; k < @EDITS@; k++ {
		at := sym.Pick(sym.Int("at", @FROM@, @TO@))
		op := sym.Pick(sym.Int("op", 0, 2))
		if op == 0 {
			sym.Assume(at < len(ts))
			ts = append(append([]int(nil), ts[:at]...), ts[at+1:]...)
			continue
		}
		t := sym.Int("type", 0, len(types)-1)
		sym.Assume(sym.Not(sym.EqInt(t, eof)))
		tail := ts[at:]
		if op == 1 {
			sym.Assume(at < len(ts))
			tail = ts[at+1:]
		}
		ts = append(append(append([]int(nil), ts[:at]...), t), tail...)
	}
	in := make([]rune, 2*len(ts))
	for i := range in {
		in[i] = ' '
	}
	a, b := &lexer0.Lexer{I: in}, &lexer1.Lexer{I: in}
	add := func(t, l, r int) {
		a.Tokens = append(a.Tokens, token0.New(token0.Type(t), l, r, in))
		u := token1.Type(t)
		if !straight {
			u = types[t]
		}
		b.Tokens = append(b.Tokens, token1.New(u, l, r, in))
	}
	for i, t := range ts {
		in[2*i] = 'x'
		add(t, 2*i, 2*i+1)
	}
	add(eof, len(in), len(in))

	set0, errs0 := parser0.Parse(a)
	set1, errs1 := parser1.Parse(b)
	sym.TraceInt("errors", len(errs0))
	sym.Assert((set0 == nil) == (set1 == nil), "the same verdict")
	if set0 == nil {
		sym.Assert(len(errs0) == len(errs1), "the same errors")
		for i, e := range errs0 {
			f := errs1[i]
			sym.Assert(e.Slot.String() == f.Slot.String() && e.Token.Lext() == f.Token.Lext() && e.Line == f.Line && e.Column == f.Column, "the same errors")
			sym.Assert(len(e.Expected) == len(f.Expected), "errors that expect the same")
			for t := range e.Expected {
				_, ok := f.Expected[types[t]]
				sym.Assert(ok, "errors that expect the same")
			}
		}
		sym.Reach("reject")
		return
	}
	sym.Assert(set0.IsAmbiguous() == set1.IsAmbiguous(), "the same forest")
	x, y := map[string]bool{}, map[string]bool{}
	for _, n := range set0.GetAll() {
		x[fmt.Sprint(n.Label, n.LeftExtent(), n.Pivot(), n.RightExtent())] = true
	}
	for _, n := range set1.GetAll() {
		y[fmt.Sprint(n.Label, n.LeftExtent(), n.Pivot(), n.RightExtent())] = true
	}
	sym.Assert(len(x) == len(y), "the same forest")
	for k := range x {
		sym.Assert(y[k], "the same forest")
	}
	sym.Assert(fmt.Sprint(set0.GetRoot().Label) == fmt.Sprint(set1.GetRoot().Label), "the same root")
	sym.TraceInt("nodes", len(x))
	sym.Reach("accept")
}
'''

TEXTS = {
    "lex": "package ! tokid : char . any not letter ;",
    "rule": "package tokid : tokid tokid upcase number ; nt : nt ;",
    "brackets": "package tokid : ( [ char | tokid ] { dot } < lowcase > | any ) ;",
    "sets": "package tokid : set2 char set ;",
    "syntax": "package nt : nt tokid | empty | str nt str ; nt : str ;",
    "mixed": "package nt : tokid ; ! tokid : { not | char } ; tokid : tokid dot ;",
}


def kinds(words):
    return [k.replace("\\\\", "\\") for w in words.split() for k, _ in front.toks(w)]


def build(c):
    text = gram.md_code(open("/repo/gogll.md", encoding="utf-8").read())
    body = text.split("\n", text[:text.index("package")].count("\n") + 1)[-1]
    g = c.gen("own", body)
    if not g:
        return
    words = gram.Auto(g).access(5000)
    n = 12
    for i in range(n):
        part = words[i::n]
        b = LEX.replace("@ACCESS@", ", ".join(map(gram.goq, part))).replace("@K@", "1").replace("@AFTER@", gram.goq(" x';"))
        c.write("vh/h/lex%d" % i, "h.go", b)
        c.job("lexer %d" % i, "vh/h/lex%d" % i, need=["end"], max_paths=200000)
    c.bounds.append("lexers: %d inputs that lead to every reachable set of live rule positions of gogll.md, followed by any one character and a fixed rest" % len(words))
    k = 3 if c.thorough else 2
    for i, pre in enumerate(["", "a", "'[\\p{L", "\"\\"] if c.thorough else ["", "\"\\"]):
        c.write("vh/h/any%d" % i, "h.go", LEX.replace("@ACCESS@", gram.goq(pre)).replace("@K@", str(k)).replace("@AFTER@", '""'))
        c.job("lexer any %d" % i, "vh/h/any%d" % i, need=["end"], max_paths=200000)
        c.bounds.append("lexers: %r followed by any %d characters" % (pre, k))
    for name, words in TEXTS.items():
        ts = kinds(words)
        b = PARSE.replace("@TEXT@", ", ".join(map(gram.goq, ts)))
        step = 2
        for lo in range(0, len(ts) + 1, step):
            hi = min(lo + step - 1, len(ts))
            h = b.replace("@FROM@", str(lo)).replace("@TO@", str(hi)).replace("@EDITS@", "1")
            c.write("vh/h/p%s%d" % (name, lo), "h.go", h)
            c.job("parser %s %d" % (name, lo), "vh/h/p%s%d" % (name, lo), setup="Setup", need=["reject"], steps=100000000, max_paths=100000)
        c.bounds.append("parsers: the tokens %s, with any one token left out, replaced by any, or any put before it" % " ".join(ts))
