import gram
import lexg

# Line and column by the lexer, by the token, by the parser's error.
POS = '''
func Run() {
	in := input()
	l := lexer.New(in)
	for i := 0; i <= len(in); i++ {
		line, col := l.GetLineColumn(i)
		wl, wc := ref.LineCol(in, i)
		sym.Assert(sym.EqInt(line, wl), "the line of an offset is one more than the newlines before it")
		sym.Assert(sym.EqInt(col, wc), "the column of an offset counts the characters since the last newline, a tab four")
	}
	for i, t := range l.Tokens {
		wl, wc := ref.LineCol(in, t.Lext())
		line, col := l.GetLineColumnOfToken(i)
		sym.TraceInt("line", line)
		sym.TraceInt("col", col)
		sym.Assert(sym.EqInt(line, wl), "the lexer gives the line where a token starts")
		sym.Assert(sym.EqInt(col, wc), "the lexer gives the column where a token starts")
		line, col = t.GetLineColumn()
		sym.Assert(sym.EqInt(line, wl), "a token gives the line where it starts")
		sym.Assert(sym.EqInt(col, wc), "a token gives the column where it starts")
		sym.Reach("token")
	}
@PARSE@	sym.Reach("end")
}
'''

GLL = '''	_, errs := parser.Parse(l)
	for _, e := range errs {
		wl, wc := ref.LineCol(in, e.Token.Lext())
		sym.Assert(sym.EqInt(e.Line, wl), "a parse error gives the line where its token starts")
		sym.Assert(sym.EqInt(e.Column, wc), "a parse error gives the column where its token starts")
		sym.Reach("error")
	}
'''

# tokens of one character, of several, and across lines
TEXT = r'''
word : letter {letter} ;
str : '"' {not "\""} '"' ;
!cmt : '#' {not "\n"} ;
S : word "=" V ";" | S word "=" V ";" ;
V : word | str ;
'''


def build(c):
    k = 4 if c.thorough else 3
    g = c.gen("pos", TEXT)
    if g:
        for i, pre in enumerate(["", "ab = \"x\n\ty\"; ", "q=#\t\n\t\tz", "\té\t\n\n€ x"]):
            _, src = lexg.harness_go(g, k, [pre], POS.replace("@PARSE@", GLL), extra=["vh/g/pos/parser"])
            c.write("vh/h/pos%d" % i, "h.go", src)
            c.job("pos %d" % i, "vh/h/pos%d" % i, need=["end", "token", "error"])
            c.bounds.append("generated lexer, token and GLL parser: %r followed by %d arbitrary characters" % (pre, k))
    g = gram.load(core_repo("gogll.md"))
    g.lex = []
    g.literals = []
    for i, pre in enumerate(["", "package \"a\"\n\tx1"]):
        _, src = lexg.harness_go(g, k - 1, [pre], POS.replace("@PARSE@", GLL), lexer="github.com/goccmack/gogll/v3/lexer", token="github.com/goccmack/gogll/v3/token",
                                 extra=["github.com/goccmack/gogll/v3/parser"])
        c.write("vh/h/own%d" % i, "h.go", src)
        c.job("own %d" % i, "vh/h/own%d" % i, need=["end", "token", "error"])
        c.bounds.append("gogll's own lexer, token and parser: %r followed by %d arbitrary characters" % (pre, k - 1))


def core_repo(f):
    import core
    import os
    return os.path.join(core.REPO, f)
