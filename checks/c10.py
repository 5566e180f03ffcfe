import gllg

BODY = '''
func Run() {
	n := length()
	l := word(n)
	set, errs := parser.Parse(l)
	if set != nil {
		sym.Assert(errs == nil, "a successful parse of @NAME@ returns no errors")
		sym.Reach("accept")
		return
	}
	sym.Reach("reject")
	sym.Assert(len(errs) > 0, "a failed parse of @NAME@ returns an error")
	for i := 1; i < len(errs); i++ {
		sym.Assert(errs[i].Token.Lext() <= errs[i-1].Token.Lext(), "the errors are in descending order of position")
	}
	at := errs[0].Token.Lext()
	sym.TraceInt("at", at)
	sym.Assert(at <= n && l.Tokens[at] == errs[0].Token, "the error's token is a token of the input")
	sym.Assert(viable(l, at), "everything before the first error begins a sentence of @NAME@")
	if at < n {
		sym.Assert(sym.Not(viable(l, at+1)), "no sentence of @NAME@ goes on with the token of the first error")
		sym.Reach("inside")
	} else {
		sym.Reach("at the end")
	}
	for _, e := range errs {
		sym.Assert(len(e.Expected) > 0, "an error says what was expected")
		_, has := e.Expected[e.Token.Type()]
		sym.Assert(!has, "the token of an error is not one of those expected")
		for t, s := range e.Expected {
			sym.Assert(t.ID() == s, "what was expected is named after its type")
		}
		line, col := ref.LineCol(l.I, e.Token.Lext())
		sym.Assert(e.Line == line && e.Column == col, "an error's line and column are those of its token")
		sym.Assert(e.Slot.Slot() != nil, "an error names a grammar slot")
	}
	_ = errs[0].String()
}

func viable(l *lexer.Lexer, n int) bool {
	return ref.NewDeriv(G, n, is(l)).Viable(0)
}
'''


def build(c):
    n = 7 if c.thorough else 5
    for name, text in gllg.grammars(c, 30, 100).items():
        g = c.gen(name, text)
        if not g:
            continue
        c.write("vh/h/" + name, "h.go", gllg.harness(g, n, BODY))
        for mode in (0, 1):
            c.job("%s/%d" % (name, mode), "vh/h/" + name, setup="Setup", map_mode=mode, need=["reject"], steps=5000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
