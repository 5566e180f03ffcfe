import gllg
import lrg

BODY = '''
// check asserts that the node is a tree over the tokens from i, built from
// the calls from at in Log, and returns what follows these.
func check(nd *ast.Node, l *lexer.Lexer, i, at int) (int, int) {
	body := G.Alts[nd.X][nd.Alt]
	sym.Assert(len(nd.Kids) == len(body), "a constructor gets one attribute per symbol of its alternate")
	for k, s := range body {
		if s < 0 {
			tok, ok := nd.Kids[k].(*token.Token)
			sym.Assert(ok && i < len(l.Tokens) && tok == l.Tokens[i], "a terminal's attribute is its token in the input")
			sym.Assert(tok.TypeID() == G.Terms[^s], "a terminal's attribute is a token of that type")
			i++
			continue
		}
		kid, ok := nd.Kids[k].(*ast.Node)
		sym.Assert(ok && kid.X == s, "a nonterminal's attribute is what its constructor returned")
		i, at = check(kid, l, i, at)
	}
	sym.Assert(at < len(ast.Log) && ast.Log[at] == nd, "constructors are called bottom-up, left to right")
	return i, at + 1
}

func Run() {
	n := length()
	l := word(n)
	ast.Log = nil
	res, err := parser.New(l).Parse()
	if err != nil {
		sym.Reach("reject")
		return
	}
	sym.Reach("accept")
	sym.TraceInt("calls", len(ast.Log))
	root, ok := res.(*ast.Node)
	sym.Assert(ok && root.X == 0, "the result of the parse is the start symbol's attribute")
	i, at := check(root, l, 0, 0)
	sym.Assert(i == n, "the tree covers the input")
	sym.Assert(at == len(ast.Log), "a constructor is called once per reduction")
}
'''

# a stack that grows
DEEP = 'S : "(" S ")" | "x" T ; T : empty | "y" T ;\n'
DEEPBODY = BODY[:BODY.index("func Run()")] + '''
func Run() {
	const depth = @DEPTH@
	l := word(2*depth + 4)
	all := true
	for i := 0; i < len(l.Tokens)-1; i++ {
		switch {
		case i < depth:
			l.Tokens[i] = token.New(typ[0], i, i+1, l.I)
		case i == depth:
			l.Tokens[i] = token.New(typ[2], i, i+1, l.I)
		case i > depth+3:
			l.Tokens[i] = token.New(typ[1], i, i+1, l.I)
		default:
			all = sym.And(all, sym.EqInt(int(l.Tokens[i].Type()), int(typ[3])))
		}
	}
	ast.Log = nil
	res, err := parser.New(l).Parse()
	sym.Assert(sym.EqBool(err == nil, all), "the parser accepts exactly the sentences of @NAME@")
	if err != nil {
		sym.Reach("reject")
		return
	}
	sym.Reach("accept")
	root, ok := res.(*ast.Node)
	sym.Assert(ok && root.X == 0, "the result of the parse is the start symbol's attribute")
	i, at := check(root, l, 0, 0)
	sym.Assert(i == len(l.Tokens)-1, "the tree covers the input")
	sym.Assert(at == len(ast.Log), "a constructor is called once per reduction")
}
'''


def build(c):
    n = 8 if c.thorough else 6
    gs = {k: v for k, v in lrg.GRAMMARS.items()}
    for i in range(60 if c.thorough else 16):
        gs["rnd%d" % i] = lrg.rand_lr(500 + i)
    for k, (name, text) in enumerate(gs.items()):
        for flag in ("knuth", "pager") if c.thorough or k % 4 == 0 else (("knuth", "pager")[k % 2],):
            nm = name + "_" + flag
            g = lrg.gen(c, nm, text, ["-" + flag])
            if not g:
                continue
            c.write("vh/h/" + nm, "h.go", gllg.harness(g, n, BODY, ["ast"]))
            c.job(nm, "vh/h/" + nm, setup="Setup", need=["accept", "reject"], steps=3000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
    depth = 400 if c.thorough else 120
    for flag in ("knuth", "pager"):
        nm = "nested_" + flag
        g = lrg.gen(c, nm, DEEP, ["-" + flag])
        if g:
            h = gllg.harness(g, 8, DEEPBODY.replace("@DEPTH@", str(depth)), ["ast"])
            h = h.replace("I: text[:n]", "I: make([]rune, n)").replace('t := sym.Int("t"', 't := 0\n\t\tif i > %d && i < %d {\n\t\t\tt = sym.Int("t"' % (depth, depth + 4)).replace("sym.EqInt(t, int(token.EOF))))", "sym.EqInt(t, int(token.EOF))))\n\t\t}")
            c.write("vh/h/" + nm, "h.go", h)
            c.job(nm, "vh/h/" + nm, setup="Setup", need=["accept", "reject"], steps=3000000)
    c.bounds.append("grammar nested: %d opening brackets, x, 3 arbitrary tokens, as many closing brackets" % depth)
    c.outside += ["constructors that return an error, and error recovery", "longer inputs and other grammars"]
