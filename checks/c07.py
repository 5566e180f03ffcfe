import gllg

BODY = '''
func Run() {
	n := length()
	l := word(n)
	set, errs := parser.Parse(l)
	d := ref.NewDeriv(G, n, is(l))
	sym.TraceBool("accepts", set != nil)
	sym.Assert(sym.EqBool(set != nil, d.In(0, 0, n)), "the parser accepts exactly the sentences of @NAME@")
	if set != nil {
		sym.Assert(len(errs) == 0, "a sentence of @NAME@ is parsed without errors")
		sym.Reach("accept")
	} else {
		sym.Reach("reject")
	}
}
'''


def build(c):
    n = 8 if c.thorough else 6
    for name, text in gllg.grammars(c, 30, 100).items():
        g = c.gen(name, text)
        if not g:
            continue
        c.write("vh/h/" + name, "h.go", gllg.harness(g, n, BODY))
        for mode in (0, 1):
            c.job("%s/%d" % (name, mode), "vh/h/" + name, setup="Setup", map_mode=mode, need=["accept", "reject"], steps=3000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
