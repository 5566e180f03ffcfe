import gllg
import lrg
import lrsym
import symg

BODY = '''
func Run() {
	n := length()
	l := word(n)
	ast.Log = nil
	_, err := parser.New(l).Parse()
	d := ref.NewDeriv(G, n, is(l))
	sym.TraceBool("accepts", err == nil)
	sym.Assert(sym.EqBool(err == nil, d.In(0, 0, n)), "the parser accepts exactly the sentences of @NAME@")
	if err == nil {
		sym.Reach("accept")
	} else {
		sym.Reach("reject")
	}
}
'''

# the tables of grammars with arbitrary symbols
TABLES = '''
func Run() {
	g, rg := grammar()
	sts, acts, cnf := tables(g, @PAGER@)
	alts, used := concrete(rg)
	if !ref.Productive(alts) {
		return
	}
	lr := ref.NewLR(alts)
	las, names := lookAheads(used)
	for i := range lr.States {
		for _, la := range las {
			shift, reduce := lr.Demands(i, la)
			if len(reduce) > 1 || shift && len(reduce) > 0 {
				sym.Reach("conflict")
				return
			}
		}
	}
	sym.Reach("LR(1)")
	for _, c := range cnf {
		sym.Assert(len(c) == 0, "no conflict in the tables of an LR(1) grammar")
	}
	pair := walk(rg, lr, sts)
	for i := range lr.States {
		for _, s := range pair[i] {
			for k, la := range las {
				shift, reduce := lr.Demands(i, la)
				a := acts[s][names[k]]
				if shift {
					sh, ok := a.(action.Shift)
					in := false
					for _, to := range pair[lr.Move[i][la]] {
						in = in || ok && int(sh) == to
					}
					sym.Assert(in, "a token that can come next is shifted, to the state for what has been read")
					continue
				}
				if len(reduce) > 0 {
					sym.Assert(same(a, want(false, 0, reduce)), "a production is reduced on every token that can follow")
					continue
				}
				// only a reduction of what is on the stack may delay the error
				switch a := a.(type) {
				case nil:
				case action.Reduce:
					whole := false
					for it := range lr.States[i] {
						whole = whole || it.P == int(a) && it.Dot == len(lr.Prods[it.P].Body)
					}
					sym.Assert(whole && @PAGER@, "a token that cannot come next is not acted on")
				default:
					sym.Assert(false, "a token that cannot come next is not acted on")
				}
			}
		}
	}
}
'''

SHAPES = {
    # merging by core: two contexts for the same two kernels
    "ctx": [("S", ["aAd", "bB.", "aB.", "bAe"]), ("A", ["c"]), ("B", ["c"])],
    "ctx2": [("S", ["aAd", "bAe", "aB.", "bB."]), ("A", ["c?", "d"]), ("B", ["cB", "e"])],
    "late": [("S", ["a?", "b"]), ("A", ["?", "A."]), ("B", ["?", "?c"])],
    "empty": [("S", ["?.?"]), ("A", ["a", ""]), ("B", ["?", ".B"])],
    "rec": [("S", ["?.", "."]), ("A", ["aS?", "."])],
    "tail": [("S", ["A?", "c?"]), ("A", ["a", "?b"]), ("B", ["", "b?"])],
}


def build(c):
    n = 8 if c.thorough else 6
    gs = dict(lrg.GRAMMARS)
    for i in range(80 if c.thorough else 15):
        gs["rnd%d" % i] = lrg.rand_lr(i)
    for name, text in gs.items():
        for flag in ("knuth", "pager"):
            nm = name + "_" + flag
            g = lrg.gen(c, nm, text, ["-" + flag])
            if not g:
                continue
            c.write("vh/h/" + nm, "h.go", gllg.harness(g, n, BODY, ["ast"]))
            c.job(nm, "vh/h/" + nm, setup="Setup", need=["accept", "reject"], steps=3000000)
        c.bounds.append("grammar %s, Knuth's and Pager's construction: every sequence of up to %d tokens, each of any type" % (name, n))
    shapes = dict(SHAPES)
    for i in range(60 if c.thorough else 20):
        shapes["shape%d" % i] = symg.rand_shape(3000 + i, slots=4 if c.thorough or i % 3 == 0 else 3, nts=4)
    for i, (name, shape) in enumerate(shapes.items()):
        for pager in ("false", "true"):
            nm = name + "_tables_" + ("pager" if pager == "true" else "knuth")
            c.write("vh/h/" + nm, "h.go", lrsym.harness([shape], TABLES.replace("@PAGER@", pager), letters="abcde"if name in ("ctx", "ctx2") else "abc"))
            c.job(nm, "vh/h/" + nm, setup="Setup", map_mode=i % 2)
        c.bounds.append("the tables of rules %s: every choice of a nonterminal for each ? and of a literal out of a, b, c for each ." % "; ".join("%s: %s" % (h, " | ".join(x or "empty" for x in al)) for h, al in shape))
    c.outside += ["longer inputs and other grammars", "grammars with conflicts (C13)"]
