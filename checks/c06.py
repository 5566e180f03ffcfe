import symg

BODY = '''
func name(s ref.Sym) string { return string(s.C) }

func Run() {
	g, rg := grammar()
	want := ref.NewSets(rg, letters)
	ff := frstflw.New(g)
	fst := first.New(basicprod.Get(g.SyntaxRules))
	for x, r := range rg.Rules {
		nt := string(r.Head)
		fs, fl := ff.FirstOfSymbol(nt), ff.Follow(nt)
		lr := fst.FirstSymbol(nt)
		for t, c := range letters {
			sym.Assert(sym.EqBool(fs.Contain(string(c)), want.First[x][t]), "first of a nonterminal has exactly the terminals that start what it derives")
			sym.Assert(sym.EqBool(fl.Contain(string(c)), want.Follow[x][t]), "follow of a nonterminal has exactly the terminals that can stand after it")
			sym.Assert(sym.EqBool(lr.Contain(string(c)), want.First[x][t]), "LR(1) first of a nonterminal has exactly the terminals that start what it derives")
		}
		sym.Assert(sym.EqBool(fs.Contain(frstflw.Empty), want.Nullable[x]), "first of a nonterminal has the empty mark exactly if it derives nothing")
		sym.Assert(sym.EqBool(fl.Contain("$"), want.End[x]), "follow of a nonterminal has the end mark exactly if it can stand last")
		sym.Assert(!fl.Contain(frstflw.Empty), "follow has no empty mark")
		sym.Assert(!fs.Contain("$"), "first has no end mark")
		sym.Assert(sym.EqBool(lr.Contain("ℇ"), want.Nullable[x]), "LR(1) first of a nonterminal has the empty mark exactly if it derives nothing")
		sym.TraceBool("nullable", want.Nullable[x])
		if want.Nullable[x] {
			sym.Reach("nullable")
		} else {
			sym.Reach("not nullable")
		}
	}
	// strings: what stands behind each symbol
	for _, r := range rg.Rules {
		for _, a := range r.Alts {
			for i := range a {
				rest := a[i+1:]
				var str []string
				for _, s := range rest {
					str = append(str, name(s))
				}
				set, nul := want.FirstOf(rest)
				fs := ff.FirstOfString(str)
				lr := fst.FirstString(str, "$", "ctx")
				for t, c := range letters {
					sym.Assert(sym.EqBool(fs.Contain(string(c)), set[t]), "first of a string has exactly the terminals that start what it derives")
					sym.Assert(sym.EqBool(lr.Contain(string(c)), set[t]), "LR(1) first of a string has exactly the terminals that start what it derives")
				}
				sym.Assert(sym.EqBool(fs.Contain(frstflw.Empty), nul), "first of a string has the empty mark exactly if it derives nothing")
				sym.Assert(sym.EqBool(lr.Contain("$"), nul), "LR(1) first of a string takes the context exactly if it derives nothing")
				sym.Assert(sym.EqBool(lr.Contain("ctx"), nul), "LR(1) first of a string takes all of the context")
				sym.Assert(!lr.Contain("ℇ"), "LR(1) first of a string with context has no empty mark")
			}
		}
	}
}
'''
IMPORTS = ['"github.com/goccmack/gogll/v3/frstflw"', '"github.com/goccmack/gogll/v3/lr1/basicprod"', '"github.com/goccmack/gogll/v3/lr1/first"']

# by hand: chains and cycles of nullable symbols, against and with the order of the rules
SHAPES = {
    "chain": [("S", ["?A.", "?"]), ("A", ["?", ""]), ("B", ["b?"])],
    "back": [("S", ["A?"]), ("A", ["?B", "."]), ("B", ["?", ""])],
    "cycle": [("S", ["?a", "A"]), ("A", ["?", "."]), ("B", ["?", ""])],
    "left": [("S", ["?."]), ("A", ["?a", ""]), ("B", ["A?"])],
    "unreach": [("S", ["a?"]), ("A", ["?.?"]), ("B", ["", "."])],
    "long": [("S", ["?ABA."]), ("A", ["a", ""]), ("B", ["b", ""])],
    "longer": [("S", ["A??BAc", "."]), ("A", ["a", ""]), ("B", ["b", "", "A"])],
    "tails": [("S", ["???"]), ("A", ["a", ""]), ("B", ["b", "?"])],
}


def build(c):
    shapes = dict(SHAPES)
    for i in range(90 if c.thorough else 40):
        k = i % 3
        shapes["rnd%d" % i] = symg.rand_shape(i, slots=(4, 5, 4 if not c.thorough else 6)[k], nts=(3, 3, 5)[k])
    for i, (name, shape) in enumerate(shapes.items()):
        c.write("vh/h/" + name, "h.go", symg.harness([shape], BODY, IMPORTS))
        c.job(name, "vh/h/" + name, setup="Setup", map_mode=i % 2)
        t, at = symg.text(shape)
        c.bounds.append("rules %s: every choice of a nonterminal for each ? and of a literal out of a, b, c for each . (%s)" % (
            "; ".join("%s: %s" % (h, " | ".join(x or "empty" for x in al)) for h, al in shape), "maps iterate in reverse" if i % 2 else "maps iterate in order of insertion"))
    c.outside += ["grammars of other shapes, and with more rules or place holders", "lexical rules as terminals; terminals that read like the empty or end marks"]
