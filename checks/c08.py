import gllg

WALK = '''
func step(b bsr.BSR) ref.Step {
	s := b.Label.Slot()
	x := -1
	for i, nt := range G.NTs {
		if nt == s.NT.String() {
			x = i
		}
	}
	sym.Assert(x >= 0, "a subtree belongs to a nonterminal of @NAME@")
	sym.Assert(b.Alternate() < len(G.Alts[x]) && s.Pos == len(G.Alts[x][b.Alternate()]) && len(s.Symbols) == s.Pos, "a subtree is labelled with a whole alternate")
	for i, y := range G.Alts[x][b.Alternate()] {
		name := ""
		if y < 0 {
			name = G.Terms[^y]
		} else {
			name = G.NTs[y]
		}
		sym.Assert(s.Symbols[i].String() == name && s.Symbols[i].IsNonTerminal() == (y >= 0), "the symbols of an alternate are those written")
	}
	return ref.Step{X: x, Alt: b.Alternate(), I: b.LeftExtent(), K: b.Pivot(), J: b.RightExtent()}
}

func steps(bs []bsr.BSR) (ss []ref.Step) {
	for _, b := range bs {
		ss = append(ss, step(b))
	}
	return
}
'''

BODY = WALK + '''
func Run() {
	n := length()
	l := word(n)
	set, _ := parser.Parse(l)
	if set == nil {
		sym.Reach("reject")
		return
	}
	f := ref.NewForest(ref.NewDeriv(G, n, fixed(l)), 0)
	sym.TraceBool("ambiguous", f.Ambiguous())
	roots := set.GetRoots()
	sym.Assert(ref.Same(steps(roots), f.By[[3]int{0, 0, n}]), "the roots are the derivations of the whole input")
	seen := map[ref.Step]bool{}
	todo := roots
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		s := step(b)
		if seen[s] {
			continue
		}
		seen[s] = true
		known := true // no symbol so far has more than one extent or derivation
		var all [][]bsr.BSR
		occur := map[int]int{}
		for q, y := range G.Alts[s.X][s.Alt] {
			spans := f.D.Spans(s, q)
			if y < 0 {
				if known {
					sym.Assert(b.GetTChildI(q) == l.Tokens[spans[0].I], "a terminal child is the token at its place")
					sym.Reach("terminal")
				}
				continue
			}
			var want []ref.Step
			for _, e := range spans {
				want = append(want, f.By[[3]int{y, e.I, e.J}]...)
			}
			cs := b.GetNTChildrenI(q)
			sym.Assert(ref.Same(steps(cs), want), "the children at a position are the derivations of that symbol there")
			cn := b.GetNTChildren(symbols.ToNT(G.NTs[y]), occur[y])
			sym.Assert(ref.Same(steps(cn), want), "the children by symbol are the derivations of that symbol there")
			occur[y]++
			all = append(all, cs)
			known = known && len(want) == 1
			todo = append(todo, cs...)
			sym.Reach("child")
		}
		ca := b.GetAllNTChildren()
		sym.Assert(len(ca) == len(all), "all children are one list for each nonterminal")
		for i := range ca {
			sym.Assert(ref.Same(steps(ca[i]), steps(all[i])), "all children are the children at each position")
		}
	}
	sym.Assert(len(seen) == len(f.Steps), "the forest holds every derivation step and no other")
	if f.Ambiguous() {
		sym.Reach("ambiguous")
	} else {
		sym.Reach("unambiguous")
	}
}
'''


def build(c):
    n = 7 if c.thorough else 5
    for name, text in gllg.grammars(c, 30, 100).items():
        g = c.gen(name, text)
        if not g:
            continue
        c.write("vh/h/" + name, "h.go", gllg.harness(g, n, BODY, ["parser/bsr", "parser/symbols"]))
        for mode in (0, 1):
            c.job("%s/%d" % (name, mode), "vh/h/" + name, setup="Setup", map_mode=mode, need=["reject"], steps=5000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
