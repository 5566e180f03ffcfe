import c08
import gllg

BODY = c08.WALK + '''
func Run() {
	n := length()
	l := word(n)
	set, _ := parser.Parse(l)
	if set == nil {
		sym.Reach("reject")
		return
	}
	f := ref.NewForest(ref.NewDeriv(G, n, fixed(l)), 0)
	sym.TraceBool("ambiguous", f.Ambiguous())
	before := tables()
	check(f, set.ToSPPF())
	sym.Assert(tables() == before, "making the packed forest of @NAME@ leaves the parser's tables alone")
	check(f, set.ToSPPF())
	for _, b := range set.GetAll() {
		s := step(b)
		_ = s
	}
	sym.Assert(ref.Same(steps(set.GetRoots()), f.By[[3]int{0, 0, n}]), "making the packed forest leaves the forest alone")
	sym.Reach("done")
}

func tables() string {
	var sb strings.Builder
	for _, nt := range G.NTs {
		for _, l := range slot.GetAlternates(symbols.ToNT(nt)) {
			sb.WriteString(l.Slot().String())
			for p := 1; p <= len(l.Symbols()); p++ {
				sb.WriteString(slot.GetLabel(l.Head(), l.Alternate(), p).String())
			}
		}
	}
	return sb.String()
}

func check(f *ref.Forest, root *sppf.SymbolNode) {
	n := f.D.N
	sym.Assert(root.Symbol == G.NTs[0] && root.Lext == 0 && root.Rext == n, "the root of the packed forest is the start symbol over the whole input")
	sn := map[string]*sppf.SymbolNode{}
	done := map[sppf.Node]bool{}
	nts := map[[3]int]bool{}
	todo := []sppf.Node{root}
	for len(todo) > 0 {
		nd := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if done[nd] {
			continue
		}
		done[nd] = true
		switch nd := nd.(type) {
		case *sppf.SymbolNode:
			o, dup := sn[nd.Label()]
			sym.Assert(!dup || o == nd, "one symbol node for each instance of a symbol")
			sn[nd.Label()] = nd
			x := -1
			for i, nt := range G.NTs {
				if nt == nd.Symbol {
					x = i
				}
			}
			if x < 0 {
				sym.Assert(len(nd.Children) == 0, "a terminal has no children")
				if nd.Symbol == "ϵ" {
					sym.Assert(nd.Lext == nd.Rext, "the empty symbol spans nothing")
				} else {
					ok := false
					for t, name := range G.Terms {
						if name == nd.Symbol {
							ok = f.D.Has(^t, nd.Lext, nd.Rext)
						}
					}
					sym.Assert(ok, "a terminal node is the token at its place")
				}
				break
			}
			key := [3]int{x, nd.Lext, nd.Rext}
			nts[key] = true
			want, ok := f.By[key]
			sym.Assert(ok, "a symbol node is part of some derivation")
			var got []ref.Step
			for _, pn := range nd.Children {
				a := alt(x, pn)
				sym.Assert(a >= 0 && pn.NT.String() == nd.Symbol, "an alternative of a symbol node is one of its rule")
				sym.Assert(pn.Lext == nd.Lext && pn.Rext == nd.Rext, "an alternative spans what its symbol node spans")
				got = append(got, ref.Step{X: x, Alt: a, I: pn.Lext, K: pn.Pivot, J: pn.Rext})
				todo = append(todo, packed(pn)...)
			}
			sym.Assert(ref.Same(got, want), "the alternatives of a symbol node are its derivations")
		case *sppf.IntermediateNode:
			x := int(-1)
			for i, nt := range G.NTs {
				if nt == nd.NT.String() {
					x = i
				}
			}
			var want, got []ref.Step
			for k := nd.Lext; k <= nd.Rext; k++ {
				for a, body := range G.Alts[x] {
					if same(body, nd.Body) && f.D.Prefix(x, a, nd.Pos-1, nd.Lext, k) && f.D.Has(body[nd.Pos-1], k, nd.Rext) {
						want = append(want, ref.Step{X: x, Alt: a, I: nd.Lext, K: k, J: nd.Rext})
					}
				}
			}
			for _, pn := range nd.Children {
				sym.Assert(pn.NT == nd.NT && pn.Pos == nd.Pos && pn.Lext == nd.Lext && pn.Rext == nd.Rext, "an alternative of an intermediate node is labelled alike")
				got = append(got, ref.Step{X: x, Alt: alt(x, pn), I: pn.Lext, K: pn.Pivot, J: pn.Rext})
				todo = append(todo, packed(pn)...)
			}
			sym.Assert(ref.Same(got, want), "the alternatives of an intermediate node are the splits of that part of the rule")
			sym.Reach("intermediate")
		}
	}
	sym.Assert(len(nts) == len(f.By), "a symbol node for each nonterminal instance of every derivation")
}

func same(body []int, ss symbols.Symbols) bool {
	if len(body) != len(ss) {
		return false
	}
	for i, y := range body {
		name := ""
		if y < 0 {
			name = G.Terms[^y]
		} else {
			name = G.NTs[y]
		}
		if ss[i].String() != name || ss[i].IsNonTerminal() != (y >= 0) {
			return false
		}
	}
	return true
}

func alt(x int, pn *sppf.PackedNode) int {
	for a, body := range G.Alts[x] {
		if same(body, pn.Body) {
			return a
		}
	}
	return -1
}

// packed checks the children of a packed node and returns them.
func packed(pn *sppf.PackedNode) (out []sppf.Node) {
	r := pn.RightChild
	sym.Assert(r != nil, "an alternative has a right child")
	out = append(out, r)
	if len(pn.Body) == 0 {
		sym.Assert(r.Symbol == "ϵ" && r.Lext == pn.Lext && pn.LeftChild == nil, "an empty alternative has the empty symbol as its child")
		return
	}
	sym.Assert(r.Symbol == pn.Body[pn.Pos-1].String() && r.Lext == pn.Pivot && r.Rext == pn.Rext, "the right child of an alternative is its last symbol, from the pivot on")
	switch lc := pn.LeftChild.(type) {
	case nil:
		sym.Assert(pn.Pos == 1 && pn.Pivot == pn.Lext, "only the first symbol has nothing to its left")
	case *sppf.SymbolNode:
		sym.Assert(pn.Pos == 2 && lc.Symbol == pn.Body[0].String() && lc.Lext == pn.Lext && lc.Rext == pn.Pivot, "the left child of an alternative ends at the pivot")
		out = append(out, lc)
	case *sppf.IntermediateNode:
		sym.Assert(pn.Pos > 2 && lc.NT == pn.NT && lc.Pos == pn.Pos-1 && lc.Lext == pn.Lext && lc.Rext == pn.Pivot, "the left part of an alternative ends at the pivot")
		sym.Assert(lc.Body.Equal(pn.Body), "the left part of an alternative belongs to the same rule")
		out = append(out, lc)
	default:
		sym.Assert(false, "the left child of an alternative is a symbol or an intermediate node")
	}
	return
}
'''


def build(c):
    n = 6 if c.thorough else 4
    for name, text in gllg.grammars(c, 30, 100).items():
        g = c.gen(name, text)
        if not g:
            continue
        c.write("vh/h/" + name, "h.go", gllg.harness(g, n, BODY, ["parser/bsr", "parser/slot", "parser/symbols", "sppf"]).replace("import (", 'import (\n\t"strings"\n', 1))
        for mode in (0, 1):
            c.job("%s/%d" % (name, mode), "vh/h/" + name, setup="Setup", map_mode=mode, need=["reject"], steps=8000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
