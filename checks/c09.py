import c08
import gllg

BODY = c08.WALK + '''
func Run() {
	n := length()
	l := word(n)
	set, _ := parser.Parse(l)
	if set == nil {
		sym.Reach("reject")
		return
	}
	f := ref.NewForest(ref.NewDeriv(G, n, fixed(l)), 0)
	amb := f.Ambiguous()
	sym.TraceBool("ambiguous", amb)
	sym.Assert(set.IsAmbiguous() == amb, "a forest is ambiguous exactly when the input has more than one derivation")
	out := sym.Capture(set.ReportAmbiguous)
	sym.Assert(strings.Contains(out, "No ambiguous BSRs") == (!amb || rootOnly(f)), "the listing says so when nothing below a root is ambiguous, and only then")
	sym.Assert(strings.Contains(out, "ambigous roots") == (len(f.By[[3]int{0, 0, n}]) > 1), "the listing counts the roots when there are several")
	if amb {
		sym.Reach("ambiguous")
		return
	}
	sym.Reach("unambiguous")
	s := f.By[[3]int{0, 0, n}][0]
	how := sym.Catch(0, func() { walk(f, l, set.GetRoot(), s) })
	sym.Assert(how == 0, "the accessors for single children do not fail on an unambiguous forest")
}

// rootOnly tells whether some root has no ambiguity below it.
func rootOnly(f *ref.Forest) bool {
	for _, s := range f.By[[3]int{0, 0, f.D.N}] {
		if !below(f, s, map[ref.Step]bool{}) {
			return true
		}
	}
	return false
}

func below(f *ref.Forest, s ref.Step, seen map[ref.Step]bool) bool {
	if seen[s] {
		return false
	}
	seen[s] = true
	for q, y := range G.Alts[s.X][s.Alt] {
		if y < 0 {
			continue
		}
		n := 0
		for _, e := range f.D.Spans(s, q) {
			for _, c := range f.By[[3]int{y, e.I, e.J}] {
				n++
				if below(f, c, seen) {
					return true
				}
			}
		}
		if n > 1 {
			return true
		}
	}
	return false
}

func walk(f *ref.Forest, l *lexer.Lexer, b bsr.BSR, s ref.Step) {
	sym.Assert(step(b) == s, "a single child is the derivation of that symbol")
	occur := map[int]int{}
	for q, y := range G.Alts[s.X][s.Alt] {
		e := f.D.Spans(s, q)[0]
		if y < 0 {
			sym.Assert(b.GetTChildI(q) == l.Tokens[e.I], "a terminal child is the token at its place")
			continue
		}
		c := f.By[[3]int{y, e.I, e.J}][0]
		sym.Assert(step(b.GetNTChild(symbols.ToNT(G.NTs[y]), occur[y])) == c, "the single child by symbol is the derivation of that symbol")
		occur[y]++
		walk(f, l, b.GetNTChildI(q), c)
	}
}
'''


def build(c):
    n = 7 if c.thorough else 5
    for name, text in gllg.grammars(c, 30, 100).items():
        g = c.gen(name, text)
        if not g:
            continue
        c.write("vh/h/" + name, "h.go", gllg.harness(g, n, BODY, ["parser/bsr", "parser/symbols"]).replace("import (", 'import (\n\t"strings"\n', 1))
        for mode in (0, 1):
            c.job("%s/%d" % (name, mode), "vh/h/" + name, setup="Setup", map_mode=mode, need=["reject"], steps=30000000)
        c.bounds.append("grammar %s: every sequence of up to %d tokens, each of any type" % (name, n))
