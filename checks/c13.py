import lrsym
import symg

# the tables of grammars with arbitrary symbols
BODY = '''
func Run() {
	g, rg := grammar()
	sts, acts, cnf := tables(g, @PAGER@)
	alts, used := concrete(rg)
	if !ref.Productive(alts) {
		return
	}
	lr := ref.NewLR(alts)
	las, names := lookAheads(used)
	pair := walk(rg, lr, sts)
	conflicts := 0
	for i := range lr.States {
		for _, s := range pair[i] {
			for k, la := range las {
				shift, reduce := lr.Demands(i, la)
				n := len(reduce)
				if shift {
					n++
				}
				if n > 1 {
					conflicts++
				}
				if !@PAGER@ {
					check(lr, i, s, pair, la, names[k], acts, cnf)
				}
			}
		}
	}
	got := 0
	for _, c := range cnf {
		for _, x := range c {
			if x != nil {
				got++
			}
		}
	}
	sym.TraceInt("conflicts", conflicts)
	if @PAGER@ {
		sym.Assert((got > 0) == (conflicts > 0), "conflicts are reported exactly for grammars that are not LR(1)")
	} else {
		sym.Assert(len(sts.List) == len(lr.States), "one state per canonical state")
		sym.Assert(got == conflicts, "every conflict is reported once")
	}
	if conflicts > 0 {
		sym.Reach("conflict")
	} else {
		sym.Reach("none")
	}
}

func check(lr *ref.LR, i, s int, pair [][]int, la int, name string, acts action.Actions, cnf [][]*action.Conflict) {
	shift, reduce := lr.Demands(i, la)
	to := -1
	if shift {
		to = pair[lr.Move[i][la]][0]
	}
	n := len(reduce)
	if shift {
		n++
	}
	var c *action.Conflict
	for _, x := range cnf[s] {
		if x.Symbol == name {
			sym.Assert(c == nil, "a conflict is listed once")
			c = x
		}
	}
	sym.Assert((c != nil) == (n > 1), "a conflict is reported exactly when two actions are demanded")
	if c != nil {
		sym.Assert(len(c.Actions) == n, "a conflict lists every action that is demanded")
		for _, a := range c.Actions {
			ok := false
			switch a := a.(type) {
			case action.Shift:
				ok = shift && int(a) == to
			case action.Reduce:
				ok = reduce[int(a)] && int(a) != 0
			case action.Accept:
				ok = reduce[0]
			}
			sym.Assert(ok, "a conflict lists only actions that are demanded")
		}
	}
	sym.Assert(same(acts[s][name], want(shift, to, reduce)), "shift wins over reduce and the earlier production over the later")
}
'''

# the whole of table generation, with and without automatic resolution
GEN = '''
func Run() {
	g, rg := grammar()
	_, acts0, cnf := tables(g, @PAGER@)
	*cfg.Knuth, *cfg.Pager = !@PAGER@, @PAGER@
	cfg.BaseDir = "out"
	resolve := sym.Bool("resolve")
	*cfg.AutoResolveLRConf = resolve
	sym.SetFile("out/LR1_conflicts.txt", "old")
	var acts action.Actions
	code, out := sym.Exits(func() { _, _, acts = lr1.Gen(g) })
	alts, used := concrete(rg)
	n := 0
	for _, c := range cnf {
		n += len(c)
	}
	if ref.Productive(alts) {
		lr := ref.NewLR(alts)
		las, _ := lookAheads(used)
		m := 0
		for i := range lr.States {
			for _, la := range las {
				shift, reduce := lr.Demands(i, la)
				if len(reduce) > 1 || shift && len(reduce) > 0 {
					m++
				}
			}
		}
		sym.Assert((m > 0) == (n > 0), "conflicts are found exactly for grammars that are not LR(1)")
	}
	text, exists := sym.File("out/LR1_conflicts.txt")
	sym.TraceInt("code", code)
	sym.TraceStr("out", out)
	if n == 0 {
		sym.Reach("none")
		sym.Assert(code == -1, "a grammar without conflicts is generated")
		sym.Assert(!exists, "no conflicts are reported for a grammar without")
		sym.Assert(out == "", "no conflicts are printed for a grammar without")
		return
	}
	sym.Assert(exists && strings.HasPrefix(text, fmt.Sprintf("%d LR(1) Conflicts", n)), "the conflicts are listed in LR1_conflicts.txt")
	sym.Assert(strings.Count(text, "\\n") == n+1, "the list has a line for each conflict")
	sym.Assert(strings.HasPrefix(out, fmt.Sprintf("%d LR(1) conflicts", n)), "the number of conflicts is printed")
	if !resolve {
		sym.Reach("refused")
		sym.Assert(code > 0, "a grammar with conflicts is refused")
		sym.Assert(!strings.Contains(out, "resolved"), "conflicts are not said to be resolved when they are not")
		return
	}
	sym.Reach("resolved")
	sym.Assert(code == -1, "conflicts do not end generation when they are to be resolved")
	sym.Assert(len(acts) == len(acts0), "every state has actions")
	for s := range acts {
		for t, a := range acts[s] {
			sym.Assert(same(a, acts0[s][t]), "the table is the resolved one")
		}
		for t, a := range acts0[s] {
			sym.Assert(same(a, acts[s][t]), "the table is the resolved one")
		}
	}
}
'''

# one state with arbitrary items, contexts and shifts
STATE = '''
var g0 *ast.GoGLL
var prods []*basicprod.Production

const nItems = @ITEMS@

func Run() {
	g, _ := grammar()
	prods := basicprod.Get(g.SyntaxRules)
	its := items.NewItems(prods)
	names := []string{"a", "b", "$"}
	st := states.NewState(symbols.GetSymbols(), its, nil)
	var idx []int
	ctx := make([][]bool, nItems)
	n := 0
	for _, it := range its.List {
		if it.Reduce() && n < nItems {
			p := sym.Int("production", 0, 9)
			for _, o := range idx {
				sym.Assume(sym.Not(sym.EqInt(o, p)))
			}
			idx = append(idx, p)
			it.BasicProdIdx = p
			cg := states.NewConfigGroup(it)
			for k, nm := range names {
				// the start production stands only before the end
				b := false
				if sym.Bool("context") {
					if k < 2 {
						sym.Assume(sym.Not(sym.EqInt(p, 0)))
					}
					b = true
					cg.AddContext(nm)
				}
				ctx[n] = append(ctx[n], b)
			}
			st.Add(cg)
			n++
		}
	}
	if n < nItems {
		panic("too few items")
	}
	var trans []states.Transition
	shift := make([]bool, 3)
	to := make([]int, 3)
	for k, nm := range names[:2] {
		if sym.Bool("shift") {
			shift[k] = true
			o := states.NewState(symbols.GetSymbols(), its, nil)
			o.Number = sym.Int("to", 0, 9)
			to[k] = o.Number
			trans = append(trans, states.Transition{Sym: nm, State: o})
		}
	}
	st.Number = 0
	st.Transitions = states.NewTransitionsList(trans, symbols.GetSymbols())
	acts, cnf := action.GetActions(&states.States{List: []*states.State{st}})
	for k, nm := range names {
		demands := 0
		least := 10
		for i := range idx {
			if ctx[i][k] {
				demands++
				least = sym.IteInt(sym.LtInt(idx[i], least), idx[i], least)
			}
		}
		if shift[k] {
			demands++
		}
		a := acts[0][nm]
		switch {
		case demands == 0:
			sym.Assert(a == nil, "no action where none is demanded")
		case shift[k]:
			s, ok := a.(action.Shift)
			sym.Assert(ok && int(s) == to[k], "shift wins over reduce")
		default:
			switch x := a.(type) {
			case action.Accept:
				sym.Assert(least == 0, "the earlier production wins over the later")
			case action.Reduce:
				sym.Assert(sym.And(sym.EqInt(int(x), least), sym.Not(sym.EqInt(least, 0))), "the earlier production wins over the later")
			default:
				sym.Assert(false, "a demanded reduction is taken")
			}
		}
		var c *action.Conflict
		for _, x := range cnf[0] {
			if x.Symbol == nm {
				sym.Assert(c == nil, "a conflict is listed once")
				c = x
			}
		}
		sym.Assert((c != nil) == (demands > 1), "a conflict is reported exactly when two actions are demanded")
		if c != nil {
			sym.Reach("conflict")
			sym.Assert(len(c.Actions) == demands, "a conflict lists every action that is demanded")
			for i := range idx {
				if ctx[i][k] {
					in := false
					for _, x := range c.Actions {
						switch x := x.(type) {
						case action.Reduce:
							in = sym.Or(in, sym.EqInt(int(x), idx[i]))
						case action.Accept:
							in = sym.Or(in, sym.EqInt(idx[i], 0))
						}
					}
					sym.Assert(in, "a conflict lists every action that is demanded")
				}
			}
		}
	}
}
'''

SHAPES = {
    "rr": [("S", ["A.", "B."]), ("A", ["."]), ("B", ["."])],
    "sr": [("S", ["..?", "A."]), ("A", [".", "?"])],
    "amb": [("S", ["??", "."]), ("A", ["a", "S"])],
    "empty": [("S", ["?A.", "b"]), ("A", ["", "."])],
    "accept": [("S", ["?", "a", "S?"]), ("A", ["b", ""])],
    "dup": [("S", [".", ".", "A"]), ("A", [".b", "b"])],
    "dangling": [("S", ["a?", "a?bS", "."])],
}


def build(c):
    st = [("S", ["ab", "ba", "aab", "bba", "abab"])]
    k = 4 if c.thorough else 3
    c.write("vh/h/state", "h.go", lrsym.harness([st], STATE.replace("@ITEMS@", str(k))))
    c.job("state", "vh/h/state", setup="Setup", need=["conflict"])
    c.bounds.append("one state with %d complete items: any set of distinct productions 0 to 9, any contexts out of a, b, $ (the start production's: $), any shifts on a, b to any state" % k)
    shapes = dict(SHAPES)
    for i in range(60 if c.thorough else 24):
        shapes["rnd%d" % i] = symg.rand_shape(2000 + i, slots=4 if c.thorough else 3, nts=3)
    for i, (name, shape) in enumerate(shapes.items()):
        for pager in ("false", "true"):
            nm = name + ("_pager" if pager == "true" else "_knuth")
            c.write("vh/h/" + nm, "h.go", lrsym.harness([shape], BODY.replace("@PAGER@", pager)))
            c.job(nm, "vh/h/" + nm, setup="Setup", map_mode=i % 2)
        c.bounds.append("rules %s: every choice of a nonterminal for each ? and of a literal out of a, b, c for each ." % "; ".join("%s: %s" % (h, " | ".join(x or "empty" for x in al)) for h, al in shape))
    for i, (name, shape) in enumerate(list(shapes.items())[:40 if c.thorough else 14]):
        pager = ("false", "true")[i % 2]
        nm = name + "_gen"
        c.write("vh/h/" + nm, "h.go", lrsym.harness([shape], GEN.replace("@PAGER@", pager)).replace("import (", 'import (\n\t"strings"\n\t"github.com/goccmack/gogll/v3/cfg"\n\t"github.com/goccmack/gogll/v3/lr1"', 1))
        c.job(nm, "vh/h/" + nm, setup="Setup")
