"""Harness that builds LR(1) tables for grammars with arbitrary symbols and
compares them with the canonical automaton."""
import symg

IMPORTS = ['"fmt"', '"github.com/goccmack/gogll/v3/lr1/action"', '"github.com/goccmack/gogll/v3/lr1/basicprod"', '"github.com/goccmack/gogll/v3/lr1/first"',
           '"github.com/goccmack/gogll/v3/lr1/items"', '"github.com/goccmack/gogll/v3/lr1/knuth"', '"github.com/goccmack/gogll/v3/lr1/pgm"', '"github.com/goccmack/gogll/v3/lr1/states"']

COMMON = '''
var _ = knuth.States
var _ = pgm.States
var _ = fmt.Sprint
var _ action.Action
var _ *states.States

func tables(g *ast.GoGLL, pager bool) (*states.States, action.Actions, [][]*action.Conflict) {
	prods := basicprod.Get(g.SyntaxRules)
	its := items.NewItems(prods)
	fst := first.New(prods)
	var sts *states.States
	if pager {
		sts = pgm.States(symbols.GetSymbols(), its, fst)
	} else {
		sts = knuth.States(symbols.GetSymbols(), its, fst)
	}
	acts, cnf := action.GetActions(sts)
	return sts, acts, cnf
}

// concrete settles what is still open about the grammar.
func concrete(rg *ref.Grammar) (alts [][][]int, used []bool) {
	used = make([]bool, len(letters))
	name := ""
	for _, r := range rg.Rules {
		name += string(r.Head) + ":"
		var al [][]int
		for _, a := range r.Alts {
			b := []int{}
			for _, s := range a {
				c := sym.PickRune(s.C)
				name += string(c)
				if s.NT {
					for y, o := range rg.Rules {
						if o.Head == c {
							b = append(b, y)
						}
					}
				} else {
					for t, o := range letters {
						if o == c {
							b = append(b, ^t)
							used[t] = true
						}
					}
				}
			}
			name += "|"
			al = append(al, b)
		}
		alts = append(alts, al)
	}
	sym.TraceStr("grammar", name)
	return
}

// walk pairs each canonical state with the states of the table that stand for it.
func walk(rg *ref.Grammar, lr *ref.LR, sts *states.States) [][]int {
	pair := make([][]int, len(lr.States))
	pair[0] = []int{0}
	type pr struct{ c, s int }
	todo := []pr{{0, 0}}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, s := range lr.Syms[p.c] {
			to := lr.Move[p.c][s]
			n := ""
			if s >= 0 {
				n = string(rg.Rules[s].Head)
			} else {
				n = letters[^s : ^s+1]
			}
			next := sts.List[p.s].Transitions.Transition(n)
			sym.Assert(next != nil, "a state moves on every symbol that its items expect")
			sym.Assert(next.Number < len(sts.List) && sts.List[next.Number] == next, "states are numbered as listed")
			known := false
			for _, o := range pair[to] {
				known = known || o == next.Number
			}
			if !known {
				pair[to] = append(pair[to], next.Number)
				todo = append(todo, pr{to, next.Number})
			}
		}
	}
	return pair
}

// want is the action for what is demanded: shift first, then the earliest production.
func want(shift bool, to int, reduce map[int]bool) action.Action {
	if shift {
		return action.Shift(to)
	}
	least := -1
	for p := range reduce {
		if least < 0 || p < least {
			least = p
		}
	}
	switch {
	case least < 0:
		return nil
	case least == 0:
		return action.ACCEPT
	}
	return action.Reduce(least)
}

func same(a, b action.Action) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equal(b)
}

// terminals of the grammar by number, then the end mark.
func lookAheads(used []bool) (las []int, names []string) {
	for t := range letters {
		if used[t] {
			las = append(las, ^t)
			names = append(names, letters[t:t+1])
		}
	}
	return append(las, ref.End), append(names, "$")
}
'''


def harness(shapes, body, letters="abc"):
    return symg.harness(shapes, COMMON + body, IMPORTS, letters)
