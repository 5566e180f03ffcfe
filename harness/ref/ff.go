package ref

import "vh/sym"

// Sym is a symbol whose name may be symbolic.
type Sym struct {
	NT   bool
	C    rune
	Slot int
}

type GRule struct {
	Head rune
	Alts [][]Sym
}

type Grammar struct{ Rules []GRule }

// Sets are the least sets that the definitions of first and follow admit.
type Sets struct {
	G        *Grammar
	T        []rune // terminals
	Nullable []bool // by rule
	First    [][]bool
	Follow   [][]bool
	End      []bool // end of input in follow
}

func (f *Sets) nul(s Sym) bool {
	if !s.NT {
		return false
	}
	b := false
	for y, r := range f.G.Rules {
		b = sym.Or(b, sym.And(sym.EqRune(s.C, r.Head), f.Nullable[y]))
	}
	return b
}

func (f *Sets) has(s Sym, t int) bool {
	if !s.NT {
		return sym.EqRune(s.C, f.T[t])
	}
	b := false
	for y, r := range f.G.Rules {
		b = sym.Or(b, sym.And(sym.EqRune(s.C, r.Head), f.First[y][t]))
	}
	return b
}

// FirstOf tells whether str can start with each terminal, and derive nothing.
func (f *Sets) FirstOf(str []Sym) ([]bool, bool) {
	set := make([]bool, len(f.T))
	pre := true
	for _, s := range str {
		for t := range f.T {
			set[t] = sym.Or(set[t], sym.And(pre, f.has(s, t)))
		}
		pre = sym.And(pre, f.nul(s))
	}
	return set, pre
}

func NewSets(g *Grammar, letters string) *Sets {
	n := len(g.Rules)
	f := &Sets{G: g, T: []rune(letters), Nullable: make([]bool, n), End: make([]bool, n)}
	for i := 0; i < n; i++ {
		f.First = append(f.First, make([]bool, len(f.T)))
		f.Follow = append(f.Follow, make([]bool, len(f.T)))
	}
	for round := 0; round < n; round++ {
		for x, r := range g.Rules {
			for _, a := range r.Alts {
				pre := true
				for _, s := range a {
					pre = sym.And(pre, f.nul(s))
				}
				f.Nullable[x] = sym.Or(f.Nullable[x], pre)
			}
		}
	}
	for round := 0; round < n; round++ {
		for x, r := range g.Rules {
			for _, a := range r.Alts {
				set, _ := f.FirstOf(a)
				for t := range set {
					f.First[x][t] = sym.Or(f.First[x][t], set[t])
				}
			}
		}
	}
	f.End[0] = true
	for round := 0; round < n; round++ {
		for x, r := range g.Rules {
			for _, a := range r.Alts {
				for i, s := range a {
					if !s.NT {
						continue
					}
					set, rest := f.FirstOf(a[i+1:])
					for y, ry := range g.Rules {
						is := sym.EqRune(s.C, ry.Head)
						for t := range set {
							f.Follow[y][t] = sym.Or(f.Follow[y][t], sym.And(is, sym.Or(set[t], sym.And(rest, f.Follow[x][t]))))
						}
						f.End[y] = sym.Or(f.End[y], sym.And(is, rest, f.End[x]))
					}
				}
			}
		}
	}
	return f
}
