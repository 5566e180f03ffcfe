package ref

import "sort"

// LR is the canonical LR(1) automaton of a grammar, which must be concrete.
// Symbol s >= 0 is a nonterminal, below zero the terminal ^s; End is the end
// mark. Production 0 is start: nonterminal 0.
type LR struct {
	Prods  []Prod
	States []map[Item]bool
	Move   []map[int]int // by symbol
	Syms   [][]int       // symbols on which a state moves
}

type Prod struct {
	X    int
	Body []int
}

type Item struct{ P, Dot, La int }

const End = -1 << 20

type lrFirst struct {
	nul   []bool
	first []map[int]bool
}

func (f *lrFirst) of(body []int, la int) map[int]bool {
	set := map[int]bool{}
	for _, s := range body {
		if s < 0 {
			set[s] = true
			return set
		}
		for t := range f.first[s] {
			set[t] = true
		}
		if !f.nul[s] {
			return set
		}
	}
	set[la] = true
	return set
}

// NewLR builds the automaton; alts are by nonterminal.
func NewLR(alts [][][]int) *LR {
	lr := &LR{Prods: []Prod{{-1, []int{0}}}}
	by := make([][]int, len(alts))
	for x, al := range alts {
		for _, a := range al {
			by[x] = append(by[x], len(lr.Prods))
			lr.Prods = append(lr.Prods, Prod{x, a})
		}
	}
	f := &lrFirst{nul: make([]bool, len(alts))}
	for range alts {
		f.first = append(f.first, map[int]bool{})
	}
	for again := true; again; {
		again = false
		for _, p := range lr.Prods[1:] {
			const none = End - 1
			for t := range f.of(p.Body, none) {
				if t == none {
					if !f.nul[p.X] {
						f.nul[p.X] = true
						again = true
					}
				} else if !f.first[p.X][t] {
					f.first[p.X][t] = true
					again = true
				}
			}
		}
	}
	closure := func(k map[Item]bool) {
		var todo []Item
		for it := range k {
			todo = append(todo, it)
		}
		for len(todo) > 0 {
			it := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			b := lr.Prods[it.P].Body
			if it.Dot == len(b) || b[it.Dot] < 0 {
				continue
			}
			for la := range f.of(b[it.Dot+1:], it.La) {
				for _, p := range by[b[it.Dot]] {
					n := Item{p, 0, la}
					if !k[n] {
						k[n] = true
						todo = append(todo, n)
					}
				}
			}
		}
	}
	s0 := map[Item]bool{{0, 0, End}: true}
	closure(s0)
	lr.States = append(lr.States, s0)
	for i := 0; i < len(lr.States); i++ {
		next := map[int]map[Item]bool{}
		var syms []int
		for it := range lr.States[i] {
			b := lr.Prods[it.P].Body
			if it.Dot < len(b) {
				s := b[it.Dot]
				if next[s] == nil {
					next[s] = map[Item]bool{}
					syms = append(syms, s)
				}
				next[s][Item{it.P, it.Dot + 1, it.La}] = true
			}
		}
		mv := map[int]int{}
		sort.Ints(syms)
		for _, s := range syms {
			k := next[s]
			closure(k)
			to := -1
			for j, o := range lr.States {
				if sameItems(o, k) {
					to = j
				}
			}
			if to < 0 {
				to = len(lr.States)
				lr.States = append(lr.States, k)
			}
			mv[s] = to
		}
		lr.Move = append(lr.Move, mv)
		lr.Syms = append(lr.Syms, syms)
	}
	return lr
}

func sameItems(a, b map[Item]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for it := range a {
		if !b[it] {
			return false
		}
	}
	return true
}

// Demands lists what state i demands on terminal t (or End): whether a shift,
// and the productions to reduce by.
func (lr *LR) Demands(i, t int) (shift bool, reduce map[int]bool) {
	reduce = map[int]bool{}
	for it := range lr.States[i] {
		b := lr.Prods[it.P].Body
		if it.Dot < len(b) {
			if b[it.Dot] == t {
				shift = true
			}
		} else if it.La == t {
			reduce[it.P] = true
		}
	}
	return
}

// Productive tells whether every nonterminal derives some word.
func Productive(alts [][][]int) bool {
	p := make([]bool, len(alts))
	for range alts {
		for x, al := range alts {
			for _, a := range al {
				ok := true
				for _, s := range a {
					ok = ok && (s < 0 || p[s])
				}
				p[x] = p[x] || ok
			}
		}
	}
	for _, b := range p {
		if !b {
			return false
		}
	}
	return true
}
