package ref

import (
	"fmt"
	"sort"

	"vh/sym"
)

// CFG is a context-free grammar; a symbol below zero is the terminal ^symbol.
type CFG struct {
	NTs    []string
	Terms  []string
	Alts   [][][]int
	Order  []int // nonterminals, callees on the same extent first
	Rounds int   // how often a nonterminal can recur on the same extent
}

// Deriv tells what the nonterminals derive in a word of n tokens. Its entries
// are formulas over the tokens.
type Deriv struct {
	G  *CFG
	N  int
	is func(t, i int) bool
	in [][]bool   // [nt][i*(n+1)+j]
	p  [][][]bool // [alt][len][i*(n+1)+j], alternates numbered through
	at [][]int    // [nt][alt] number
}

func NewDeriv(g *CFG, n int, is func(t, i int) bool) *Deriv {
	d := &Deriv{G: g, N: n, is: is}
	w := n + 1
	for range g.NTs {
		d.in = append(d.in, make([]bool, w*w))
	}
	for _, alts := range g.Alts {
		var no []int
		for _, a := range alts {
			no = append(no, len(d.p))
			var p [][]bool
			for q := 0; q <= len(a); q++ {
				p = append(p, make([]bool, w*w))
			}
			for i := 0; i <= n; i++ {
				p[0][i*w+i] = true
			}
			d.p = append(d.p, p)
		}
		d.at = append(d.at, no)
	}
	for l := 0; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			for r := 0; r <= g.Rounds; r++ { // the last round settles the prefixes
				for _, x := range g.Order {
					d.rule(x, i, i+l)
				}
			}
		}
	}
	return d
}

func (d *Deriv) rule(x, i, j int) {
	w := d.N + 1
	var any []bool
	for a, body := range d.G.Alts[x] {
		p := d.p[d.at[x][a]]
		for q, s := range body {
			var or []bool
			if s < 0 {
				if j > i {
					or = append(or, sym.And(p[q][i*w+j-1], d.is(^s, j-1)))
				}
			} else {
				for k := i; k <= j; k++ {
					or = append(or, sym.And(p[q][i*w+k], d.in[s][k*w+j]))
				}
			}
			p[q+1][i*w+j] = sym.Or(or...)
		}
		any = append(any, p[len(body)][i*w+j])
	}
	d.in[x][i*w+j] = sym.Or(any...)
}

// In tells whether x derives the tokens i up to j.
func (d *Deriv) In(x, i, j int) bool { return d.in[x][i*(d.N+1)+j] }

// Viable tells whether the first n tokens begin some sentence; every
// nonterminal must derive some word.
func (d *Deriv) Viable(x int) bool {
	w := d.N + 1
	n := d.N
	// pre[y][k]: y derives the tokens from k on and then perhaps more
	pre := make([][]bool, len(d.G.NTs))
	for y := range pre {
		pre[y] = make([]bool, w)
		pre[y][n] = true
	}
	for k := n - 1; k >= 0; k-- {
		for r := 0; r <= len(d.G.NTs); r++ {
			for _, y := range d.G.Order {
				var or []bool
				for a, body := range d.G.Alts[y] {
					p := d.p[d.at[y][a]]
					for q := 0; q <= len(body); q++ {
						or = append(or, p[q][k*w+n])
						if q < len(body) && body[q] >= 0 {
							for e := k; e < n; e++ {
								or = append(or, sym.And(p[q][k*w+e], pre[body[q]][e]))
							}
						}
					}
				}
				pre[y][k] = sym.Or(or...)
			}
		}
	}
	return pre[x][0]
}

// Step is one derivation step: alternate Alt of X spans I to J, its last
// symbol starts at K.
type Step struct{ X, Alt, I, K, J int }

// Span is the extent of one symbol.
type Span struct{ I, J int }

// Forest holds the steps of all derivations of the whole word; the formulas
// of the Deriv must be constants.
type Forest struct {
	D     *Deriv
	Steps map[Step]bool
	By    map[[3]int][]Step // by nonterminal and extent
	Order []Step
}

func (d *Deriv) steps(x, i, j int) (ss []Step) {
	w := d.N + 1
	for a, body := range d.G.Alts[x] {
		p := d.p[d.at[x][a]]
		m := len(body)
		if m == 0 {
			if i == j {
				ss = append(ss, Step{x, a, i, i, i})
			}
			continue
		}
		for k := i; k <= j; k++ {
			if p[m-1][i*w+k] && d.Has(body[m-1], k, j) {
				ss = append(ss, Step{x, a, i, k, j})
			}
		}
	}
	return
}

// Has tells whether symbol s derives the tokens i up to j.
func (d *Deriv) Has(s, i, j int) bool {
	if s < 0 {
		return j == i+1 && d.is(^s, i)
	}
	return d.In(s, i, j)
}

// Prefix tells whether the first q symbols of an alternate derive i to j.
func (d *Deriv) Prefix(x, alt, q, i, j int) bool {
	return d.p[d.at[x][alt]][q][i*(d.N+1)+j]
}

// Spans gives the extents that symbol q of the step's body can have.
func (d *Deriv) Spans(s Step, q int) (out []Span) {
	body := d.G.Alts[s.X][s.Alt]
	m := len(body)
	if q == m-1 {
		return []Span{{s.K, s.J}}
	}
	w := d.N + 1
	p := d.p[d.at[s.X][s.Alt]]
	// ends: where symbol q can end, from the right
	ends := map[int]bool{s.K: true}
	for r := m - 2; r > q; r-- {
		next := map[int]bool{}
		for a := s.I; a <= s.K; a++ {
			for b := a; b <= s.K; b++ {
				if ends[b] && p[r][s.I*w+a] && d.Has(body[r], a, b) {
					next[a] = true
				}
			}
		}
		ends = next
	}
	for a := s.I; a <= s.K; a++ {
		for b := a; b <= s.K; b++ {
			if ends[b] && p[q][s.I*w+a] && d.Has(body[q], a, b) {
				out = append(out, Span{a, b})
			}
		}
	}
	return
}

func NewForest(d *Deriv, start int) *Forest {
	f := &Forest{D: d, Steps: map[Step]bool{}, By: map[[3]int][]Step{}}
	todo := [][3]int{{start, 0, d.N}}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if _, done := f.By[x]; done {
			continue
		}
		ss := d.steps(x[0], x[1], x[2])
		f.By[x] = ss
		for _, s := range ss {
			f.Steps[s] = true
			f.Order = append(f.Order, s)
			for q, y := range d.G.Alts[s.X][s.Alt] {
				if y >= 0 {
					for _, e := range d.Spans(s, q) {
						todo = append(todo, [3]int{y, e.I, e.J})
					}
				}
			}
		}
	}
	return f
}

// Ambiguous tells whether the word has more than one derivation.
func (f *Forest) Ambiguous() bool {
	for _, ss := range f.By {
		if len(ss) > 1 {
			return true
		}
	}
	for _, s := range f.Order {
		for q := range f.D.G.Alts[s.X][s.Alt] {
			if len(f.D.Spans(s, q)) > 1 {
				return true
			}
		}
	}
	return false
}

func (s Step) String() string { return fmt.Sprintf("%d/%d %d,%d,%d", s.X, s.Alt, s.I, s.K, s.J) }

// Same tells whether the two lists hold the same steps, each once.
func Same(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := sorted(a), sorted(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func sorted(a []Step) []string {
	var o []string
	for _, s := range a {
		o = append(o, s.String())
	}
	sort.Strings(o)
	return o
}
