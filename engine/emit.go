package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// A variable that occurs only in comparisons with constants and in membership
// tests is sent to the solver as the index of its class in the coarsest
// partition of its domain that respects all these tests. The reduction is
// exact: two values of one class satisfy the same atoms.
type Partition struct {
	lo   []uint64 // start of each elementary interval, ascending, lo[0]=0
	cls  []int    // class of the interval
	n    int      // number of classes
	rep  []uint64 // a value of each class
	max  uint64
	seen map[int32]bool
}

func newPartition(w uint8) *Partition {
	return &Partition{lo: []uint64{0}, cls: []int{0}, n: 1, rep: []uint64{0}, max: mask(w), seen: map[int32]bool{}}
}

// split makes the partition respect the set given by sorted disjoint ranges;
// it tells whether any class was split.
func (p *Partition) split(rs [][2]uint64) bool {
	var lo []uint64
	var cls []int
	var in []bool
	k := 0
	for i, l := range p.lo {
		h := p.max
		if i+1 < len(p.lo) {
			h = p.lo[i+1] - 1
		}
		c := l
		for {
			for k < len(rs) && rs[k][1] < c {
				k++
			}
			if k == len(rs) || rs[k][0] > h {
				lo, cls, in = append(lo, c), append(cls, p.cls[i]), append(in, false)
				break
			}
			if rs[k][0] > c {
				lo, cls, in = append(lo, c), append(cls, p.cls[i]), append(in, false)
				c = rs[k][0]
			}
			lo, cls, in = append(lo, c), append(cls, p.cls[i]), append(in, true)
			if rs[k][1] >= h {
				break
			}
			c = rs[k][1] + 1
		}
	}
	has := make([]uint8, p.n)
	for i := range cls {
		if in[i] {
			has[cls[i]] |= 1
		} else {
			has[cls[i]] |= 2
		}
	}
	nu := make([]int, p.n)
	n := p.n
	for c, h := range has {
		if h == 3 {
			nu[c] = n
			n++
		}
	}
	if n == p.n {
		return false
	}
	for i := range cls {
		if in[i] && has[cls[i]] == 3 {
			cls[i] = nu[cls[i]]
		}
	}
	// merge neighbours of one class
	p.lo, p.cls = p.lo[:0:0], p.cls[:0:0]
	for i := range cls {
		if i > 0 && cls[i] == cls[i-1] {
			continue
		}
		p.lo, p.cls = append(p.lo, lo[i]), append(p.cls, cls[i])
	}
	p.n = n
	p.rep = make([]uint64, n)
	score := make([]int, n)
	for i, l := range p.lo {
		h := p.max
		if i+1 < len(p.lo) {
			h = p.lo[i+1] - 1
		}
		c := p.cls[i]
		for _, t := range []struct{ v, s uint64 }{{'a', 9}, {'A', 8}, {'0', 7}, {' ', 6}, {'~', 5}, {0xe9, 4}, {0x3b1, 3}} {
			if l <= t.v && t.v <= h && int(t.s) > score[c] {
				p.rep[c], score[c] = t.v, int(t.s)
			}
		}
		if score[c] == 0 {
			p.rep[c], score[c] = l, 1
		}
	}
	return true
}

// in lists the classes inside the set.
func (p *Partition) in(rs [][2]uint64) []int {
	seen := make([]bool, p.n)
	for c, v := range p.rep {
		i := sort.Search(len(rs), func(i int) bool { return rs[i][1] >= v })
		seen[c] = i < len(rs) && rs[i][0] <= v
	}
	var out []int
	for c, b := range seen {
		if b {
			out = append(out, c)
		}
	}
	return out
}

// atom returns the variable and the set of its values that make t true.
func atom(t *Term) (v *Term, rs [][2]uint64, ok bool) {
	switch t.op {
	case TEq:
		if t.args[0].op == TVar && t.args[1].op == TConst {
			return t.args[0], [][2]uint64{{t.args[1].val, t.args[1].val}}, true
		}
	case TUlt:
		a, b := t.args[0], t.args[1]
		if a.op == TVar && b.op == TConst {
			return a, [][2]uint64{{0, b.val - 1}}, true // b.val > 0
		}
		if b.op == TVar && a.op == TConst {
			if a.val == mask(a.w) {
				return b, nil, true
			}
			return b, [][2]uint64{{a.val + 1, mask(b.w)}}, true
		}
	case TSlt:
		a, b := t.args[0], t.args[1]
		half := uint64(1) << (t.args[0].w - 1)
		if a.op == TVar && b.op == TConst {
			k := b.val
			switch {
			case k == half:
				return a, nil, true
			case k == 0:
				return a, [][2]uint64{{half, mask(a.w)}}, true
			case k > half:
				return a, [][2]uint64{{half, k - 1}}, true
			}
			return a, [][2]uint64{{0, k - 1}, {half, mask(a.w)}}, true
		}
		if b.op == TVar && a.op == TConst {
			k := a.val
			switch {
			case k == half-1:
				return b, nil, true
			case k == mask(a.w):
				return b, [][2]uint64{{0, half - 1}}, true
			case k < half:
				return b, [][2]uint64{{k + 1, half - 1}}, true
			}
			return b, [][2]uint64{{0, half - 1}, {k + 1, mask(a.w)}}, true
		}
	case TPred:
		if t.args[0].op == TVar {
			return t.args[0], t.pred.ranges(), true
		}
	}
	return nil, nil, false
}

func (p *Pred) ranges() [][2]uint64 {
	if p.flat != nil {
		return p.flat
	}
	var out [][2]uint64
	for _, s := range p.str {
		if s[2] == 1 {
			out = append(out, [2]uint64{uint64(s[0]), uint64(s[1])})
			continue
		}
		for v := s[0]; v <= s[1]; v += s[2] {
			out = append(out, [2]uint64{uint64(v), uint64(v)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	p.flat = out
	return out
}

func (s *Solver) plain(v int32) bool {
	return s.raw || s.arith[v] || s.ctx.varl[v].w == 0
}

// scan registers the atoms of t; it tells whether the encoding of terms sent
// earlier has changed.
func (s *Solver) scan(t *Term) bool {
	if s.raw || t.op == TConst {
		return false
	}
	for len(s.scanned) <= int(t.id) {
		s.scanned = append(s.scanned, make([]bool, len(s.scanned)+1024)...)
	}
	if s.scanned[t.id] {
		return false
	}
	s.scanned[t.id] = true
	if v, rs, ok := atom(t); ok {
		p := s.parts[v.w]
		if p == nil {
			p = newPartition(v.w)
			s.parts[v.w] = p
		}
		return p.split(rs)
	}
	ch := false
	for _, a := range t.args {
		if a.op == TVar {
			if a.w > 0 && !s.arith[int32(a.val)] {
				s.arith[int32(a.val)] = true
				ch = true
			}
			continue
		}
		if s.scan(a) {
			ch = true
		}
	}
	return ch
}

// emit writes the definitions needed for t.
func (s *Solver) emit(sb *strings.Builder, t *Term) {
	if t.op == TConst {
		return
	}
	for len(s.done) <= int(t.id) {
		s.done = append(s.done, make([]uint32, len(s.done)+1024)...)
	}
	if s.done[t.id] == s.epoch {
		return
	}
	s.done[t.id] = s.epoch
	if t.op == TVar {
		if s.plain(int32(t.val)) {
			fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortOf(t.w))
			return
		}
		p := s.parts[t.w]
		if p == nil {
			p = newPartition(t.w)
			s.parts[t.w] = p
		}
		fmt.Fprintf(sb, "(declare-const %s (_ BitVec %d))\n", t.ref(), p.bits())
		if p.n != 1<<p.bits() {
			fmt.Fprintf(sb, "(assert (bvult %s (_ bv%d %d)))\n", t.ref(), p.n, p.bits())
		}
		return
	}
	if v, rs, ok := atom(t); ok && !s.plain(int32(v.val)) {
		s.emit(sb, v)
		p := s.parts[v.w]
		in := p.in(rs)
		fmt.Fprintf(sb, "(define-fun %s () Bool ", t.ref())
		neg := len(in) > p.n/2
		if neg {
			out := make([]int, 0, p.n)
			k := 0
			for c := 0; c < p.n; c++ {
				if k < len(in) && in[k] == c {
					k++
				} else {
					out = append(out, c)
				}
			}
			in = out
			sb.WriteString("(not ")
		}
		sb.WriteString("(or false")
		for _, c := range in {
			fmt.Fprintf(sb, " (= %s (_ bv%d %d))", v.ref(), c, p.bits())
		}
		sb.WriteString(")")
		if neg {
			sb.WriteString(")")
		}
		sb.WriteString(")\n")
		return
	}
	for _, a := range t.args {
		s.emit(sb, a)
	}
	if t.op == TPred {
		for len(s.predE) <= t.pred.id {
			s.predE = append(s.predE, 0)
		}
		if s.predE[t.pred.id] != s.epoch {
			s.predE[t.pred.id] = s.epoch
			fmt.Fprintf(sb, "(define-fun p%d ((r (_ BitVec 32))) Bool (or false", t.pred.id)
			for _, r := range t.pred.ranges() {
				if r[0] == r[1] {
					fmt.Fprintf(sb, " (= r #x%08x)", r[0])
				} else {
					fmt.Fprintf(sb, " (and (bvule #x%08x r) (bvule r #x%08x))", r[0], r[1])
				}
			}
			sb.WriteString("))\n")
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", t.ref(), sortOf(t.w))
	switch t.op {
	case TZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case TSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case TExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", t.w-1, t.args[0].ref())
	case TPred:
		fmt.Fprintf(sb, "(p%d %s)", t.pred.id, t.args[0].ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + a.ref())
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func (p *Partition) bits() int {
	if p.n <= 2 {
		return 1
	}
	return bits.Len(uint(p.n - 1))
}
