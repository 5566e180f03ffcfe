package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms are hash-consed per Ctx. Width 0 is Bool; otherwise a bit vector.

type TOp uint8

const (
	TConst TOp = iota
	TVar
	TNot
	TAnd
	TOr
	TIte
	TEq
	TUlt
	TSlt
	TAdd
	TSub
	TMul
	TUdiv
	TSdiv
	TUrem
	TSrem
	TBand
	TBor
	TBxor
	TShl
	TLshr
	TAshr
	TZext
	TSext
	TExtract // low bits: extract (w-1) 0
	TPred    // range-table predicate over a 32-bit rune
)

type Term struct {
	op    TOp
	w     uint8
	args  []*Term
	val   uint64
	name  string
	pred  *Pred
	id    int32
	vars  []int32
	leafs []uint64 // constant leaves when the term is an ite tree over constants (nil: unknown)
}

// Pred is a set of runes given as sorted disjoint inclusive ranges.
type Pred struct {
	id   int
	key  string
	rs   [][2]uint32
	str  [][3]uint32 // lo,hi,stride
	flat [][2]uint64
}

func (p *Pred) has(r uint32) bool {
	i := sort.Search(len(p.str), func(i int) bool { return p.str[i][1] >= r })
	// entries are sorted by lo; strided ranges do not overlap
	return i < len(p.str) && p.str[i][0] <= r && (r-p.str[i][0])%p.str[i][2] == 0
}

type tkey struct {
	op      TOp
	w       uint8
	a, b, c int32
	val     uint64
}

type Ctx struct {
	tab    map[tkey]*Term
	big    map[string]*Term
	vars   map[string]*Term
	varl   []*Term
	n      int32
	True   *Term
	False  *Term
	preds  map[string]*Pred
	predl  []*Pred
	ascii  map[int32]*Term
	bvIsTr map[int32]bool
	cuts   map[*Term]cutByte // bytes that runes were cut into
}

// cutByte is a byte of a rune x that takes n bytes.
type cutByte struct {
	x *Term
	n int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, big: map[string]*Term{}, vars: map[string]*Term{}, preds: map[string]*Pred{}, cuts: map[*Term]cutByte{}}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) fresh(t *Term) *Term {
	t.id = c.n
	c.n++
	switch len(t.args) {
	case 0:
	case 1:
		t.vars = t.args[0].vars
	default:
		t.vars = mergeVars(t.args)
	}
	switch t.op {
	case TConst:
		t.leafs = []uint64{t.val}
	case TIte:
		if t.w > 0 && t.args[1].leafs != nil && t.args[2].leafs != nil {
			l := append([]uint64{}, t.args[1].leafs...)
		next:
			for _, v := range t.args[2].leafs {
				for _, x := range l {
					if x == v {
						continue next
					}
				}
				l = append(l, v)
			}
			if len(l) <= 256 {
				t.leafs = l
			}
		}
	}
	return t
}

func mergeVars(args []*Term) []int32 {
	var out []int32
	same := true
	for _, a := range args {
		if len(a.vars) == 0 {
			continue
		}
		if out == nil {
			out = a.vars
			continue
		}
		if len(out) == len(a.vars) {
			eq := true
			for i := range out {
				if out[i] != a.vars[i] {
					eq = false
					break
				}
			}
			if eq {
				continue
			}
		}
		same = false
		n := make([]int32, 0, len(out)+len(a.vars))
		i, j := 0, 0
		for i < len(out) || j < len(a.vars) {
			switch {
			case j >= len(a.vars) || (i < len(out) && out[i] < a.vars[j]):
				n = append(n, out[i])
				i++
			case i >= len(out) || out[i] > a.vars[j]:
				n = append(n, a.vars[j])
				j++
			default:
				n = append(n, out[i])
				i++
				j++
			}
		}
		out = n
	}
	_ = same
	return out
}

func (c *Ctx) mk(op TOp, w uint8, args ...*Term) *Term {
	if len(args) <= 3 {
		k := tkey{op: op, w: w, a: -1, b: -1, c: -1}
		if len(args) > 0 {
			k.a = args[0].id
		}
		if len(args) > 1 {
			k.b = args[1].id
		}
		if len(args) > 2 {
			k.c = args[2].id
		}
		if t, ok := c.tab[k]; ok {
			return t
		}
		t := c.fresh(&Term{op: op, w: w, args: append([]*Term{}, args...)})
		c.tab[k] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d", op, w)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t, ok := c.big[sb.String()]; ok {
		return t
	}
	t := c.fresh(&Term{op: op, w: w, args: append([]*Term{}, args...)})
	c.big[sb.String()] = t
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	k := tkey{op: TConst, w: w, val: v, a: -1, b: -1, c: -1}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.fresh(&Term{op: TConst, w: w, val: v})
	c.tab[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("variable " + name + " used at two widths")
		}
		return t
	}
	t := &Term{op: TVar, w: w, name: name, id: c.n, vars: []int32{int32(len(c.varl))}}
	t.val = uint64(len(c.varl))
	c.n++
	c.vars[name] = t
	c.varl = append(c.varl, t)
	return t
}

func (t *Term) isTrue() bool  { return t.op == TConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == TConst && t.w == 0 && t.val == 0 }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case TConst:
		return c.Bool(a.val == 0)
	case TNot:
		return a.args[0]
	}
	return c.mk(TNot, 0, a)
}

func (c *Ctx) nary(op TOp, unit, zero *Term, xs []*Term) *Term {
	out := make([]*Term, 0, len(xs))
	seen := map[int32]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		var n int32 = -1
		if x.op == TNot {
			n = x.args[0].id
		} else if t, ok := c.tab[tkey{op: TNot, w: 0, a: x.id, b: -1, c: -1}]; ok {
			n = t.id
		}
		if n >= 0 && seen[n] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, out...)
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(TAnd, c.True, c.False, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(TOr, c.False, c.True, xs) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.op == TConst {
		if k.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return c.Or(c.And(k, a), c.And(c.Not(k), b))
	}
	if k.op == TNot {
		k, a, b = k.args[0], b, a
	}
	if b.op == TIte && b.args[1] == a {
		return c.Ite(c.Or(k, b.args[0]), a, b.args[2])
	}
	return c.mk(TIte, a.w, k, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == TConst && b.op == TConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == TConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.op == TConst {
		a, b = b, a
	}
	if b.op == TConst {
		if a.leafs != nil {
			found := false
			for _, l := range a.leafs {
				if l == b.val {
					found = true
				}
			}
			if !found {
				return c.False
			}
		}
		switch a.op {
		case TIte:
			if a.args[1].op == TConst || a.args[2].op == TConst {
				return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
			}
		case TZext:
			if b.val>>a.args[0].w != 0 {
				return c.False
			}
			return c.Eq(a.args[0], c.Const(a.args[0].w, b.val))
		case TSext:
			x := c.Const(a.args[0].w, b.val)
			if c.Sext(x, a.w).val != b.val {
				return c.False
			}
			return c.Eq(a.args[0], x)
		case TAdd:
			if a.args[1].op == TConst {
				return c.Eq(a.args[0], c.Const(a.w, b.val-a.args[1].val))
			}
		}
	}
	if a.id > b.id && b.op != TConst {
		a, b = b, a
	}
	return c.mk(TEq, 0, a, b)
}

func sgn(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) mapLeafs(a *Term, f func(*Term) *Term) *Term {
	if a.op == TIte {
		return c.Ite(a.args[0], c.mapLeafs(a.args[1], f), c.mapLeafs(a.args[2], f))
	}
	return f(a)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.op == TConst && b.op == TConst {
		return c.Bool(a.val < b.val)
	}
	if b.op == TConst && b.val == 0 {
		return c.False
	}
	if a == b {
		return c.False
	}
	if a.leafs != nil && len(a.leafs) <= 64 && b.op == TConst && a.op == TIte {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Ult(x, b) })
	}
	if b.leafs != nil && len(b.leafs) <= 64 && a.op == TConst && b.op == TIte {
		return c.mapLeafs(b, func(x *Term) *Term { return c.Ult(a, x) })
	}
	if a.op == TZext && b.op == TConst {
		if b.val>>a.args[0].w != 0 {
			return c.True
		}
		return c.Ult(a.args[0], c.Const(a.args[0].w, b.val))
	}
	if b.op == TZext && a.op == TConst {
		if a.val>>b.args[0].w != 0 {
			return c.False
		}
		return c.Ult(c.Const(b.args[0].w, a.val), b.args[0])
	}
	return c.mk(TUlt, 0, a, b)
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a.op == TConst && b.op == TConst {
		return c.Bool(sgn(a.val, a.w) < sgn(b.val, b.w))
	}
	if a == b {
		return c.False
	}
	if a.leafs != nil && len(a.leafs) <= 64 && b.op == TConst && a.op == TIte {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Slt(x, b) })
	}
	if b.leafs != nil && len(b.leafs) <= 64 && a.op == TConst && b.op == TIte {
		return c.mapLeafs(b, func(x *Term) *Term { return c.Slt(a, x) })
	}
	if b.op == TConst && (a.op == TZext || a.op == TSext) {
		return c.sltConst(a, b, true)
	}
	if a.op == TConst && (b.op == TZext || b.op == TSext) {
		return c.sltConst(b, a, false)
	}
	return c.mk(TSlt, 0, a, b)
}

// sltConst compares an extended term x with constant k: x < k, or k < x.
func (c *Ctx) sltConst(x, k *Term, less bool) *Term {
	in := x.args[0]
	v := sgn(k.val, k.w)
	var lo, hi int64
	if x.op == TZext {
		lo, hi = 0, int64(mask(in.w))
	} else {
		lo, hi = -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
	}
	if less {
		if v > hi {
			return c.True
		}
		if v <= lo {
			return c.False
		}
	} else {
		if v < lo {
			return c.True
		}
		if v >= hi {
			return c.False
		}
	}
	kk := c.Const(in.w, uint64(v))
	cmp := c.Ult
	if x.op == TSext {
		cmp = c.Slt
	}
	if less {
		return cmp(in, kk)
	}
	return cmp(kk, in)
}

func evalBV(op TOp, w uint8, x, y uint64) uint64 {
	var r uint64
	switch op {
	case TAdd:
		r = x + y
	case TSub:
		r = x - y
	case TMul:
		r = x * y
	case TUdiv:
		if y == 0 {
			r = mask(w)
		} else {
			r = x / y
		}
	case TUrem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case TSdiv:
		a, b := sgn(x, w), sgn(y, w)
		if b == 0 {
			if a >= 0 {
				r = mask(w)
			} else {
				r = 1
			}
		} else if b == -1 {
			r = uint64(-a)
		} else {
			r = uint64(a / b)
		}
	case TSrem:
		a, b := sgn(x, w), sgn(y, w)
		if b == 0 {
			r = x
		} else if b == -1 {
			r = 0
		} else {
			r = uint64(a % b)
		}
	case TBand:
		r = x & y
	case TBor:
		r = x | y
	case TBxor:
		r = x ^ y
	case TShl:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x << y
		}
	case TLshr:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x >> y
		}
	case TAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sgn(x, w) >> y)
	default:
		panic("evalBV")
	}
	return r & mask(w)
}

func (c *Ctx) Bin(op TOp, a, b *Term) *Term {
	w := a.w
	if a.op == TConst && b.op == TConst {
		return c.Const(w, evalBV(op, w, a.val, b.val))
	}
	switch op {
	case TAdd:
		if a.op == TConst {
			a, b = b, a
		}
		if b.op == TConst && b.val == 0 {
			return a
		}
		if b.op == TConst && a.op == TAdd && a.args[1].op == TConst {
			return c.Bin(TAdd, a.args[0], c.Const(w, a.args[1].val+b.val))
		}
	case TSub:
		if b.op == TConst {
			return c.Bin(TAdd, a, c.Const(w, -b.val))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case TMul:
		if a.op == TConst {
			a, b = b, a
		}
		if b.op == TConst && b.val == 1 {
			return a
		}
		if b.op == TConst && b.val == 0 {
			return b
		}
	case TBand, TBor, TBxor:
		if a.op == TConst {
			a, b = b, a
		}
	}
	if b.op == TConst && a.op == TIte && a.leafs != nil && len(a.leafs) <= 64 {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Bin(op, x, b) })
	}
	return c.mk(op, w, a, b)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == TConst {
		return c.Const(w, a.val)
	}
	if a.op == TZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == TIte && a.leafs != nil {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Zext(x, w) })
	}
	return c.mk(TZext, w, a)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == TConst {
		return c.Const(w, uint64(sgn(a.val, a.w)))
	}
	if a.op == TSext {
		return c.Sext(a.args[0], w)
	}
	if a.op == TZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == TIte && a.leafs != nil {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Sext(x, w) })
	}
	return c.mk(TSext, w, a)
}

func (c *Ctx) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == TConst {
		return c.Const(w, a.val)
	}
	if (a.op == TZext || a.op == TSext) && a.args[0].w >= w {
		return c.Extract(a.args[0], w)
	}
	if a.op == TZext && a.args[0].w < w {
		return c.Zext(a.args[0], w)
	}
	if a.op == TSext && a.args[0].w < w {
		return c.Sext(a.args[0], w)
	}
	if a.op == TIte && a.leafs != nil {
		return c.mapLeafs(a, func(x *Term) *Term { return c.Extract(x, w) })
	}
	return c.mk(TExtract, w, a)
}

// MkPred interns a rune set given as lo,hi,stride triples.
func (c *Ctx) MkPred(tr [][3]uint32) *Pred {
	s := append([][3]uint32{}, tr...)
	sort.Slice(s, func(i, j int) bool { return s[i][0] < s[j][0] })
	key := fmt.Sprint(s)
	if p, ok := c.preds[key]; ok {
		return p
	}
	p := &Pred{id: len(c.predl), key: key, str: s}
	c.preds[key] = p
	c.predl = append(c.predl, p)
	return p
}

func (c *Ctx) ApplyPred(p *Pred, r *Term) *Term {
	if r.op == TConst {
		return c.Bool(p.has(uint32(r.val)))
	}
	if len(p.str) == 0 {
		return c.False
	}
	if r.op == TIte && r.leafs != nil {
		return c.mapLeafs(r, func(x *Term) *Term { return c.ApplyPred(p, x) })
	}
	k := tkey{op: TPred, w: 0, a: r.id, b: -1, c: -1, val: uint64(p.id)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.fresh(&Term{op: TPred, w: 0, args: []*Term{r}, pred: p})
	c.tab[k] = t
	return t
}

// eval evaluates t under model m (indexed by variable number); memo by epoch.
type Evaluator struct {
	m    []uint64
	memo map[int32]uint64
}

func (e *Evaluator) get(v uint64) uint64 {
	if int(v) < len(e.m) {
		return e.m[v]
	}
	return 0
}

func (e *Evaluator) eval(t *Term) uint64 {
	switch t.op {
	case TConst:
		return t.val
	case TVar:
		return e.get(t.val)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case TNot:
		r = 1 - e.eval(t.args[0])
	case TAnd:
		r = 1
		for _, a := range t.args {
			if e.eval(a) == 0 {
				r = 0
				break
			}
		}
	case TOr:
		r = 0
		for _, a := range t.args {
			if e.eval(a) == 1 {
				r = 1
				break
			}
		}
	case TIte:
		if e.eval(t.args[0]) == 1 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	case TEq:
		r = b(e.eval(t.args[0]) == e.eval(t.args[1]))
	case TUlt:
		r = b(e.eval(t.args[0]) < e.eval(t.args[1]))
	case TSlt:
		r = b(sgn(e.eval(t.args[0]), t.args[0].w) < sgn(e.eval(t.args[1]), t.args[0].w))
	case TZext, TExtract:
		r = e.eval(t.args[0]) & mask(t.w)
	case TSext:
		r = uint64(sgn(e.eval(t.args[0]), t.args[0].w)) & mask(t.w)
	case TPred:
		r = b(t.pred.has(uint32(e.eval(t.args[0]))))
	default:
		r = evalBV(t.op, t.w, e.eval(t.args[0]), e.eval(t.args[1]))
	}
	e.memo[t.id] = r
	return r
}

var opNames = map[TOp]string{TNot: "not", TAnd: "and", TOr: "or", TIte: "ite", TEq: "=", TUlt: "bvult", TSlt: "bvslt",
	TAdd: "bvadd", TSub: "bvsub", TMul: "bvmul", TUdiv: "bvudiv", TSdiv: "bvsdiv", TUrem: "bvurem", TSrem: "bvsrem",
	TBand: "bvand", TBor: "bvor", TBxor: "bvxor", TShl: "bvshl", TLshr: "bvlshr", TAshr: "bvashr"}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case TConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case TVar:
		return "v" + fmt.Sprint(t.val)
	}
	return "t" + fmt.Sprint(t.id)
}

func (t *Term) String() string {
	switch t.op {
	case TConst:
		return fmt.Sprint(sgn(t.val, t.w))
	case TVar:
		return t.name
	case TPred:
		return fmt.Sprintf("P%d(%s)", t.pred.id, t.args[0])
	}
	s := fmt.Sprintf("(%d:%s", t.op, opNames[t.op])
	for _, a := range t.args {
		s += " " + a.String()
	}
	return s + ")"
}

var _ = bits.Len
