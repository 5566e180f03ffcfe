package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const (
	retNormal = iota
	retDeferred
	retPanicDefer
	retCatch
	retDrop
)

type deferred struct {
	fn   V // closure
	f    *Func
	args []V
	bi   string
	argT []*TI
}

type Frame struct {
	fn        *Func
	regs      []V
	pc        int
	gen       int
	onRet     int
	defers    []deferred
	panicking bool
	recovered bool
	panicVal  V
	resBind   int
	catchLim  int64
}

func (f *Frame) get(i int32) V {
	if i >= 0 {
		return f.regs[i]
	}
	if i == -1<<30 {
		return V{}
	}
	return f.fn.consts[-i-1]
}

func (f *Frame) clone(gen int) *Frame {
	n := *f
	n.regs = append([]V(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	n.gen = gen
	return &n
}

type trailEnt struct {
	slot *V
	old  V
	mp   *MapV
	ent  *MapEnt
	kind uint8 // 0 slot, 1 map insert, 2 map delete, 3 func
	fn   func()
}

type snapshot struct {
	mord, nmlog int
	stack       []*Frame
	trail       int
	pc          int
	hist        int
	forced      []int
	alts        []int
	altC        []*Term
	model       []uint64
	nsymi       int
	ntr         int
	steps       int64
	reach       int
	nameCnt     map[string]int
	mapID       int
	limit       int64
	mapMode     int
	mapSt       *mapState
}

type pathEnd struct {
	kind string // done, assume, violation, unsupported, steps, unknown
	msg  string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	v    V
	w    uint8
}

type traceEnt struct {
	label string
	v     V
	t     *TI
}

type Machine struct {
	refMemo    []uint64 // generation and result, by term
	refGen     uint64
	mord       int          // number of mergeable calls so far
	mlog       []int        // those that were not merged
	mskip      map[int]bool // those not to merge while replaying
	C          *Compiler
	ctx        *Ctx
	sol        *Solver
	globs      []*V
	stack      []*Frame
	gen        int
	trail      []trailEnt
	trailOn    bool
	pc         []*Term
	model      []uint64
	ev         *Evaluator
	snaps      []*snapshot
	hist       []int
	forcedH    []int
	forced     []int
	nIC        int
	icTrail    int
	icPC       int
	sub        int
	subFail    bool
	steps      int64
	limit      int64
	total      int64
	ret        V
	inputs     []Input
	traces     []traceEnt
	pcIdx      map[int32]int
	imp        []bool
	nameCnt    map[string]int
	cov        map[*Func]int
	covB       map[*Func]map[int]bool
	job        *JobState
	files      map[string]V
	reachC     map[string]int
	mapMode    int
	mapSt      *mapState
	inited     map[*ssa.Package]bool
	concVal    map[int32]uint64
	depthMx    int
	setup      bool
	forks      int64
	merges     int64
	mergeFb    int64
	stop       func() bool
	mapSeq     int
	capture    *V
	noMerge    map[*Func]int
	deadline   time.Time
	trace      bool
	outBuf     []V
	smem       map[string]V
	needModel  bool
	donate     func()
	totalSteps int64
	extCall    *Func
	pending    *pendingCall
	onceDone   map[*V]bool
	shared     *sharedMem
	isolated   bool
}

func NewMachine(c *Compiler, sol []string, timeout int) *Machine {
	ctx := NewCtx()
	m := &Machine{C: c, ctx: ctx, sol: NewSolver(ctx, sol, timeout), cov: map[*Func]int{}, pcIdx: map[int32]int{}, nameCnt: map[string]int{},
		files: map[string]V{}, reachC: map[string]int{}, inited: map[*ssa.Package]bool{}, limit: 1 << 62, noMerge: map[*Func]int{}, covB: map[*Func]map[int]bool{}}
	m.ev = &Evaluator{memo: map[int32]uint64{}}
	return m
}

func (m *Machine) glob(i int) *V {
	for len(m.globs) <= i {
		m.globs = append(m.globs, nil)
	}
	if m.globs[i] == nil {
		m.C.mu.Lock()
		t := m.C.globT[i]
		m.C.mu.Unlock()
		v := zero(t)
		m.globs[i] = &v
		if m.shared != nil && m.C.theirs(i) {
			m.shared.slot(&v)
		}
	}
	return m.globs[i]
}

func (m *Machine) set(slot *V, v V) {
	if m.isolated && m.shared.slots[slot] {
		m.sharedWrite()
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{slot: slot, old: *slot})
	}
	*slot = v
}

// store writes v into slot, keeping the identity of nested aggregates.
func (m *Machine) store(slot *V, v V) {
	if a, ok := v.r.(*Agg); ok {
		d, ok := slot.r.(*Agg)
		if !ok || len(d.f) != len(a.f) {
			m.set(slot, copyVal(v))
			return
		}
		if d == a {
			return
		}
		for i := range a.f {
			m.store(&d.f[i], a.f[i])
		}
		return
	}
	m.set(slot, v)
}

func (m *Machine) undo(to int) {
	for i := len(m.trail) - 1; i >= to; i-- {
		e := &m.trail[i]
		switch e.kind {
		case 0:
			*e.slot = e.old
		case 1:
			e.mp.ents = e.mp.ents[:len(e.mp.ents)-1]
			e.mp.live--
			e.mp.drop(e.ent)
		case 2:
			e.ent.dead = false
			e.mp.live++
			e.mp.readd(e.ent)
		case 3:
			e.fn()
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:to]
}

func (mp *MapV) drop(e *MapEnt) {
	if e.hkNil {
		delete(mp.idx, e.hk)
		return
	}
	mp.nsym--
}

// ---- choice ----

func (m *Machine) setModelVals(vals map[int32]uint64) {
	n := append([]uint64(nil), m.model...)
	for v, x := range vals {
		for len(n) <= int(v) {
			n = append(n, 0)
		}
		n[v] = x
	}
	m.model = n
	m.ev.m = n
	m.ev.memo = map[int32]uint64{}
}

func (m *Machine) restoreModel(mod []uint64) {
	m.model = mod
	m.ev.m = mod
	m.ev.memo = map[int32]uint64{}
}

func (m *Machine) addPC(c *Term) { m.addFact(c, false) }

// addFact adds a conjunct; implied says that the path condition entails it.
func (m *Machine) addFact(c *Term, implied bool) {
	if c.isTrue() {
		return
	}
	if c.op == TAnd {
		for _, a := range c.args {
			m.addFact(a, implied)
		}
		return
	}
	if c.op == TNot && c.args[0].op == TOr {
		for _, a := range c.args[0].args {
			m.addFact(m.ctx.Not(a), implied)
		}
		return
	}
	if m.inPC(c) {
		return
	}
	m.pcIdx[c.id] = len(m.pc)
	m.imp = append(m.imp[:len(m.pc)], implied)
	m.pc = append(m.pc, c)
}

// hard is the path condition without the conjuncts that follow from others.
func (m *Machine) hard(from int) []*Term {
	out := make([]*Term, 0, len(m.pc)-from)
	for i := from; i < len(m.pc); i++ {
		if !m.imp[i] {
			out = append(out, m.pc[i])
		}
	}
	return out
}

// inPC says whether c is one of the conjuncts of the path condition.
func (m *Machine) inPC(c *Term) bool {
	i, ok := m.pcIdx[c.id]
	return ok && i < len(m.pc) && m.pc[i] == c
}

// refuted says whether the path condition contradicts c by conjuncts seen to
// do so before, or by the trichotomy of an order on two terms.
func (m *Machine) refuted(c *Term) bool {
	m.refGen++
	if m.refuted1(c) {
		return true
	}
	// disjunctions of which one disjunct is left
	n := len(m.pc)
	for i := 0; i < n; i++ {
		p := m.pc[i]
		neg := p.op == TNot && p.args[0].op == TAnd
		ds := p.args
		if neg {
			ds = p.args[0].args
		} else if p.op != TOr {
			continue
		}
		var last *Term
		open := 0
		for _, d := range ds {
			if neg {
				d = m.ctx.Not(d)
			}
			if !m.refuted1(d) {
				last = d
				open++
			}
		}
		if open == 1 && !m.inPC(last) {
			m.addFact(last, true)
			m.refGen++
		}
	}
	return len(m.pc) > n && m.refuted1(c)
}

// refuted1 is refuted2, worked out once per term.
func (m *Machine) refuted1(c *Term) bool {
	if c.isFalse() {
		return true
	}
	if int(c.id) >= len(m.refMemo) {
		m.refMemo = append(m.refMemo, make([]uint64, int(c.id)+1024-len(m.refMemo))...)
	}
	if v := m.refMemo[c.id]; v>>1 == m.refGen {
		return v&1 == 1
	}
	r := m.refuted2(c)
	v := m.refGen << 1
	if r {
		v |= 1
	}
	m.refMemo[c.id] = v
	return r
}

func (m *Machine) refuted2(c *Term) bool {
	if m.inPC(m.ctx.Not(c)) {
		return true
	}
	neg := c.op == TNot
	op, args := c.op, c.args
	if neg {
		op, args = c.args[0].op, c.args[0].args
	}
	if op == TAnd || op == TOr {
		any := (op == TAnd) != neg
		all := true
		for _, a := range args {
			if neg {
				a = m.ctx.Not(a)
			}
			r := m.refuted1(a)
			if r && any {
				return true
			}
			all = all && r
		}
		if any {
			return false
		}
		if all {
			return true
		}
	}
	b := c
	if b.op == TNot {
		b = b.args[0]
	}
	switch b.op {
	case TEq, TSlt, TUlt:
		x, y := b.args[0], b.args[1]
		if x.op == TConst || y.op == TConst || x.w == 0 {
			break
		}
		if m.orderRefutes(b.op, x, y, c != b) {
			return true
		}
	}
	for _, set := range m.sol.unsat[c.id] {
		all := true
		for _, t := range set {
			if !m.inPC(t) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// feasible decides pc /\ c; on success vals holds an adjustment of the model
// (nil: the current model already satisfies c).
func (m *Machine) feasible(c *Term) (SatRes, map[int32]uint64) {
	if c.isTrue() {
		return Sat, nil
	}
	if c.isFalse() {
		return Unsat, nil
	}
	if m.needModel {
		m.fixModel()
	}
	if m.ev.eval(c) == 1 {
		m.sol.ModelHi++
		return Sat, nil
	}
	if m.refuted(c) {
		m.sol.Cached++
		return Unsat, nil
	}
	return m.sol.Check(m.hard(0), c)
}

// orderRefutes says whether the comparisons in the path condition contradict
// x op y, or its negation, by transitivity.
func (m *Machine) orderRefutes(op TOp, x, y *Term, neg bool) bool {
	lt := TSlt
	if op == TUlt {
		lt = TUlt
	}
	// reach is 2 when a chain of comparisons makes a < b, 1 when a <= b
	reach := func(a, b *Term) int {
		best := map[int32]int{a.id: 1}
		work := []*Term{a}
		for len(work) > 0 {
			u := work[0]
			work = work[1:]
			d := best[u.id]
			step := func(v *Term, strict bool) {
				n := d
				if strict {
					n = 2
				}
				if best[v.id] < n {
					best[v.id] = n
					work = append(work, v)
				}
			}
			for _, p := range m.pc {
				switch {
				case p.op == lt && p.args[0] == u:
					step(p.args[1], true)
				case p.op == TEq && p.args[0].w > 0 && p.args[0] == u:
					step(p.args[1], false)
				case p.op == TEq && p.args[0].w > 0 && p.args[1] == u:
					step(p.args[0], false)
				case p.op == TNot && p.args[0].op == lt && p.args[0].args[1] == u:
					v := p.args[0].args[0]
					step(v, m.inPC(m.ctx.Not(m.ctx.Eq(u, v))))
				}
			}
		}
		return best[b.id]
	}
	switch {
	case op == TEq && !neg:
		return reach(x, y) == 2 || reach(y, x) == 2
	case op == TEq:
		return reach(x, y) > 0 && reach(y, x) > 0
	case !neg:
		return reach(y, x) > 0
	default:
		return reach(x, y) == 2
	}
}

// choose picks one of the alternatives whose condition is feasible; the others
// are explored later. Conditions must be exhaustive and disjoint (or free).
func (m *Machine) choose(conds []*Term) int {
	// constants first
	for i, c := range conds {
		if c.isTrue() && len(conds) > 1 {
			free := 0
			for _, d := range conds {
				if d.isTrue() {
					free++
				}
			}
			if free == 1 {
				return i
			}
		}
	}
	if m.nIC == 0 {
		m.icTrail = len(m.trail)
		m.icPC = len(m.pc)
	}
	if m.nIC < len(m.forced) {
		d := m.forced[m.nIC]
		m.nIC++
		return m.take(conds, d)
	}
	if m.sub == 0 && len(m.hist) < len(m.forcedH) {
		// replay of a decision prefix handed over by another worker
		d := m.forcedH[len(m.hist)]
		m.hist = append(m.hist, d)
		m.forced = append(m.forced, d)
		m.nIC++
		if d >= 0 && m.ev.eval(conds[d]) != 1 {
			r, vals := m.sol.Check(m.hard(0), conds[d])
			if r != Sat {
				panic(pathEnd{"unknown", "replayed prefix not satisfiable"})
			}
			m.setModelVals(vals)
		}
		return m.take(conds, d)
	}
	if m.needModel {
		m.fixModel()
	}
	if m.stop != nil && m.stop() {
		panic(pathEnd{"stopped", ""})
	}
	var feas []int
	var vals []map[int32]uint64
	first := -1
	for i, c := range conds {
		r, v := m.feasible(c)
		switch r {
		case Unknown:
			panic(pathEnd{"unknown", "solver gave no answer at a branch"})
		case Sat:
			feas = append(feas, i)
			vals = append(vals, v)
			if v == nil && first < 0 {
				first = len(feas) - 1
			}
		}
	}
	if len(feas) == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if first < 0 || m.sub > 0 {
		first = 0 // in a joined call the order must not depend on the model
	}
	d := feas[first]
	if len(feas) > 1 {
		m.forks++
		if forkSites != nil {
			forkMu.Lock()
			forkSites[m.where()]++
			forkMu.Unlock()
		}
		sn := &snapshot{trail: m.icTrail, pc: m.icPC, hist: len(m.hist), mord: m.mord, nmlog: len(m.mlog), forced: append([]int(nil), m.forced...), steps: m.steps, mapID: m.mapSeq, nsymi: len(m.inputs), ntr: len(m.traces), limit: m.limit, mapMode: m.mapMode, mapSt: m.mapSt}
		for i, a := range feas {
			if i != first {
				sn.alts = append(sn.alts, a)
				sn.altC = append(sn.altC, conds[a])
			}
		}
		sn.stack = append([]*Frame(nil), m.stack...)
		if n := len(sn.stack); n > 0 {
			top := m.stack[n-1]
			sn.stack[n-1] = top.clone(-1)
			m.gen++
			top.gen = m.gen
		}
		sn.model = m.model
		sn.nameCnt = m.nameCnt
		m.nameCnt = copyCnt(m.nameCnt)
		m.snaps = append(m.snaps, sn)
		if m.donate != nil && m.sub == 0 {
			m.donate()
		}
	}
	rec := d
	if len(feas) == 1 {
		rec = ^d // follows from the path condition
	}
	if m.sub == 0 {
		m.hist = append(m.hist, rec)
	}
	m.forced = append(m.forced, rec)
	m.nIC++
	if vals[first] != nil {
		m.setModelVals(vals[first])
	}
	return m.take(conds, rec)
}

// take adds the condition of a recorded decision.
func (m *Machine) take(conds []*Term, rec int) int {
	if rec < 0 {
		m.addFact(conds[^rec], true)
		return ^rec
	}
	m.addPC(conds[rec])
	return rec
}

func copyCnt(a map[string]int) map[string]int {
	b := make(map[string]int, len(a))
	for k, v := range a {
		b[k] = v
	}
	return b
}

// backtrack resumes the most recent pending alternative; false when none is left.
func (m *Machine) backtrack() bool {
	for len(m.snaps) > 0 {
		sn := m.snaps[len(m.snaps)-1]
		d := sn.alts[0]
		c := sn.altC[0]
		sn.alts, sn.altC = sn.alts[1:], sn.altC[1:]
		last := len(sn.alts) == 0
		if last {
			m.snaps = m.snaps[:len(m.snaps)-1]
		}
		m.undo(sn.trail)
		m.pc = m.pc[:sn.pc]
		m.gen++
		m.stack = append(m.stack[:0:0], sn.stack...)
		if n := len(m.stack); n > 0 {
			m.stack[n-1] = sn.stack[n-1].clone(m.gen)
		}
		if m.sub == 0 {
			m.hist = append(m.hist[:sn.hist:sn.hist], d)
		}
		m.forced = append(append([]int(nil), sn.forced...), d)
		m.nIC = 0
		m.steps = sn.steps
		m.mapSeq = sn.mapID
		m.limit, m.mapMode, m.mapSt = sn.limit, sn.mapMode, sn.mapSt
		m.inputs = m.inputs[:sn.nsymi]
		m.traces = m.traces[:sn.ntr]
		if m.sub == 0 {
			m.mord, m.mlog = sn.mord, m.mlog[:sn.nmlog:sn.nmlog]
		}
		m.nameCnt = copyCnt(sn.nameCnt)
		m.restoreModel(sn.model)
		// a model for pc /\ earlier forced conditions /\ c is recomputed: the
		// earlier forced conditions of this instruction are re-added on replay.
		if m.ev.eval(c) != 1 {
			r, vals := m.sol.Check(m.hard(0), c)
			if len(sn.forced) > 0 {
				// other decisions of the same instruction constrain too; let the
				// replay re-establish them
				m.forcedModel(c)
			} else if r == Sat {
				m.setModelVals(vals)
			} else {
				continue
			}
		}
		return true
	}
	return false
}

// forcedModel marks that the model must be recomputed after the forced
// decisions of the current instruction have been replayed.
func (m *Machine) forcedModel(c *Term) { m.modelDirty() }

func (m *Machine) modelDirty() { m.needModel = true }

// ---- top frame ----

func (m *Machine) push(fn *Func, args []V, bind []V, onRet int) *Frame {
	m.C.ensure(fn)
	if fn.code == nil {
		panic(unsupported("call of external " + fn.name))
	}
	if len(m.stack) > 20000 {
		panic(pathEnd{"steps", "stack depth in " + fn.name})
	}
	f := &Frame{fn: fn, regs: make([]V, fn.nregs), gen: m.gen, onRet: onRet}
	copy(f.regs, args)
	copy(f.regs[fn.params:], bind)
	m.stack = append(m.stack, f)
	if len(m.stack) > m.depthMx {
		m.depthMx = len(m.stack)
	}
	m.cov[fn]++
	return f
}

func (m *Machine) owned() *Frame {
	n := len(m.stack) - 1
	f := m.stack[n]
	if f.gen != m.gen {
		f = f.clone(m.gen)
		m.stack[n] = f
	}
	return f
}

func (m *Machine) result(rs []V) V {
	switch len(rs) {
	case 0:
		return V{}
	case 1:
		return rs[0]
	}
	return V{r: &Agg{rs}}
}

// doReturn pops the top frame and delivers val.
func (m *Machine) doReturn(val V) {
	f := m.stack[len(m.stack)-1]
	m.stack = m.stack[:len(m.stack)-1]
	if len(m.stack) == 0 {
		m.ret = val
		return
	}
	c := m.owned()
	switch f.onRet {
	case retNormal:
		c.regs[c.fn.code[c.pc].dst] = val
		c.pc++
	case retDrop:
		c.pc++
	case retDeferred:
		// RunDefers executes again
	case retPanicDefer:
		if c.recovered {
			c.recovered = false
			c.panicking = false
			if c.fn.recover != nil {
				c.pc = c.fn.recover.pc
				return
			}
			m.doReturn(zeroRes(c.fn.res))
			return
		}
		m.unwind(c.panicVal)
	case retCatch:
		c.regs[c.fn.code[c.pc].dst] = intV(0)
		m.endCatch(f)
		c.pc++
	}
}

func (m *Machine) endCatch(f *Frame) {
	m.limit = f.catchLim
}

func zeroRes(t *TI) V {
	switch len(t.fields) {
	case 0:
		return V{}
	case 1:
		return zero(t.fields[0])
	}
	return zero(t)
}

func (m *Machine) unwind(val V) {
	for {
		if len(m.stack) == 0 {
			panic(pathEnd{"panic", m.panicText(val)})
		}
		c := m.owned()
		c.panicking = true
		c.panicVal = val
		if n := len(c.defers); n > 0 {
			d := c.defers[n-1]
			c.defers = c.defers[:n-1]
			m.callDeferred(d, retPanicDefer)
			return
		}
		m.stack = m.stack[:len(m.stack)-1]
		if len(m.stack) > 0 && c.onRet == retCatch {
			k := m.owned()
			k.regs[k.fn.code[k.pc].dst] = intV(1)
			m.setSmem("panic", str(m.panicText(val)))
			m.endCatch(c)
			k.pc++
			return
		}
	}
}

func (m *Machine) setSmem(k string, v V) {
	if m.smem == nil {
		m.smem = map[string]V{}
	}
	m.smem[k] = v
}

func (m *Machine) panicText(v V) string {
	i, ok := v.r.(*Iface)
	if !ok {
		return "nil"
	}
	switch i.t.kind {
	case kString:
		if s, ok := i.v.r.(string); ok {
			return s
		}
		return "symbolic string"
	case kInt:
		return fmt.Sprint(int64(i.v.n))
	case kPtr, kStruct:
		return "value of type " + i.t.String()
	}
	return "value of type " + i.t.String()
}

func (m *Machine) exit(code V) {
	for n := len(m.stack) - 1; n >= 0; n-- {
		if f := m.stack[n]; f.onRet == retCatch && n > 0 {
			m.stack = m.stack[:n]
			k := m.owned()
			k.regs[k.fn.code[k.pc].dst] = intV(2)
			m.endCatch(f)
			m.setSmem("exit", intV(int(int64(code.n))))
			k.pc++
			return
		}
	}
	panic(pathEnd{"exit", fmt.Sprintf("os.Exit(%d)", int64(code.n))})
}

func (m *Machine) callDeferred(d deferred, onRet int) {
	if d.bi != "" {
		panic(unsupported("deferred builtin " + d.bi))
	}
	f, bind := d.f, []V(nil)
	if f == nil {
		cl := d.fn.r.(*Closure)
		f, bind = cl.fn, cl.bind
	}
	if f.redirect != nil {
		f = f.redirect
	}
	if f.ext != nil {
		f.ext(m, d.args)
		if onRet == retPanicDefer {
			m.unwind(m.stack[len(m.stack)-1].panicVal)
		}
		return
	}
	m.push(f, d.args, bind, onRet)
}

func (m *Machine) rtPanic(msg string) {
	t := tiOf(types.Typ[types.String])
	m.unwind(V{r: &Iface{t: t, v: str("runtime error: " + msg)}})
}

// ---- terms ----

func (m *Machine) term(v V, t *TI) *Term {
	if x, ok := v.r.(*Term); ok {
		return x
	}
	if t.kind == kBool {
		return m.ctx.Bool(v.n != 0)
	}
	return m.ctx.Const(t.w, v.n)
}

func (m *Machine) fromTerm(x *Term, t *TI) V {
	if x.op == TConst {
		if x.w == 0 {
			return V{n: x.val}
		}
		if t.signed {
			return V{n: uint64(sgn(x.val, x.w))}
		}
		return V{n: x.val}
	}
	return V{r: x}
}

func wrap(n uint64, t *TI) uint64 {
	if t.w >= 64 || t.w == 0 {
		return n
	}
	if t.signed {
		return uint64(sgn(n, t.w))
	}
	return n & mask(t.w)
}

var runeTI = tiOf(types.Typ[types.Int32])
var intTI = tiOf(types.Typ[types.Int])
var boolTI = tiOf(types.Typ[types.Bool])
var byteTI = tiOf(types.Typ[types.Uint8])
var stringTI = tiOf(types.Typ[types.String])

// concretize returns a concrete value for v, forking over its feasible values.
func (m *Machine) concretize(v V, t *TI) uint64 {
	x, ok := v.r.(*Term)
	if !ok {
		return v.n
	}
	if x.w == 0 {
		return uint64(1 - m.choose([]*Term{x, m.ctx.Not(x)}))
	}
	var vals []uint64
	if x.leafs != nil {
		vals = x.leafs
	} else {
		// enumerate by solver
		pcs := m.hard(0)
		for len(vals) < 300 {
			// a model of pcs: ask with a trivially true but connected query
			r, mod := m.sol.query(append(slice(pcs, []*Term{x}), m.ctx.Not(m.ctx.False)))
			if r == Unknown {
				panic(pathEnd{"unknown", "concretize"})
			}
			if r == Unsat {
				break
			}
			ev := &Evaluator{memo: map[int32]uint64{}, m: append([]uint64(nil), m.model...)}
			for k, y := range mod {
				for len(ev.m) <= int(k) {
					ev.m = append(ev.m, 0)
				}
				ev.m[k] = y
			}
			val := ev.eval(x)
			vals = append(vals, val)
			pcs = append(pcs, m.ctx.Not(m.ctx.Eq(x, m.ctx.Const(x.w, val))))
		}
		if len(vals) >= 300 {
			panic(unsupported("more than 300 values to concretize"))
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	}
	conds := make([]*Term, len(vals))
	for i, y := range vals {
		conds[i] = m.ctx.Eq(x, m.ctx.Const(x.w, y))
	}
	y := vals[m.choose(conds)]
	if t.signed {
		return uint64(sgn(y, x.w))
	}
	return y
}

func (m *Machine) branch(v V) bool {
	x, ok := v.r.(*Term)
	if !ok {
		return v.n != 0
	}
	return m.choose([]*Term{x, m.ctx.Not(x)}) == 0
}

// eq builds the equality of two values of type t.
func (m *Machine) eq(a, b V, t *TI) *Term {
	switch t.kind {
	case kBool, kInt:
		if a.r == nil && b.r == nil {
			return m.ctx.Bool(a.n == b.n)
		}
		return m.ctx.Eq(m.term(a, t), m.term(b, t))
	case kFloat:
		return m.ctx.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
	case kString:
		x, xok := a.r.(string)
		y, yok := b.r.(string)
		if a.r == nil {
			xok = true
		}
		if b.r == nil {
			yok = true
		}
		if xok && yok {
			return m.ctx.Bool(x == y)
		}
		e, f := strElems(a), strElems(b)
		if len(e) != len(f) {
			return m.ctx.False
		}
		ts := make([]*Term, 0, len(e))
		for i := range e {
			c := m.eq(e[i], f[i], runeTI)
			if c.isFalse() {
				return c
			}
			ts = append(ts, c)
		}
		return m.ctx.And(ts...)
	case kPtr:
		if a.r == nil || b.r == nil {
			return m.ctx.Bool(a.r == nil && b.r == nil)
		}
		return m.ctx.Bool(a.r.(*V) == b.r.(*V))
	case kStruct:
		x, y := a.r.(*Agg), b.r.(*Agg)
		var ts []*Term
		for i := range x.f {
			ts = append(ts, m.eq(x.f[i], y.f[i], t.fields[i]))
		}
		return m.ctx.And(ts...)
	case kArray:
		x, y := a.r.(*Agg), b.r.(*Agg)
		var ts []*Term
		for i := range x.f {
			ts = append(ts, m.eq(x.f[i], y.f[i], t.elem))
		}
		return m.ctx.And(ts...)
	case kIface:
		if a.r == nil || b.r == nil {
			return m.ctx.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return m.ctx.False
		}
		return m.eq(x.v, y.v, x.t)
	case kSlice:
		return m.ctx.Bool((a.r == nil) == (b.r == nil) && (a.r == nil || a.r.(*Slice).a == nil))
	case kMap:
		return m.ctx.Bool(a.r == nil && b.r == nil)
	case kFunc:
		return m.ctx.Bool(a.r == nil && b.r == nil)
	}
	panic(unsupported("equality of " + t.String()))
}

func (m *Machine) strLess(a, b V) *Term {
	x, xok := a.r.(string)
	y, yok := b.r.(string)
	if xok && yok {
		return m.ctx.Bool(x < y)
	}
	e, f := strElems(a), strElems(b)
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i >= len(f) {
			return m.ctx.False
		}
		if i >= len(e) {
			return m.ctx.True
		}
		p, q := m.term(e[i], runeTI), m.term(f[i], runeTI)
		return m.ctx.Or(m.ctx.Ult(p, q), m.ctx.And(m.ctx.Eq(p, q), rec(i+1)))
	}
	return rec(0)
}

// ---- strings ----

// runeSize forks on the encoded size of a symbolic rune.
func (m *Machine) runeSize(v V) int {
	x, ok := v.r.(*Term)
	if !ok {
		if v.n >= 0x110000 {
			return 1
		}
		return utf8.RuneLen(rune(v.n))
	}
	c := m.ctx
	k := func(n uint64) *Term { return c.Const(32, n) }
	return 1 + m.choose([]*Term{
		c.Ult(x, k(0x80)),
		c.And(c.Not(c.Ult(x, k(0x80))), c.Ult(x, k(0x800))),
		c.And(c.Not(c.Ult(x, k(0x800))), c.Ult(x, k(0x10000))),
		c.Not(c.Ult(x, k(0x10000)))})
}

func (m *Machine) strLen(v V) int {
	switch s := v.r.(type) {
	case string:
		return len(s)
	case nil:
		return 0
	case *SymStr:
		n := 0
		for _, e := range s.e {
			n += m.runeSize(e)
		}
		return n
	}
	panic("strLen")
}

// strBytes gives the bytes of a string as 8-bit values.
// concByte is a known byte of a known string.
func concByte(s, i V) (V, bool) {
	if k, ok := s.r.(string); ok {
		if i.r == nil && i.n < uint64(len(k)) {
			return V{n: uint64(k[i.n])}, true
		}
	}
	return V{}, false
}

func (m *Machine) strBytes(v V) []V {
	switch s := v.r.(type) {
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = V{n: uint64(s[i])}
		}
		return out
	case nil:
		return nil
	case *SymStr:
		var out []V
		c := m.ctx
		for _, e := range s.e {
			x, ok := e.r.(*Term)
			if !ok {
				if e.n >= 0x110000 {
					out = append(out, V{n: e.n - 0x110000})
					continue
				}
				for _, b := range []byte(string(rune(e.n))) {
					out = append(out, V{n: uint64(b)})
				}
				continue
			}
			cut := func(n int, shift, and, or uint64) {
				t := c.Bin(TLshr, x, c.Const(32, shift))
				t = c.Bin(TBor, c.Bin(TBand, t, c.Const(32, and)), c.Const(32, or))
				b := m.fromTerm(c.Extract(t, 8), byteTI)
				if bt, ok := b.r.(*Term); ok {
					c.cuts[bt] = cutByte{x, n}
				}
				out = append(out, b)
			}
			switch m.runeSize(e) {
			case 1:
				out = append(out, m.fromTerm(c.Extract(x, 8), byteTI))
			case 2:
				cut(2, 6, 0x1f, 0xc0)
				cut(2, 0, 0x3f, 0x80)
			case 3:
				cut(3, 12, 0xf, 0xe0)
				cut(3, 6, 0x3f, 0x80)
				cut(3, 0, 0x3f, 0x80)
			case 4:
				cut(4, 18, 0x7, 0xf0)
				cut(4, 12, 0x3f, 0x80)
				cut(4, 6, 0x3f, 0x80)
				cut(4, 0, 0x3f, 0x80)
			}
		}
		return out
	}
	panic("strBytes")
}

// bytesStr makes a string from bytes; symbolic bytes must be ASCII.
func (m *Machine) bytesStr(bs []V) V {
	conc := true
	for _, b := range bs {
		if b.r != nil {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(bs))
		for i, b := range bs {
			x[i] = byte(b.n)
		}
		return str(string(x))
	}
	var out []V
	for i := 0; i < len(bs); {
		if bs[i].r == nil {
			j := i
			var x []byte
			for j < len(bs) && bs[j].r == nil {
				x = append(x, byte(bs[j].n))
				j++
			}
			out = append(out, runesOf(string(x))...)
			i = j
			continue
		}
		t := bs[i].r.(*Term)
		if k, ok := m.ctx.cuts[t]; ok && i+k.n <= len(bs) {
			// all bytes of a rune?
			e := m.strBytes(V{r: &SymStr{[]V{{r: k.x}}}})
			ok = len(e) == k.n
			for j := 0; ok && j < k.n; j++ {
				ok = bs[i+j] == e[j]
			}
			if ok {
				out = append(out, V{r: k.x})
				i += k.n
				continue
			}
		}
		// recover the rune this byte was cut from, when it is one
		if t.op == TExtract && t.args[0].w == 32 && m.choose([]*Term{m.ctx.Ult(t.args[0], m.ctx.Const(32, 0x80)), m.ctx.Not(m.ctx.Ult(t.args[0], m.ctx.Const(32, 0x80)))}) == 0 {
			out = append(out, V{r: t.args[0]})
			i++
			continue
		}
		if m.choose([]*Term{m.ctx.Ult(t, m.ctx.Const(8, 0x80)), m.ctx.Not(m.ctx.Ult(t, m.ctx.Const(8, 0x80)))}) != 0 {
			panic(unsupported("string from symbolic non-ASCII bytes"))
		}
		out = append(out, V{r: m.ctx.Zext(t, 32)})
		i++
	}
	return mkStr(out)
}

// validRune maps an arbitrary rune to what string(r) holds.
func (m *Machine) validRune(v V) V {
	x, ok := v.r.(*Term)
	if !ok {
		r := rune(int32(uint32(v.n)))
		if int64(v.n) != int64(r) || !utf8.ValidRune(r) {
			r = 0xFFFD
		}
		return V{n: uint64(r)}
	}
	c := m.ctx
	k := func(n uint64) *Term { return c.Const(32, n) }
	ok1 := c.Or(c.Ult(x, k(0xD800)), c.And(c.Not(c.Ult(x, k(0xE000))), c.Ult(x, k(0x110000))))
	if m.choose([]*Term{ok1, c.Not(ok1)}) == 0 {
		return v
	}
	return V{n: 0xFFFD}
}

func (m *Machine) tupleOf(vs ...V) V { return V{r: &Agg{vs}} }

// ---- the instruction loop ----

func (m *Machine) run() {
	for len(m.stack) > 0 {
		m.steps++
		m.totalSteps++
		if m.steps&0x3ff == 0 {
			if m.steps > m.limit {
				m.stepLimit()
				continue
			}
			if !m.deadline.IsZero() && time.Now().After(m.deadline) {
				panic(pathEnd{"stopped", "time"})
			}
		}
		f := m.stack[len(m.stack)-1]
		ins := &f.fn.code[f.pc]
		m.nIC = 0
		if m.trace {
			fmt.Fprintf(os.Stderr, "%s:%d op%d\n", f.fn.name, f.pc, ins.op)
		}
		m.exec(f, ins)
		if len(m.forced) > 0 {
			m.forced = m.forced[:0:0]
			if m.needModel {
				m.fixModel()
			}
		}
	}
}

func (m *Machine) fixModel() {
	m.needModel = false
	for _, c := range m.pc {
		if m.ev.eval(c) != 1 {
			r, vals := m.sol.query(m.hard(0))
			if r != Sat {
				panic(pathEnd{"unknown", "model repair"})
			}
			m.setModelVals(vals)
			return
		}
	}
}

func (m *Machine) stepLimit() {
	for n := len(m.stack) - 1; n > 0; n-- {
		if f := m.stack[n]; f.onRet == retCatch {
			m.stack = m.stack[:n]
			k := m.owned()
			k.regs[k.fn.code[k.pc].dst] = intV(3)
			m.endCatch(f)
			k.pc++
			return
		}
	}
	panic(pathEnd{"steps", "step limit"})
}

func (m *Machine) jump(f *Frame, e *edge) {
	if n := len(e.phiD); n > 0 {
		if n == 1 {
			f.regs[e.phiD[0]] = f.get(e.phiS[0])
		} else {
			var buf [8]V
			tmp := buf[:0]
			for _, s := range e.phiS {
				tmp = append(tmp, f.get(s))
			}
			for i, d := range e.phiD {
				f.regs[d] = tmp[i]
			}
		}
	}
	f.pc = e.pc
}

func (m *Machine) exec(f *Frame, ins *Instr) {
	switch ins.op {
	case oGlobal:
		f.regs[ins.dst] = V{r: m.glob(int(ins.a))}
	case oAlloc:
		v := zero(ins.t)
		f.regs[ins.dst] = V{r: &v}
	case oLoad:
		p, ok := f.get(ins.a).r.(*V)
		if !ok || p == nil {
			if t, ok := f.get(ins.a).r.(*loadTerm); ok {
				f.regs[ins.dst] = t.v
				break
			}
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		f.regs[ins.dst] = copyVal(*p)
	case oStore:
		p, ok := f.get(ins.a).r.(*V)
		if !ok || p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		m.store(p, f.get(ins.b))
	case oMove:
		f.regs[ins.dst] = f.get(ins.a)
	case oBin:
		v, ok := m.binop(ins, f.get(ins.a), f.get(ins.b))
		if !ok {
			return
		}
		f.regs[ins.dst] = v
	case oIf:
		v := f.get(ins.a)
		var t bool
		if v.r == nil {
			t = v.n != 0
		} else {
			t = m.branch(v)
		}
		if t {
			m.jump(f, ins.e0)
		} else {
			m.jump(f, ins.e1)
		}
		return
	case oJump:
		m.jump(f, ins.e0)
		return
	case oFieldAddr:
		p, ok := f.get(ins.a).r.(*V)
		if !ok || p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		f.regs[ins.dst] = V{r: &p.r.(*Agg).f[ins.b]}
	case oField:
		f.regs[ins.dst] = f.get(ins.a).r.(*Agg).f[ins.b]
	case oExtract:
		f.regs[ins.dst] = f.get(ins.a).r.(*Agg).f[ins.b]
	case oIndexAddr:
		x := f.get(ins.a)
		var a []V
		switch r := x.r.(type) {
		case *V:
			a = r.r.(*Agg).f
		case *Slice:
			a = r.a
		case nil:
			if ins.t.kind == kPtr {
				m.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
		}
		iv := f.get(ins.b)
		if t, ok := iv.r.(*Term); ok {
			if ins.flag && len(a) > 0 && len(a) <= 128 && allScalar(a) {
				in := m.inRange(t, len(a), ins.t2)
				if !m.branch(m.fromTerm(in, boolTI)) {
					m.rtPanic("index out of range")
					return
				}
				et := ins.t.elem
				if et == nil || ins.t.kind == kPtr {
					et = ins.t.elem.elem
				}
				if et.kind == kInt || et.kind == kBool {
					f.regs[ins.dst] = V{r: &loadTerm{m.selectTerm(t, a, et)}}
					break
				}
			}
			in := m.inRange(t, len(a), ins.t2)
			if !m.branch(m.fromTerm(in, boolTI)) {
				m.rtPanic("index out of range")
				return
			}
			iv = V{n: m.concretize(iv, ins.t2)}
		}
		if iv.n >= uint64(len(a)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), len(a)))
			return
		}
		f.regs[ins.dst] = V{r: &a[iv.n]}
	case oIndex:
		x := f.get(ins.a)
		var a []V
		if ins.t.kind == kString {
			if v, ok := concByte(x, f.get(ins.b)); ok {
				f.regs[ins.dst] = v
				break
			}
			a = m.strBytes(x)
		} else {
			a = x.r.(*Agg).f
		}
		iv := f.get(ins.b)
		if t, ok := iv.r.(*Term); ok {
			in := m.inRange(t, len(a), ins.t2)
			if !m.branch(m.fromTerm(in, boolTI)) {
				m.rtPanic("index out of range")
				return
			}
			iv = V{n: m.concretize(iv, ins.t2)}
		}
		if iv.n >= uint64(len(a)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), len(a)))
			return
		}
		f.regs[ins.dst] = a[iv.n]
	case oMakeIface:
		f.regs[ins.dst] = V{r: &Iface{ins.t, f.get(ins.a)}}
	case oMakeMap:
		m.mapSeq++
		f.regs[ins.dst] = V{r: &MapV{idx: map[any]*MapEnt{}, id: m.mapSeq}}
	case oMakeSlice:
		l, c := int64(m.concretize(f.get(ins.a), intTI)), int64(m.concretize(f.get(ins.b), intTI))
		if l < 0 || l > c || c > 1<<26 {
			m.rtPanic("makeslice: len out of range")
			return
		}
		a := make([]V, c)
		z := ins.t.elem
		if z.kind == kStruct || z.kind == kArray || z.kind == kString {
			for i := range a {
				a[i] = zero(z)
			}
		}
		f.regs[ins.dst] = V{r: &Slice{a[:l]}}
	case oMakeClosure:
		ci := ins.x.(*callInfo)
		bind := make([]V, len(ci.args))
		for i, a := range ci.args {
			bind[i] = f.get(a)
		}
		f.regs[ins.dst] = V{r: &Closure{fn: ci.fn, bind: bind}}
	case oMapUpdate:
		mp, ok := f.get(ins.a).r.(*MapV)
		if !ok {
			m.rtPanic("assignment to entry in nil map")
			return
		}
		m.mapSet(mp, ins.t, f.get(ins.b), f.get(ins.c))
	case oLookup:
		if ins.t.kind == kString {
			if v, ok := concByte(f.get(ins.a), f.get(ins.b)); ok {
				f.regs[ins.dst] = v
				break
			}
			bs := m.strBytes(f.get(ins.a))
			iv := f.get(ins.b)
			if t, ok := iv.r.(*Term); ok {
				in := m.inRange(t, len(bs), ins.t2)
				if !m.branch(m.fromTerm(in, boolTI)) {
					m.rtPanic("index out of range")
					return
				}
				iv = V{n: m.concretize(iv, ins.t2)}
			}
			if iv.n >= uint64(len(bs)) {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), len(bs)))
				return
			}
			f.regs[ins.dst] = bs[iv.n]
			break
		}
		var v V
		ok := V{}
		if mp, isM := f.get(ins.a).r.(*MapV); isM {
			v, ok = m.mapGet(mp, ins.t, f.get(ins.b), ins.flag)
		} else {
			v = zero(ins.t.elem)
		}
		if ins.flag {
			f.regs[ins.dst] = m.tupleOf(v, ok)
		} else {
			f.regs[ins.dst] = v
		}
	case oRange:
		x := f.get(ins.a)
		if ins.t.kind == kString {
			it := &StrIter{}
			if s, ok := x.r.(*SymStr); ok {
				it.e = s.e
				it.s = x
			} else {
				it.conc, _ = x.r.(string)
			}
			f.regs[ins.dst] = V{r: it}
			break
		}
		it := &MapIter{}
		if mp, ok := x.r.(*MapV); ok {
			it.m = mp
			for _, e := range mp.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
			if m.mapMode == 3 && len(it.ents) > 1 && m.sub == 0 && m.mapOrderHere(f) {
				m.deviate(ins, it.ents)
			}
			if m.mapMode == 1 {
				for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
		f.regs[ins.dst] = V{r: it}
	case oNext:
		m.next(f, ins)
	case oSlice:
		if !m.sliceOp(f, ins) {
			return
		}
	case oConvert:
		f.regs[ins.dst] = m.convert(f.get(ins.a), ins.t, ins.t2)
	case oTypeAssert:
		x := f.get(ins.a)
		i, _ := x.r.(*Iface)
		ok := false
		var v V
		if i != nil {
			if ins.t.kind == kIface {
				ok = implements(i.t, ins.t)
				v = x
			} else {
				ok = i.t == ins.t
				v = i.v
			}
		}
		if !ok {
			v = zero(ins.t)
		}
		if ins.flag {
			f.regs[ins.dst] = m.tupleOf(v, boolV(ok))
		} else if !ok {
			m.rtPanic("interface conversion to " + ins.t.String())
			return
		} else {
			f.regs[ins.dst] = v
		}
	case oNeg:
		v := f.get(ins.a)
		if t, ok := v.r.(*Term); ok {
			f.regs[ins.dst] = m.fromTerm(m.ctx.Bin(TSub, m.ctx.Const(t.w, 0), t), ins.t)
		} else if ins.t.kind == kFloat {
			f.regs[ins.dst] = V{n: math.Float64bits(-math.Float64frombits(v.n))}
		} else {
			f.regs[ins.dst] = V{n: wrap(-v.n, ins.t)}
		}
	case oNotB:
		v := f.get(ins.a)
		if t, ok := v.r.(*Term); ok {
			f.regs[ins.dst] = m.fromTerm(m.ctx.Not(t), ins.t)
		} else {
			f.regs[ins.dst] = V{n: 1 - v.n}
		}
	case oCompl:
		v := f.get(ins.a)
		if t, ok := v.r.(*Term); ok {
			f.regs[ins.dst] = m.fromTerm(m.ctx.Bin(TBxor, t, m.ctx.Const(t.w, ^uint64(0))), ins.t)
		} else {
			f.regs[ins.dst] = V{n: wrap(^v.n, ins.t)}
		}
	case oDefer:
		ci := ins.x.(*callInfo)
		d := deferred{f: ci.fn, bi: ci.builtin, argT: ci.argT}
		if ci.invoke != "" {
			recv, ok := f.get(ci.val).r.(*Iface)
			if !ok {
				m.rtPanic("nil interface")
				return
			}
			d.f = m.C.method(recv.t, ci.invoke, ci.sig)
			d.args = append(d.args, recv.v)
		} else if ci.fn == nil && ci.builtin == "" {
			d.fn = f.get(ci.val)
		}
		for _, a := range ci.args {
			d.args = append(d.args, f.get(a))
		}
		f.defers = append(f.defers, d)
	case oRunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			m.callDeferred(d, retDeferred)
			return
		}
	case oPanic:
		m.unwind(f.get(ins.a))
		return
	case oReturn:
		ci := ins.x.(*callInfo)
		var v V
		switch len(ci.args) {
		case 0:
		case 1:
			v = f.get(ci.args[0])
		default:
			a := &Agg{make([]V, len(ci.args))}
			for i, r := range ci.args {
				a.f[i] = f.get(r)
			}
			v = V{r: a}
		}
		m.doReturn(v)
		return
	case oCall:
		m.call(f, ins)
		return
	default:
		panic(unsupported(fmt.Sprintf("instruction %v in %s", ins.x, f.fn.name)))
	}
	f.pc++
}

type loadTerm struct{ v V }

func allScalar(a []V) bool {
	for _, v := range a {
		if v.r != nil {
			if _, ok := v.r.(*Term); !ok {
				return false
			}
		}
	}
	return true
}

func (m *Machine) inRange(t *Term, n int, ti *TI) *Term {
	// compare at 64 bits; negative indexes are huge unsigned values
	var w *Term
	if ti.signed {
		w = m.ctx.Sext(t, 64)
	} else {
		w = m.ctx.Zext(t, 64)
	}
	return m.ctx.Ult(w, m.ctx.Const(64, uint64(n)))
}

func (m *Machine) selectTerm(t *Term, a []V, et *TI) V {
	var r *Term
	// group equal elements
	for i := len(a) - 1; i >= 0; i-- {
		x := m.term(a[i], et)
		if r == nil {
			r = x
			continue
		}
		r = m.ctx.Ite(m.ctx.Eq(t, m.ctx.Const(t.w, uint64(i))), x, r)
	}
	return m.fromTerm(r, et)
}

func (m *Machine) sliceOp(f *Frame, ins *Instr) bool {
	x := f.get(ins.a)
	idx := func(i int32, def int) int {
		if i == -1<<30 {
			return def
		}
		v := f.get(i)
		if v.r != nil {
			return int(int64(m.concretize(v, intTI)))
		}
		return int(int64(v.n))
	}
	if ins.t.kind == kString {
		if s, ok := x.r.(string); ok {
			lo := idx(ins.b, 0)
			hi := idx(ins.c, len(s))
			if lo < 0 || hi < lo || hi > len(s) {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s)))
				return false
			}
			f.regs[ins.dst] = str(s[lo:hi])
			return true
		}
		e := strElems(x)
		szs := make([]int, len(e)+1)
		for i, r := range e {
			szs[i+1] = szs[i] + m.runeSize(r)
		}
		total := szs[len(e)]
		lo := idx(ins.b, 0)
		hi := idx(ins.c, total)
		if lo < 0 || hi < lo || hi > total {
			m.rtPanic("slice bounds out of range")
			return false
		}
		i0, i1 := -1, -1
		for i, s := range szs {
			if s == lo && i0 < 0 {
				i0 = i
			}
			if s == hi && i1 < 0 {
				i1 = i
			}
		}
		if i0 < 0 || i1 < 0 {
			panic(unsupported("slicing a symbolic string inside a rune"))
		}
		f.regs[ins.dst] = mkStr(e[i0:i1])
		return true
	}
	var a []V
	isNil := false
	switch r := x.r.(type) {
	case *Slice:
		a = r.a
	case *V:
		a = r.r.(*Agg).f
	case nil:
		if ins.t.kind == kPtr {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return false
		}
		isNil = true
	}
	lo := idx(ins.b, 0)
	hi := idx(ins.c, len(a))
	mx := idx(ins.d, cap(a))
	if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
		return false
	}
	if isNil {
		f.regs[ins.dst] = V{}
		return true
	}
	f.regs[ins.dst] = V{r: &Slice{a[lo:hi:mx]}}
	return true
}

func (m *Machine) next(f *Frame, ins *Instr) {
	switch it := f.get(ins.a).r.(type) {
	case *StrIter:
		if it.e == nil {
			if it.off >= len(it.conc) {
				f.regs[ins.dst] = m.tupleOf(V{}, V{}, V{})
				return
			}
			r, n := utf8.DecodeRuneInString(it.conc[it.off:])
			f.regs[ins.dst] = m.tupleOf(boolV(true), intV(it.off), V{n: uint64(r)})
			// iterators are part of the register state: replace, do not mutate
			f.regs[regOf(ins.a)] = V{r: &StrIter{conc: it.conc, off: it.off + n}}
			return
		}
		if it.i >= len(it.e) {
			f.regs[ins.dst] = m.tupleOf(V{}, V{}, V{})
			return
		}
		n := 0
		if ins.b == 1 {
			n = m.runeSize(it.e[it.i])
		}
		e := it.e[it.i]
		if e.r == nil && e.n >= 0x110000 {
			e.n = 0xFFFD
		}
		f.regs[ins.dst] = m.tupleOf(boolV(true), intV(it.off), e)
		f.regs[regOf(ins.a)] = V{r: &StrIter{s: it.s, e: it.e, i: it.i + 1, off: it.off + n}}
	case *MapIter:
		ents := it.ents
		for len(ents) > 0 && ents[0].dead {
			ents = ents[1:]
		}
		if m.mapMode == 2 && len(ents) > 1 && m.sub == 0 && m.mapOrderHere(f) {
			live := ents[:0:0]
			for _, e := range ents {
				if !e.dead {
					live = append(live, e)
				}
			}
			ents = live
			if len(ents) > 1 {
				conds := make([]*Term, len(ents))
				for i := range conds {
					conds[i] = m.ctx.True
				}
				d := m.choose(conds)
				n := append([]*MapEnt{ents[d]}, ents[:d]...)
				ents = append(n, ents[d+1:]...)
			}
		}
		if len(ents) == 0 {
			f.regs[ins.dst] = m.tupleOf(V{}, V{}, V{})
			return
		}
		e := ents[0]
		f.regs[ins.dst] = m.tupleOf(boolV(true), e.k, copyVal(e.v))
		f.regs[regOf(ins.a)] = V{r: &MapIter{m: it.m, ents: ents[1:]}}
	default:
		panic("next")
	}
}

// mapState is the state of map mode 3, in which the maps are enumerated as in
// mode 0, except at places of the program that dev tells.
type mapState struct {
	dev   []V
	sites []mapSite // places met so far
}

// mapSite is a range statement, reached from one place.
type mapSite struct {
	ins    *Instr
	caller *Func
	pc     int
}

// deviate orders the entries as dev demands at this place: value 3s+k+1 stands
// for the k-th other order at the s-th place.
func (m *Machine) deviate(ins *Instr, ents []*MapEnt) {
	st := m.mapSt
	here := mapSite{ins: ins}
	if n := len(m.stack); n > 1 {
		here.caller, here.pc = m.stack[n-2].fn, m.stack[n-2].pc
	}
	s := 0
	for s < len(st.sites) && st.sites[s] != here {
		s++
	}
	if s == len(st.sites) {
		m.mapSt = &mapState{st.dev, append(st.sites[:s:s], here)}
	}
	n := len(ents)
	for _, dev := range st.dev {
		k := -1
		if t, ok := dev.r.(*Term); ok {
			conds := make([]*Term, 4)
			none := m.ctx.True
			for i := range conds[:3] {
				conds[i] = m.ctx.Eq(t, m.ctx.Const(64, uint64(3*s+i+1)))
				none = m.ctx.And(none, m.ctx.Not(conds[i]))
			}
			conds[3] = none
			if d := m.choose(conds); d < 3 {
				k = d
			}
		} else if d := int(dev.n) - 1; d >= 3*s && d < 3*s+3 {
			k = d - 3*s
		}
		switch old := append([]*MapEnt(nil), ents...); k {
		case 0:
			for i := range old {
				ents[i] = old[n-1-i]
			}
		case 1:
			for i := range old {
				ents[i] = old[(i+(n+1)/2)%n]
			}
		case 2:
			copy(ents[1:], old[:n-1])
			ents[0] = old[n-1]
		}
	}
}

func (m *Machine) mapOrderHere(f *Frame) bool { return f.fn.mine }

func regOf(i int32) int32 {
	if i < 0 {
		panic("iterator constant")
	}
	return i
}

// ---- maps ----

func (m *Machine) mapGet(mp *MapV, t *TI, k V, commaOk bool) (V, V) {
	hk, conc := hkey(k, t.key)
	if conc {
		if e, ok := mp.idx[hk]; ok {
			return copyVal(e.v), boolV(true)
		}
		if mp.nsym == 0 {
			return zero(t.elem), boolV(false)
		}
	}
	var cands []*MapEnt
	var conds []*Term
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		c := m.eq(e.k, k, t.key)
		if c.isFalse() {
			continue
		}
		if c.isTrue() {
			return copyVal(e.v), boolV(true)
		}
		cands = append(cands, e)
		conds = append(conds, c)
	}
	if len(cands) == 0 {
		return zero(t.elem), boolV(false)
	}
	any := m.ctx.Or(conds...)
	if t.elem.kind == kInt || t.elem.kind == kBool {
		r := m.term(V{}, t.elem)
		for i, e := range cands {
			r = m.ctx.Ite(conds[i], m.term(e.v, t.elem), r)
		}
		return m.fromTerm(r, t.elem), m.fromTerm(any, boolTI)
	}
	// entries may coincide only if equal keys: keys in a map are distinct
	alts := append(append([]*Term(nil), conds...), m.ctx.Not(any))
	d := m.choose(alts)
	if d == len(cands) {
		return zero(t.elem), boolV(false)
	}
	return copyVal(cands[d].v), boolV(true)
}

func (m *Machine) mapFind(mp *MapV, t *TI, k V) *MapEnt {
	hk, conc := hkey(k, t.key)
	if conc {
		if e, ok := mp.idx[hk]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	var cands []*MapEnt
	var conds []*Term
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		c := m.eq(e.k, k, t.key)
		if c.isTrue() {
			return e
		}
		if !c.isFalse() {
			cands = append(cands, e)
			conds = append(conds, c)
		}
	}
	if len(cands) == 0 {
		return nil
	}
	d := m.choose(append(append([]*Term(nil), conds...), m.ctx.Not(m.ctx.Or(conds...))))
	if d == len(cands) {
		return nil
	}
	return cands[d]
}

func (m *Machine) mapSet(mp *MapV, t *TI, k, v V) {
	if e := m.mapFind(mp, t, k); e != nil {
		m.store(&e.v, v)
		return
	}
	if m.isolated && m.shared.maps[mp] {
		m.sharedWrite()
	}
	e := &MapEnt{k: copyVal(k), v: copyVal(v)}
	mp.ents = append(mp.ents, e)
	mp.live++
	if hk, conc := hkey(k, t.key); conc {
		e.hk, e.hkNil = hk, true
		mp.idx[hk] = e
	} else {
		mp.nsym++
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{kind: 1, mp: mp, ent: e})
	}
}

func (mp *MapV) readd(e *MapEnt) {
	if e.hkNil {
		mp.idx[e.hk] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *MapV, t *TI, k V) {
	e := m.mapFind(mp, t, k)
	if e == nil {
		return
	}
	if m.isolated && m.shared.maps[mp] {
		m.sharedWrite()
	}
	e.dead = true
	mp.live--
	if e.hkNil {
		delete(mp.idx, e.hk)
	} else {
		mp.nsym--
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{kind: 2, mp: mp, ent: e})
	}
}

// ---- operators ----

func (m *Machine) binop(ins *Instr, a, b V) (V, bool) {
	t := ins.t
	switch ins.tok {
	case token.EQL, token.NEQ:
		var r *Term
		if t.kind == kInt && a.r == nil && b.r == nil {
			return boolV((a.n == b.n) == (ins.tok == token.EQL)), true
		}
		if t.kind == kIface && ins.t2.kind != kIface {
			// mixed comparison: ssa converts operands, so this does not happen
			panic(unsupported("mixed interface comparison"))
		}
		if t.kind == kIface && a.r != nil && b.r != nil {
			x := a.r.(*Iface)
			if x.t == b.r.(*Iface).t && (x.t.kind == kSlice || x.t.kind == kMap || x.t.kind == kFunc) {
				m.rtPanic("comparing uncomparable type " + x.t.String())
				return V{}, false
			}
		}
		r = m.eq(a, b, t)
		if ins.tok == token.NEQ {
			r = m.ctx.Not(r)
		}
		return m.fromTerm(r, boolTI), true
	}
	switch t.kind {
	case kString:
		switch ins.tok {
		case token.ADD:
			x, xok := a.r.(string)
			y, yok := b.r.(string)
			if xok && yok {
				return str(x + y), true
			}
			return mkStr(append(append([]V(nil), strElems(a)...), strElems(b)...)), true
		case token.LSS:
			return m.fromTerm(m.strLess(a, b), boolTI), true
		case token.GTR:
			return m.fromTerm(m.strLess(b, a), boolTI), true
		case token.LEQ:
			return m.fromTerm(m.ctx.Not(m.strLess(b, a)), boolTI), true
		case token.GEQ:
			return m.fromTerm(m.ctx.Not(m.strLess(a, b)), boolTI), true
		}
	case kBool:
		x, y := m.term(a, t), m.term(b, t)
		switch ins.tok {
		case token.AND:
			return m.fromTerm(m.ctx.And(x, y), t), true
		case token.OR:
			return m.fromTerm(m.ctx.Or(x, y), t), true
		case token.XOR:
			return m.fromTerm(m.ctx.Not(m.ctx.Eq(x, y)), t), true
		case token.AND_NOT:
			return m.fromTerm(m.ctx.And(x, m.ctx.Not(y)), t), true
		}
	case kFloat:
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		fl := func(r float64) (V, bool) { return V{n: math.Float64bits(r)}, true }
		switch ins.tok {
		case token.ADD:
			return fl(x + y)
		case token.SUB:
			return fl(x - y)
		case token.MUL:
			return fl(x * y)
		case token.QUO:
			return fl(x / y)
		case token.LSS:
			return boolV(x < y), true
		case token.LEQ:
			return boolV(x <= y), true
		case token.GTR:
			return boolV(x > y), true
		case token.GEQ:
			return boolV(x >= y), true
		}
	case kInt:
		if a.r == nil && b.r == nil {
			return m.intop(ins, a.n, b.n)
		}
		return m.symop(ins, a, b)
	}
	panic(unsupported(fmt.Sprintf("operator %v on %v", ins.tok, t)))
}

func (m *Machine) intop(ins *Instr, x, y uint64) (V, bool) {
	t := ins.t
	w := func(r uint64) (V, bool) { return V{n: wrap(r, t)}, true }
	sx, sy := int64(x), int64(y)
	switch ins.tok {
	case token.ADD:
		return w(x + y)
	case token.SUB:
		return w(x - y)
	case token.MUL:
		return w(x * y)
	case token.QUO:
		if y == 0 {
			m.rtPanic("integer divide by zero")
			return V{}, false
		}
		if t.signed {
			if sy == -1 {
				return w(-x)
			}
			return w(uint64(sx / sy))
		}
		return w(x / y)
	case token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
			return V{}, false
		}
		if t.signed {
			if sy == -1 {
				return w(0)
			}
			return w(uint64(sx % sy))
		}
		return w(x % y)
	case token.AND:
		return w(x & y)
	case token.OR:
		return w(x | y)
	case token.XOR:
		return w(x ^ y)
	case token.AND_NOT:
		return w(x &^ y)
	case token.SHL:
		if ins.t2.signed && sy < 0 {
			m.rtPanic("negative shift amount")
			return V{}, false
		}
		if y >= uint64(t.w) {
			return w(0)
		}
		return w(x << y)
	case token.SHR:
		if ins.t2.signed && sy < 0 {
			m.rtPanic("negative shift amount")
			return V{}, false
		}
		if t.signed {
			if y > 63 {
				y = 63
			}
			return w(uint64(sx >> y))
		}
		if y >= 64 {
			return w(0)
		}
		return w(x >> y)
	case token.LSS:
		if t.signed {
			return boolV(sx < sy), true
		}
		return boolV(x < y), true
	case token.LEQ:
		if t.signed {
			return boolV(sx <= sy), true
		}
		return boolV(x <= y), true
	case token.GTR:
		if t.signed {
			return boolV(sx > sy), true
		}
		return boolV(x > y), true
	case token.GEQ:
		if t.signed {
			return boolV(sx >= sy), true
		}
		return boolV(x >= y), true
	}
	panic(unsupported("int op " + ins.tok.String()))
}

func (m *Machine) symop(ins *Instr, a, b V) (V, bool) {
	t := ins.t
	c := m.ctx
	x := m.term(a, t)
	var y *Term
	if ins.tok == token.SHL || ins.tok == token.SHR {
		y = m.term(b, ins.t2)
		if y.op != TConst && ins.t2.signed {
			if m.branch(m.fromTerm(c.Slt(y, c.Const(y.w, 0)), boolTI)) {
				m.rtPanic("negative shift amount")
				return V{}, false
			}
		}
		if y.w < x.w {
			y = c.Zext(y, x.w)
		} else if y.w > x.w {
			big := c.Not(c.Ult(y, c.Const(y.w, uint64(x.w))))
			y = c.Ite(big, c.Const(x.w, uint64(x.w)), c.Extract(y, x.w))
		}
	} else {
		y = m.term(b, t)
	}
	lt := c.Ult
	if t.signed {
		lt = c.Slt
	}
	switch ins.tok {
	case token.LSS:
		return m.fromTerm(lt(x, y), boolTI), true
	case token.GTR:
		return m.fromTerm(lt(y, x), boolTI), true
	case token.LEQ:
		return m.fromTerm(c.Not(lt(y, x)), boolTI), true
	case token.GEQ:
		return m.fromTerm(c.Not(lt(x, y)), boolTI), true
	case token.ADD:
		return m.fromTerm(c.Bin(TAdd, x, y), t), true
	case token.SUB:
		return m.fromTerm(c.Bin(TSub, x, y), t), true
	case token.MUL:
		return m.fromTerm(c.Bin(TMul, x, y), t), true
	case token.AND:
		return m.fromTerm(c.Bin(TBand, x, y), t), true
	case token.OR:
		return m.fromTerm(c.Bin(TBor, x, y), t), true
	case token.XOR:
		return m.fromTerm(c.Bin(TBxor, x, y), t), true
	case token.AND_NOT:
		return m.fromTerm(c.Bin(TBand, x, c.Bin(TBxor, y, c.Const(y.w, ^uint64(0)))), t), true
	case token.SHL:
		return m.fromTerm(c.Bin(TShl, x, y), t), true
	case token.SHR:
		if t.signed {
			return m.fromTerm(c.Bin(TAshr, x, y), t), true
		}
		return m.fromTerm(c.Bin(TLshr, x, y), t), true
	case token.QUO, token.REM:
		if m.branch(m.fromTerm(c.Eq(y, c.Const(y.w, 0)), boolTI)) {
			m.rtPanic("integer divide by zero")
			return V{}, false
		}
		op := map[token.Token][2]TOp{token.QUO: {TUdiv, TSdiv}, token.REM: {TUrem, TSrem}}[ins.tok]
		if t.signed {
			return m.fromTerm(c.Bin(op[1], x, y), t), true
		}
		return m.fromTerm(c.Bin(op[0], x, y), t), true
	}
	panic(unsupported("symbolic op " + ins.tok.String()))
}

func (m *Machine) convert(v V, from, to *TI) V {
	switch to.kind {
	case kInt:
		switch from.kind {
		case kInt:
			x, ok := v.r.(*Term)
			if !ok {
				return V{n: wrap(v.n, to)}
			}
			switch {
			case to.w < from.w:
				return m.fromTerm(m.ctx.Extract(x, to.w), to)
			case to.w > from.w:
				if from.signed {
					return m.fromTerm(m.ctx.Sext(x, to.w), to)
				}
				return m.fromTerm(m.ctx.Zext(x, to.w), to)
			}
			return v
		case kFloat:
			f := math.Float64frombits(v.n)
			if to.signed {
				return V{n: wrap(uint64(int64(f)), to)}
			}
			return V{n: wrap(uint64(f), to)}
		case kPtr:
			return V{n: 0}
		}
	case kFloat:
		switch from.kind {
		case kFloat:
			return v
		case kInt:
			if v.r != nil {
				panic(unsupported("symbolic int to float"))
			}
			if from.signed {
				return V{n: math.Float64bits(float64(int64(v.n)))}
			}
			return V{n: math.Float64bits(float64(v.n))}
		}
	case kString:
		switch from.kind {
		case kString:
			return v
		case kInt:
			if x, ok := v.r.(*Term); ok {
				if x.w > 32 {
					x = m.ctx.Extract(x, 32)
				} else if x.w < 32 {
					x = m.ctx.Zext(x, 32)
				}
				return mkStr([]V{m.validRune(m.fromTerm(x, runeTI))})
			}
			return mkStr([]V{m.validRune(v)})
		case kSlice:
			var a []V
			if s, ok := v.r.(*Slice); ok {
				a = s.a
			}
			if from.elem.w == 8 {
				return m.bytesStr(a)
			}
			out := make([]V, len(a))
			for i, e := range a {
				out[i] = m.validRune(e)
			}
			return mkStr(out)
		}
	case kSlice:
		if from.kind == kString {
			if to.elem.w == 8 {
				return V{r: &Slice{m.strBytes(v)}}
			}
			e := append([]V(nil), strElems(v)...)
			for i := range e {
				if e[i].r == nil && e[i].n >= 0x110000 {
					e[i].n = 0xFFFD
				}
			}
			return V{r: &Slice{e}}
		}
		return v
	case kPtr, kFunc, kStruct, kMap, kArray, kBool:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %v -> %v", from, to)))
}

var _ = ssa.NaiveForm

var tiUint64 = tiOf(types.Typ[types.Uint64])
