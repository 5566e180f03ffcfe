package main

import (
	"fmt"
	"strings"
)

func (m *Machine) call(f *Frame, ins *Instr) {
	ci := ins.x.(*callInfo)
	if ci.builtin != "" {
		m.builtin(f, ins, ci)
		return
	}
	args := make([]V, 0, len(ci.args)+1)
	fn := ci.fn
	var bind []V
	if ci.invoke != "" {
		recv, ok := f.get(ci.val).r.(*Iface)
		if !ok || recv == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		fn = m.C.method(recv.t, ci.invoke, ci.sig)
		if fn == nil {
			panic(unsupported("method " + ci.invoke + " of " + recv.t.String()))
		}
		args = append(args, recv.v)
	} else if fn == nil {
		cl, ok := f.get(ci.val).r.(*Closure)
		if !ok || cl == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		fn, bind = cl.fn, cl.bind
		if cl.nat != nil {
			for _, a := range ci.args {
				args = append(args, f.get(a))
			}
			f.regs[ins.dst] = cl.nat(m, args)
			f.pc++
			return
		}
	}
	for _, a := range ci.args {
		args = append(args, f.get(a))
	}
	m.invoke(f, ins, fn, args, bind)
}

func (m *Machine) invoke(f *Frame, ins *Instr, fn *Func, args, bind []V) {
	if fn.redirect != nil {
		fn = fn.redirect
	}
	if fn.ext != nil {
		m.extCall = fn
		m.pending = nil
		v := fn.ext(m, args)
		if m.pending != nil {
			// the external asked for an interpreted call or a control transfer
			p := m.pending
			m.pending = nil
			if p.push != nil {
				if p.push.ext != nil {
					f.regs[ins.dst] = p.push.ext(m, p.args)
					f.pc++
					return
				}
				m.push(p.push, p.args, p.bind, p.onRet)
			}
			return
		}
		f.regs[ins.dst] = v
		f.pc++
		return
	}
	if m.trailOn && m.mapMode != 3 && m.C.mergeable(fn) && m.wantMerge(fn) {
		if v, ok := m.callMerged(fn, args, bind); ok {
			f.regs[ins.dst] = v
			f.pc++
			return
		}
		if m.sub == 0 {
			m.mlog = append(m.mlog[:len(m.mlog):len(m.mlog)], m.mord)
		}
	}
	m.push(fn, args, bind, retNormal)
}

// wantMerge tells whether to join the paths of a call. The calls at which this
// is not done are logged, so that another worker replays the path alike.
func (m *Machine) wantMerge(fn *Func) bool {
	if m.sub > 0 {
		return true
	}
	m.mord++
	if len(m.hist) < len(m.forcedH) {
		if m.mskip[m.mord] {
			m.mlog = append(m.mlog[:len(m.mlog):len(m.mlog)], m.mord)
			return false
		}
		return true
	}
	if m.noMerge[fn] >= 3 {
		m.mlog = append(m.mlog[:len(m.mlog):len(m.mlog)], m.mord)
		return false
	}
	return true
}

type pendingCall struct {
	push  *Func
	args  []V
	bind  []V
	onRet int
}

// callMerged explores all paths of a side-effect-free call and joins their
// results into one value.
func (m *Machine) callMerged(fn *Func, args, bind []V) (res V, ok bool) {
	save := struct {
		stack  []*Frame
		snaps  []*snapshot
		nIC    int
		forced []int
		pc     int
		trail  int
		model  []uint64
		steps  int64
		gen    int
		need   bool
		ret    V
	}{m.stack, m.snaps, m.nIC, m.forced, len(m.pc), len(m.trail), m.model, m.steps, m.gen, m.needModel, m.ret}
	m.stack, m.snaps, m.forced, m.nIC = nil, nil, nil, 0
	m.sub++
	type outcome struct {
		c *Term
		v V
	}
	var outs []outcome
	fail := false
	stopped := false
	oneBranch := true
	func() {
		m.push(fn, args, bind, retNormal)
		for {
			kind := m.runSub()
			switch kind {
			case "":
				cs := m.hard(save.pc)
				outs = append(outs, outcome{m.ctx.And(cs...), m.ret})
			case "infeasible", "assume":
			case "stopped":
				stopped = true
				return
			default:
				fail = true
				return
			}
			if len(outs) > 96 {
				fail = true
				return
			}
			if len(m.snaps) == 0 {
				return
			}
			oneBranch = false
			if !m.backtrack() {
				return
			}
		}
	}()
	m.sub--
	m.undo(save.trail)
	m.stack, m.snaps, m.forced, m.nIC = save.stack, save.snaps, save.forced, save.nIC
	m.pc = m.pc[:save.pc]
	m.restoreModel(save.model)
	m.needModel = save.need
	m.steps = save.steps
	m.ret = save.ret
	m.gen++
	// the caller's frame stays the owner of the top
	if n := len(m.stack); n > 0 {
		m.stack[n-1].gen = m.gen
	}
	if stopped {
		panic(pathEnd{"stopped", ""})
	}
	if fail || len(outs) == 0 {
		m.mergeFb++
		if m.sub == 0 {
			m.noMerge[fn]++
		}
		return V{}, false
	}
	if oneBranch {
		return outs[0].v, true
	}
	m.merges++
	if m.sub == 0 {
		m.noMerge[fn] = 0
	}
	rt := fn.res
	if len(rt.fields) == 1 {
		t := rt.fields[0]
		x := m.term(outs[len(outs)-1].v, t)
		for i := len(outs) - 2; i >= 0; i-- {
			x = m.ctx.Ite(outs[i].c, m.term(outs[i].v, t), x)
		}
		return m.fromTerm(x, t), true
	}
	a := &Agg{make([]V, len(rt.fields))}
	for k, t := range rt.fields {
		x := m.term(outs[len(outs)-1].v.r.(*Agg).f[k], t)
		for i := len(outs) - 2; i >= 0; i-- {
			x = m.ctx.Ite(outs[i].c, m.term(outs[i].v.r.(*Agg).f[k], t), x)
		}
		a.f[k] = m.fromTerm(x, t)
	}
	return V{r: a}, true
}

func (m *Machine) runSub() (kind string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				kind = e.kind
			case unsupportedErr:
				kind = "unsupported"
			default:
				panic(r)
			}
		}
	}()
	m.run()
	return ""
}

func (m *Machine) builtin(f *Frame, ins *Instr, ci *callInfo) {
	arg := func(i int) V { return f.get(ci.args[i]) }
	switch ci.builtin {
	case "len":
		switch x := arg(0).r.(type) {
		case nil:
			f.regs[ins.dst] = intV(0)
		case string, *SymStr:
			f.regs[ins.dst] = intV(m.strLen(arg(0)))
		case *Slice:
			f.regs[ins.dst] = intV(len(x.a))
		case *MapV:
			f.regs[ins.dst] = intV(x.live)
		case *Agg:
			f.regs[ins.dst] = intV(len(x.f))
		case *V:
			f.regs[ins.dst] = intV(len(x.r.(*Agg).f))
		default:
			panic(unsupported(fmt.Sprintf("len %T", x)))
		}
	case "cap":
		switch x := arg(0).r.(type) {
		case nil:
			f.regs[ins.dst] = intV(0)
		case *Slice:
			f.regs[ins.dst] = intV(cap(x.a))
		case *Agg:
			f.regs[ins.dst] = intV(len(x.f))
		default:
			panic(unsupported("cap"))
		}
	case "append":
		var a, b []V
		isNil := true
		if s, ok := arg(0).r.(*Slice); ok {
			a = s.a
			isNil = false
		}
		et := ci.argT[0].elem
		if ci.argT[1].kind == kString {
			b = m.strBytes(arg(1))
		} else if s, ok := arg(1).r.(*Slice); ok {
			b = s.a
		}
		if len(b) == 0 {
			f.regs[ins.dst] = arg(0)
			break
		}
		_ = isNil
		if len(a)+len(b) <= cap(a) {
			n := a[:len(a)+len(b)]
			src := b
			// overlapping source is copied first, as memmove does
			src = append([]V(nil), b...)
			for i, v := range src {
				m.store(&n[len(a)+i], v)
			}
			f.regs[ins.dst] = V{r: &Slice{n}}
			break
		}
		c := growCap(et, len(a), cap(a), len(a)+len(b))
		n := make([]V, c)
		if et.kind == kStruct || et.kind == kArray || et.kind == kString {
			for i := len(a) + len(b); i < c; i++ {
				n[i] = zero(et)
			}
		}
		for i, v := range a {
			n[i] = copyVal(v)
		}
		for i, v := range b {
			n[len(a)+i] = copyVal(v)
		}
		f.regs[ins.dst] = V{r: &Slice{n[:len(a)+len(b)]}}
	case "copy":
		var a, b []V
		if s, ok := arg(0).r.(*Slice); ok {
			a = s.a
		}
		if ci.argT[1].kind == kString {
			b = m.strBytes(arg(1))
		} else if s, ok := arg(1).r.(*Slice); ok {
			b = s.a
		}
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		src := append([]V(nil), b[:n]...)
		for i := range src {
			src[i] = copyVal(src[i])
		}
		for i, v := range src {
			m.store(&a[i], v)
		}
		f.regs[ins.dst] = intV(n)
	case "delete":
		if mp, ok := arg(0).r.(*MapV); ok {
			m.mapDelete(mp, ci.argT[0], arg(1))
		}
	case "print", "println", "close":
	case "recover":
		// the frame below the deferred function, if it is panicking
		n := len(m.stack)
		f.regs[ins.dst] = V{}
		if f.onRet == retPanicDefer && n >= 2 {
			c := m.stack[n-2]
			if c.gen != m.gen {
				c = c.clone(m.gen)
				m.stack[n-2] = c
			}
			if c.panicking && !c.recovered {
				c.recovered = true
				f.regs[ins.dst] = c.panicVal
			}
		}
	case "panic":
		m.unwind(arg(0))
		return
	case "min", "max":
		t := ci.argT[0]
		r := arg(0)
		for i := 1; i < len(ci.args); i++ {
			b := arg(i)
			var less *Term
			switch t.kind {
			case kString:
				less = m.strLess(b, r)
			case kInt:
				x, y := m.term(b, t), m.term(r, t)
				if t.signed {
					less = m.ctx.Slt(x, y)
				} else {
					less = m.ctx.Ult(x, y)
				}
			default:
				panic(unsupported("min/max"))
			}
			if ci.builtin == "max" {
				less = m.ctx.Not(m.ctx.Or(less, m.eq(b, r, t)))
			}
			if m.branch(m.fromTerm(less, boolTI)) {
				r = b
			}
		}
		f.regs[ins.dst] = r
	case "clear":
		switch x := arg(0).r.(type) {
		case *Slice:
			for i := range x.a {
				m.store(&x.a[i], zero(ci.argT[0].elem))
			}
		case *MapV:
			for _, e := range x.ents {
				if !e.dead {
					m.mapDelete(x, ci.argT[0], e.k)
				}
			}
		}
	case "ssa:wrapnilchk":
		if arg(0).r == nil {
			m.rtPanic("value method called using nil pointer")
			return
		}
		f.regs[ins.dst] = arg(0)
	case "Slice", "String", "StringData", "SliceData", "Add":
		panic(unsupported("unsafe." + ci.builtin + " in " + f.fn.name))
	default:
		panic(unsupported("builtin " + ci.builtin))
	}
	f.pc++
}

var _ = strings.Contains
