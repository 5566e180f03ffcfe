package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	oNop Op = iota
	oGlobal
	oAlloc
	oBin
	oCall
	oChangeIface
	oConvert
	oMove
	oDefer
	oExtract
	oField
	oFieldAddr
	oIf
	oIndex
	oIndexAddr
	oJump
	oLookup
	oMakeClosure
	oMakeIface
	oMakeMap
	oMakeSlice
	oMapUpdate
	oNext
	oPanic
	oRange
	oReturn
	oRunDefers
	oSlice
	oStore
	oTypeAssert
	oLoad
	oNeg
	oNotB
	oCompl
	oS2AP
	oBad
)

type Instr struct {
	op      Op
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	t, t2   *TI
	x       any
	flag    bool
	e0, e1  *edge
	pos     token.Pos
}

type edge struct {
	pc    int
	phiD  []int32
	phiS  []int32
	block int
}

type callInfo struct {
	fn      *Func  // static
	builtin string // builtin
	invoke  string // method name
	sig     *types.Signature
	val     int32
	args    []int32
	argT    []*TI
	resT    *TI
}

type Func struct {
	fn       *ssa.Function
	name     string
	pkg      string
	id       int
	nregs    int
	consts   []V
	code     []Instr
	params   int
	free     int
	ext      func(m *Machine, args []V) V
	redirect *Func
	once     sync.Once
	compiled bool
	mergeSt  int // 0 unknown 1 yes 2 no
	hasDefer bool
	recover  *edge
	res      *TI
	mine     bool // belongs to the code under test (not std, not harness)
	blocks   int
	blockPC  []int
}

type Compiler struct {
	prog  *Program
	mu    sync.Mutex
	funcs map[*ssa.Function]*Func
	list  []*Func
	globs map[*ssa.Global]int
	globT []*TI
	gl    []*ssa.Global
	built map[*ssa.Package]bool
	bmu   sync.Mutex
}

func NewCompiler(p *Program) *Compiler {
	return &Compiler{prog: p, funcs: map[*ssa.Function]*Func{}, globs: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}}
}

func (c *Compiler) build(p *ssa.Package) {
	if p == nil {
		return
	}
	c.bmu.Lock()
	defer c.bmu.Unlock()
	if !c.built[p] {
		p.Build()
		c.built[p] = true
	}
}

func (c *Compiler) globID(g *ssa.Global) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if i, ok := c.globs[g]; ok {
		return i
	}
	i := len(c.globT)
	c.globs[g] = i
	c.globT = append(c.globT, tiOf(g.Type().(*types.Pointer).Elem()))
	c.gl = append(c.gl, g)
	return i
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return fn.Prog.Package(ob.Pkg())
	}
	return nil
}

// Func returns the (lazily compiled) Func of fn.
func (c *Compiler) Func(fn *ssa.Function) *Func {
	c.mu.Lock()
	f, ok := c.funcs[fn]
	if !ok {
		f = &Func{fn: fn, name: fn.String(), id: len(c.list)}
		c.funcs[fn] = f
		c.list = append(c.list, f)
		if p := pkgOf(fn); p != nil {
			f.pkg = p.Pkg.Path()
		}
		f.mine = f.pkg != "" && !c.prog.Std[f.pkg] && !hasPre(f.pkg, "vh/sym", "vh/h/", "vh/ref")
		f.ext = lookupExtern(f)
		n := len(fn.Params)
		f.params = n
		f.free = len(fn.FreeVars)
		if r, ok := redirects[f.name]; ok && f.ext == nil {
			p := c.prog.Pkgs["vh/sym/symfmt"]
			if p != nil {
				if rf := p.Func(r); rf != nil {
					c.mu.Unlock()
					c.build(p)
					rr := c.Func(rf)
					c.mu.Lock()
					f.redirect = rr
				}
			}
		}
	}
	c.mu.Unlock()
	return f
}

func (c *Compiler) ensure(f *Func) {
	f.once.Do(func() { c.compile(f) })
}

type fcomp struct {
	c     *Compiler
	f     *Func
	reg   map[ssa.Value]int32
	cons  map[*ssa.Const]int32
	gregs map[*ssa.Global]int32
	pre   []Instr
}

func (c *Compiler) compile(f *Func) {
	fn := f.fn
	c.build(pkgOf(fn))
	fc := &fcomp{c: c, f: f, reg: map[ssa.Value]int32{}, cons: map[*ssa.Const]int32{}, gregs: map[*ssa.Global]int32{}}
	f.res = tiOf(fn.Signature.Results())
	if fn.Blocks == nil {
		f.compiled = true
		return
	}
	for _, p := range fn.Params {
		fc.newReg(p)
	}
	for _, p := range fn.FreeVars {
		fc.newReg(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fc.newReg(v)
			}
		}
	}
	bpc := make([]int, len(fn.Blocks))
	var code []Instr
	type fix struct {
		e    *edge
		to   int
		from *ssa.BasicBlock
		nth  int
	}
	var fixes []fix
	mkEdge := func(from *ssa.BasicBlock, succ int) *edge {
		e := &edge{}
		fixes = append(fixes, fix{e, from.Succs[succ].Index, from, succ})
		return e
	}
	for _, b := range fn.Blocks {
		bpc[b.Index] = len(code)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins := fc.instr(in)
			ins.pos = in.Pos()
			switch in.(type) {
			case *ssa.If:
				ins.e0 = mkEdge(b, 0)
				ins.e1 = mkEdge(b, 1)
			case *ssa.Jump:
				ins.e0 = mkEdge(b, 0)
			}
			code = append(code, ins)
		}
	}
	npre := len(fc.pre)
	// phi operands may also need global registers
	for _, fx := range fixes {
		fx.e.block = fx.to
		tb := fn.Blocks[fx.to]
		// which predecessor index?
		pi := -1
		cnt := 0
		for i, p := range tb.Preds {
			if p == fx.from {
				// duplicated edges: n-th occurrence
				k := 0
				for s := 0; s < fx.nth; s++ {
					if fx.from.Succs[s] == tb {
						k++
					}
				}
				if cnt == k {
					pi = i
					break
				}
				cnt++
			}
		}
		for _, in := range tb.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fx.e.phiD = append(fx.e.phiD, fc.reg[phi])
			fx.e.phiS = append(fx.e.phiS, fc.op(phi.Edges[pi]))
		}
	}
	npre = len(fc.pre)
	for _, fx := range fixes {
		fx.e.pc = bpc[fx.to] + npre
	}
	f.code = append(append([]Instr{}, fc.pre...), code...)
	for i := range bpc {
		bpc[i] += npre
	}
	f.blockPC = bpc
	f.blocks = len(fn.Blocks)
	if fn.Recover != nil {
		f.recover = &edge{pc: bpc[fn.Recover.Index]}
	}
	f.nregs = len(fc.reg) + len(fc.gregs)
	f.compiled = true
}

func (fc *fcomp) newReg(v ssa.Value) int32 {
	r := int32(len(fc.reg) + len(fc.gregs))
	fc.reg[v] = r
	return r
}

// op returns the operand number of v.
func (fc *fcomp) op(v ssa.Value) int32 {
	if v == nil {
		return -1 << 30
	}
	switch x := v.(type) {
	case *ssa.Const:
		if i, ok := fc.cons[x]; ok {
			return i
		}
		fc.f.consts = append(fc.f.consts, constV(x))
		i := -int32(len(fc.f.consts))
		fc.cons[x] = i
		return i
	case *ssa.Global:
		if r, ok := fc.gregs[x]; ok {
			return r
		}
		r := int32(len(fc.reg) + len(fc.gregs))
		fc.gregs[x] = r
		fc.pre = append(fc.pre, Instr{op: oGlobal, dst: r, a: int32(fc.c.globID(x))})
		return r
	case *ssa.Function:
		fc.f.consts = append(fc.f.consts, V{r: &Closure{fn: fc.c.Func(x)}})
		return -int32(len(fc.f.consts))
	case *ssa.Builtin:
		return -1 << 30
	}
	r, ok := fc.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, fc.f.name))
	}
	return r
}

func constV(x *ssa.Const) V {
	t := tiOf(x.Type())
	if x.Value == nil {
		return zero(t)
	}
	switch t.kind {
	case kBool:
		return boolV(constant.BoolVal(x.Value))
	case kInt:
		if t.signed {
			return V{n: uint64(x.Int64())}
		}
		return V{n: x.Uint64()}
	case kFloat:
		f, _ := constant.Float64Val(x.Value)
		return V{n: math.Float64bits(f)}
	case kString:
		if x.Value.Kind() == constant.Int {
			return str(string(rune(x.Int64())))
		}
		return str(constant.StringVal(x.Value))
	}
	return V{r: unsupported("const " + x.String())}
}

func (fc *fcomp) instr(in ssa.Instruction) Instr {
	var r Instr
	if v, ok := in.(ssa.Value); ok {
		r.dst = fc.reg[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		r.op = oAlloc
		r.t = tiOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		r.op = oBin
		r.tok = x.Op
		r.a, r.b = fc.op(x.X), fc.op(x.Y)
		r.t = tiOf(x.X.Type())
		r.t2 = tiOf(x.Y.Type())
	case *ssa.Call:
		r.op = oCall
		r.x = fc.call(&x.Call)
	case *ssa.ChangeInterface:
		r.op = oMove
		r.a = fc.op(x.X)
	case *ssa.ChangeType:
		r.op = oMove
		r.a = fc.op(x.X)
	case *ssa.Convert:
		r.op = oConvert
		r.a = fc.op(x.X)
		r.t, r.t2 = tiOf(x.X.Type()), tiOf(x.Type())
	case *ssa.MultiConvert:
		r.op = oBad
		r.x = "MultiConvert"
	case *ssa.Defer:
		r.op = oDefer
		r.x = fc.call(&x.Call)
		fc.f.hasDefer = true
	case *ssa.Extract:
		r.op = oExtract
		r.a, r.b = fc.op(x.Tuple), int32(x.Index)
	case *ssa.Field:
		r.op = oField
		r.a, r.b = fc.op(x.X), int32(x.Field)
	case *ssa.FieldAddr:
		r.op = oFieldAddr
		r.a, r.b = fc.op(x.X), int32(x.Field)
	case *ssa.If:
		r.op = oIf
		r.a = fc.op(x.Cond)
	case *ssa.Index:
		r.op = oIndex
		r.a, r.b = fc.op(x.X), fc.op(x.Index)
		r.t, r.t2 = tiOf(x.X.Type()), tiOf(x.Index.Type())
	case *ssa.IndexAddr:
		r.op = oIndexAddr
		r.a, r.b = fc.op(x.X), fc.op(x.Index)
		r.t, r.t2 = tiOf(x.X.Type()), tiOf(x.Index.Type())
		// a load-only use of a scalar element may be answered with an ite
		r.flag = loadOnly(x)
	case *ssa.Jump:
		r.op = oJump
	case *ssa.Lookup:
		r.op = oLookup
		r.a, r.b = fc.op(x.X), fc.op(x.Index)
		r.t = tiOf(x.X.Type())
		r.t2 = tiOf(x.Index.Type())
		r.flag = x.CommaOk
	case *ssa.MakeClosure:
		r.op = oMakeClosure
		ci := &callInfo{fn: fc.c.Func(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			ci.args = append(ci.args, fc.op(b))
		}
		r.x = ci
	case *ssa.MakeInterface:
		r.op = oMakeIface
		r.a = fc.op(x.X)
		r.t = tiOf(x.X.Type())
	case *ssa.MakeMap:
		r.op = oMakeMap
	case *ssa.MakeSlice:
		r.op = oMakeSlice
		r.a, r.b = fc.op(x.Len), fc.op(x.Cap)
		r.t = tiOf(x.Type())
	case *ssa.MapUpdate:
		r.op = oMapUpdate
		r.a, r.b, r.c = fc.op(x.Map), fc.op(x.Key), fc.op(x.Value)
		r.t = tiOf(x.Map.Type())
	case *ssa.Next:
		r.op = oNext
		r.a = fc.op(x.Iter)
		r.flag = x.IsString
		r.b = 1
		if x.IsString {
			// is the byte offset used?
			r.b = 0
			for _, ref := range *x.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
					r.b = 1
				}
			}
		}
	case *ssa.Panic:
		r.op = oPanic
		r.a = fc.op(x.X)
	case *ssa.Range:
		r.op = oRange
		r.a = fc.op(x.X)
		r.t = tiOf(x.X.Type())
	case *ssa.Return:
		r.op = oReturn
		ci := &callInfo{}
		for _, v := range x.Results {
			ci.args = append(ci.args, fc.op(v))
		}
		r.x = ci
	case *ssa.RunDefers:
		r.op = oRunDefers
	case *ssa.Slice:
		r.op = oSlice
		r.a, r.b, r.c, r.d = fc.op(x.X), fc.op(x.Low), fc.op(x.High), fc.op(x.Max)
		r.t = tiOf(x.X.Type())
	case *ssa.SliceToArrayPointer:
		r.op = oBad
		r.x = "SliceToArrayPointer"
	case *ssa.Store:
		r.op = oStore
		r.a, r.b = fc.op(x.Addr), fc.op(x.Val)
	case *ssa.TypeAssert:
		r.op = oTypeAssert
		r.a = fc.op(x.X)
		r.t = tiOf(x.AssertedType)
		r.flag = x.CommaOk
	case *ssa.UnOp:
		r.a = fc.op(x.X)
		r.t = tiOf(x.X.Type())
		switch x.Op {
		case token.MUL:
			r.op = oLoad
		case token.SUB:
			r.op = oNeg
		case token.NOT:
			r.op = oNotB
		case token.XOR:
			r.op = oCompl
		default:
			r.op = oBad
			r.x = "UnOp " + x.Op.String()
		}
	default:
		r.op = oBad
		r.x = fmt.Sprintf("%T", in)
	}
	return r
}

func loadOnly(x *ssa.IndexAddr) bool {
	for _, ref := range *x.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func (fc *fcomp) call(cc *ssa.CallCommon) *callInfo {
	ci := &callInfo{val: -1 << 30, sig: cc.Signature()}
	for _, a := range cc.Args {
		ci.args = append(ci.args, fc.op(a))
		ci.argT = append(ci.argT, tiOf(a.Type()))
	}
	if cc.Method != nil {
		ci.invoke = cc.Method.Name()
		if !cc.Method.Exported() {
			ci.invoke = cc.Method.Id()
		}
		ci.val = fc.op(cc.Value)
		return ci
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		ci.fn = fc.c.Func(v)
	case *ssa.Builtin:
		ci.builtin = v.Name()
	default:
		ci.val = fc.op(v)
	}
	if r := cc.Signature().Results(); r.Len() == 1 {
		ci.resT = tiOf(r.At(0).Type())
	}
	return ci
}

// method resolves a method of a concrete type.
func (c *Compiler) method(t *TI, name string, sel *types.Signature) *Func {
	t.mu.Lock()
	f, ok := t.meth[name]
	t.mu.Unlock()
	if ok {
		return f
	}
	ms := c.prog.SSA.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		n := s.Obj().Name()
		if !s.Obj().Exported() {
			n = s.Obj().(*types.Func).Id()
		}
		if n == name {
			c.bmu.Lock()
			fn := c.prog.SSA.MethodValue(s)
			c.bmu.Unlock()
			if fn != nil {
				f = c.Func(fn)
			}
			break
		}
	}
	t.mu.Lock()
	t.meth[name] = f
	t.mu.Unlock()
	return f
}

func implements(t *TI, it *TI) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r, ok := t.impl[it]; ok {
		return r
	}
	r := types.Implements(t.t, it.u.(*types.Interface))
	t.impl[it] = r
	return r
}

// mergeable decides statically whether a call may be explored on its own and
// its outcomes joined into one value.
func (c *Compiler) mergeable(f *Func) bool {
	c.mu.Lock()
	st := f.mergeSt
	c.mu.Unlock()
	if st == 0 {
		ok := c.mergeScan(f, map[*ssa.Function]bool{}, 0)
		st = 2
		if ok {
			st = 1
		}
		c.mu.Lock()
		f.mergeSt = st
		c.mu.Unlock()
	}
	return st == 1
}

func scalarRes(r *types.Tuple) bool {
	if r.Len() == 0 {
		return false
	}
	for i := 0; i < r.Len(); i++ {
		switch tiOf(r.At(i).Type()).kind {
		case kBool, kInt:
		default:
			return false
		}
	}
	return true
}

func (c *Compiler) mergeScan(f *Func, on map[*ssa.Function]bool, depth int) bool {
	if f.ext != nil {
		return pureExt[f.name]
	}
	if f.redirect != nil || depth > 6 || on[f.fn] {
		return false
	}
	if !scalarRes(f.fn.Signature.Results()) {
		return false
	}
	c.build(pkgOf(f.fn))
	if f.fn.Blocks == nil {
		return false
	}
	on[f.fn] = true
	defer delete(on, f.fn)
	n := 0
	for _, b := range f.fn.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeMap, *ssa.MakeChan, *ssa.Range, *ssa.Next, *ssa.MakeClosure, *ssa.RunDefers:
				return false
			case *ssa.Call:
				if x.Call.Method != nil {
					return false
				}
				switch v := x.Call.Value.(type) {
				case *ssa.Builtin:
					switch v.Name() {
					case "len", "cap":
					default:
						return false
					}
				case *ssa.Function:
					if !c.mergeScan(c.Func(v), on, depth+1) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n < 4000
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return localAddr(x.X)
	case *ssa.FieldAddr:
		return localAddr(x.X)
	}
	return false
}

func hasPre(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
