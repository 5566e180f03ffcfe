package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type ext = func(m *Machine, args []V) V

var pureExt = map[string]bool{}

// functions executed through the interpreted formatter in vh/sym/symfmt
var redirects = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
	"fmt.Printf": "Printf", "fmt.Print": "Print", "fmt.Println": "Println",
	"vh/sym.goSprintf":  "Sprintf",
	"text/template.New": "TmplNew", "text/template.Must": "TmplMust", "(*text/template.Template).Parse": "TmplParse",
	"(*text/template.Template).Execute": "TmplExecute", "go/format.Source": "FormatSource",
	"unicode/utf8.DecodeRuneInString": "DecodeRune", "unicode/utf8.DecodeLastRuneInString": "DecodeLastRune", "strings.TrimSpace": "TrimSpace",
	"flag.Bool": "FlagBool", "flag.String": "FlagString", "flag.Int": "FlagInt",
	"flag.Parse": "FlagParse", "flag.NArg": "FlagNArg", "flag.Arg": "FlagArg", "flag.Args": "FlagArgs",
}

var externs = map[string]ext{}

func lookupExtern(f *Func) ext {
	if e, ok := externs[f.name]; ok {
		return e
	}
	if f.fn.Name() == "init" && f.fn.Synthetic == "package initializer" {
		// initPkg runs package initialisers in order; a nested call is a no-op
		return func(m *Machine, a []V) V { return V{} }
	}
	n := f.name
	if i := strings.IndexByte(n, '['); i > 0 && f.fn.Origin() != nil {
		if e, ok := externs[n[:i]]; ok {
			return e
		}
	}
	return nil
}

func concStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

// rangeTable converts an interpreted *unicode.RangeTable to triples.
func rangeTable(v V) [][3]uint32 {
	p, ok := v.r.(*V)
	if !ok || p == nil {
		return nil
	}
	a := p.r.(*Agg)
	var out [][3]uint32
	for i := 0; i < 2; i++ {
		if s, ok := a.f[i].r.(*Slice); ok {
			for _, e := range s.a {
				r := e.r.(*Agg)
				lo, hi, st := uint32(r.f[0].n), uint32(r.f[1].n), uint32(r.f[2].n)
				if lo == hi {
					st = 1
				}
				out = append(out, [3]uint32{lo, hi, st})
			}
		}
	}
	return out
}

// split strided ranges that overlap nothing; all unicode tables are disjoint.
func (m *Machine) inTable(tab [][3]uint32, r V) V {
	if r.r == nil {
		x := uint32(r.n)
		for _, t := range tab {
			if t[0] <= x && x <= t[1] && (x-t[0])%t[2] == 0 {
				return boolV(true)
			}
		}
		return V{}
	}
	t := r.r.(*Term)
	return m.fromTerm(m.ctx.ApplyPred(m.ctx.MkPred(tab), t), boolTI)
}

func predOf(f func(r rune) bool) [][3]uint32 {
	var out [][3]uint32
	start := int64(-1)
	for r := int64(0); r <= unicode.MaxRune+1; r++ {
		in := r <= unicode.MaxRune && f(rune(r))
		if in && start < 0 {
			start = r
		}
		if !in && start >= 0 {
			out = append(out, [3]uint32{uint32(start), uint32(r - 1), 1})
			start = -1
		}
	}
	return out
}

var uniPreds = map[string][][3]uint32{}

func init() {
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsTitle": unicode.IsTitle,
		"IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic} {
		f := f
		var tab [][3]uint32
		externs["unicode."+n] = func(m *Machine, a []V) V {
			if a[0].r == nil {
				return boolV(f(rune(int32(uint32(a[0].n)))))
			}
			uniMu.Lock()
			if tab == nil {
				tab = predOf(f)
			}
			uniMu.Unlock()
			return m.inTable(tab, a[0])
		}
		pureExt["unicode."+n] = true
	}
	pureExt["unicode.Is"] = true
	pureExt["unicode.In"] = true
	externs["unicode.Is"] = func(m *Machine, a []V) V {
		if a[0].r == nil {
			panic(unsupported("nil range table"))
		}
		return m.inTable(rangeTable(a[0]), a[1])
	}
	externs["unicode.In"] = func(m *Machine, a []V) V {
		var ts []*Term
		if s, ok := a[1].r.(*Slice); ok {
			for _, t := range s.a {
				ts = append(ts, m.term(m.inTable(rangeTable(t), a[0]), boolTI))
			}
		}
		return m.fromTerm(m.ctx.Or(ts...), boolTI)
	}
	externs["unicode.ToUpper"] = func(m *Machine, a []V) V { return m.caseMap(a[0], unicode.ToUpper) }
	externs["unicode.ToLower"] = func(m *Machine, a []V) V { return m.caseMap(a[0], unicode.ToLower) }

	externs["os.Exit"] = func(m *Machine, a []V) V {
		m.pending = &pendingCall{}
		m.exit(a[0])
		return V{}
	}
	nop := func(m *Machine, a []V) V { return V{} }
	for _, n := range []string{"(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		externs[n] = nop
	}
	externs["(*sync.Once).Do"] = func(m *Machine, a []V) V {
		p := a[0].r.(*V)
		d := &p.r.(*Agg).f[1]
		ag, ok := d.r.(*Agg)
		_ = ag
		if ok || d.n == 1 {
			if m.onceDone == nil {
				m.onceDone = map[*V]bool{}
			}
		}
		if m.onceDone == nil {
			m.onceDone = map[*V]bool{}
		}
		if m.onceDone[p] {
			return V{}
		}
		m.onceDone[p] = true
		cl := a[1].r.(*Closure)
		m.pending = &pendingCall{push: cl.fn, bind: cl.bind, onRet: retDrop}
		return V{}
	}
	externs["(*strings.Builder).String"] = func(m *Machine, a []V) V {
		b := a[0].r.(*V).r.(*Agg)
		if s, ok := b.f[1].r.(*Slice); ok {
			return m.bytesStr(s.a)
		}
		return str("")
	}
	externs["internal/bytealg.MakeNoZero"] = func(m *Machine, a []V) V {
		return V{r: &Slice{make([]V, m.concretize(a[0], intTI))}}
	}
	externs["internal/bytealg.IndexByteString"] = func(m *Machine, a []V) V {
		if s, ok := concStr(a[0]); ok && a[1].r == nil {
			return intV(strings.IndexByte(s, byte(a[1].n)))
		}
		for i, b := range m.strBytes(a[0]) {
			if m.branch(m.fromTerm(m.eq(b, a[1], byteTI), boolTI)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	externs["internal/bytealg.IndexByte"] = func(m *Machine, a []V) V {
		s, _ := a[0].r.(*Slice)
		if s != nil {
			for i, b := range s.a {
				if m.branch(m.fromTerm(m.eq(b, a[1], byteTI), boolTI)) {
					return intV(i)
				}
			}
		}
		return intV(-1)
	}
	externs["internal/bytealg.CountString"] = func(m *Machine, a []V) V {
		n := 0
		for _, b := range m.strBytes(a[0]) {
			if m.branch(m.fromTerm(m.eq(b, a[1], byteTI), boolTI)) {
				n++
			}
		}
		return intV(n)
	}
	externs["internal/stringslite.Index"] = func(m *Machine, a []V) V { return m.strIndex(a[0], a[1]) }
	externs["strings.Index"] = func(m *Machine, a []V) V { return m.strIndex(a[0], a[1]) }
	externs["strings.Contains"] = func(m *Machine, a []V) V { return boolV(int64(m.strIndex(a[0], a[1]).n) >= 0) }
	externs["internal/bytealg.Equal"] = func(m *Machine, a []V) V {
		var x, y []V
		if s, ok := a[0].r.(*Slice); ok {
			x = s.a
		}
		if s, ok := a[1].r.(*Slice); ok {
			y = s.a
		}
		if len(x) != len(y) {
			return V{}
		}
		var ts []*Term
		for i := range x {
			ts = append(ts, m.eq(x[i], y[i], byteTI))
		}
		return m.fromTerm(m.ctx.And(ts...), boolTI)
	}
	externs["bytes.Equal"] = externs["internal/bytealg.Equal"]
	externs["internal/bytealg.CompareString"] = func(m *Machine, a []V) V {
		if x, ok := concStr(a[0]); ok {
			if y, ok := concStr(a[1]); ok {
				return intV(strings.Compare(x, y))
			}
		}
		lt, gt := m.strLess(a[0], a[1]), m.strLess(a[1], a[0])
		switch m.choose([]*Term{lt, gt, m.ctx.Not(m.ctx.Or(lt, gt))}) {
		case 0:
			return intV(-1)
		case 1:
			return intV(1)
		}
		return intV(0)
	}
	externs["internal/runtime/maps.fatal"] = nop
	externs["internal/reflectlite.ValueOf"] = func(m *Machine, a []V) V {
		return V{r: &Agg{[]V{a[0], {}, {}}}}
	}
	externs["(internal/reflectlite.Value).Len"] = func(m *Machine, a []V) V {
		i, _ := a[0].r.(*Agg).f[0].r.(*Iface)
		if i == nil {
			panic(unsupported("reflect Len of nil"))
		}
		if s, ok := i.v.r.(*Slice); ok {
			return intV(len(s.a))
		}
		return intV(0)
	}
	externs["internal/reflectlite.Swapper"] = func(m *Machine, a []V) V {
		i, _ := a[0].r.(*Iface)
		var s []V
		if x, ok := i.v.r.(*Slice); ok {
			s = x.a
		}
		return V{r: &Closure{nat: func(m *Machine, a []V) V {
			i, j := a[0].n, a[1].n
			x, y := copyVal(s[i]), copyVal(s[j])
			m.store(&s[i], y)
			m.store(&s[j], x)
			return V{}
		}}}
	}
	externs["math/bits.Len64"] = func(m *Machine, a []V) V {
		n := m.concretize(a[0], tiUint64)
		c := 0
		for n != 0 {
			n >>= 1
			c++
		}
		return intV(c)
	}
	externs["math/bits.Len"] = externs["math/bits.Len64"]
	externs["errors.New"] = nil
	delete(externs, "errors.New")
	rf := func(m *Machine, a []V) V {
		n, ok := concStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		if v, ok := m.files[n]; ok {
			return m.tupleOf(V{r: &Slice{m.strBytes(v)}}, V{})
		}
		b, err := os.ReadFile(n)
		if err != nil {
			panic(unsupported("ReadFile " + n))
		}
		return m.tupleOf(V{r: &Slice{m.strBytes(str(string(b)))}}, V{})
	}
	externs["os.ReadFile"] = rf
	externs["io/ioutil.ReadFile"] = rf
	wf := func(m *Machine, a []V) V {
		v := str("")
		if s, ok := a[1].r.(*Slice); ok {
			v = m.bytesStr(s.a)
		}
		m.setFile(mustStr(a[0]), v, true)
		return V{}
	}
	externs["os.WriteFile"] = wf
	externs["io/ioutil.WriteFile"] = wf
	externs["github.com/goccmack/goutil/ioutil.WriteFile"] = wf
	externs["os.MkdirAll"] = nop
	externs["os.Remove"] = func(m *Machine, a []V) V { m.setFile(mustStr(a[0]), V{}, false); return V{} }
	externs["github.com/goccmack/goutil/ioutil.Exist"] = func(m *Machine, a []V) V {
		_, ok := m.files[mustStr(a[0])]
		return boolV(ok)
	}
	externs["os.Getenv"] = func(m *Machine, a []V) V { return str("") }

	// fast paths for concrete strings; nil result means: run the source
	conc1 := func(name string, g func(string) string) {
		fast[name] = func(m *Machine, a []V) (V, bool) {
			if s, ok := concStr(a[0]); ok {
				return str(g(s)), true
			}
			return V{}, false
		}
	}
	conc1("strings.ToLower", strings.ToLower)
	conc1("strings.ToUpper", strings.ToUpper)
	conc1("strings.TrimSpace", strings.TrimSpace)

	// ---- harness intrinsics ----
	sy := func(n string, f ext) { externs["vh/sym."+n] = f }
	sy("Int", func(m *Machine, a []V) V {
		n := m.fresh(mustStr(a[0]))
		lo, hi := int64(a[1].n), int64(a[2].n)
		v := m.ctx.Var(n, 64)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "int", v: V{r: v}, w: 64})
		// a small width keeps the bit vectors short
		m.assume(m.ctx.And(m.ctx.Not(m.ctx.Slt(v, m.ctx.Const(64, uint64(lo)))), m.ctx.Not(m.ctx.Slt(m.ctx.Const(64, uint64(hi)), v))))
		if lo == hi {
			return V{n: uint64(lo)}
		}
		return V{r: v}
	})
	sy("Rune", func(m *Machine, a []V) V {
		n := m.fresh(mustStr(a[0]))
		v := m.ctx.Var(n, 32)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "rune", v: V{r: v}, w: 32})
		return V{r: v}
	})
	sy("Bool", func(m *Machine, a []V) V {
		n := m.fresh(mustStr(a[0]))
		v := m.ctx.Var(n, 0)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "bool", v: V{r: v}, w: 0})
		return V{r: v}
	})
	sy("Assume", func(m *Machine, a []V) V {
		t := m.term(a[0], boolTI)
		m.assume(t)
		return V{}
	})
	sy("Assert", func(m *Machine, a []V) V {
		m.assert(m.term(a[0], boolTI), a[1])
		return V{}
	})
	sy("Reach", func(m *Machine, a []V) V {
		m.reachC[mustStr(a[0])]++
		return V{}
	})
	tr := func(t *TI) ext {
		return func(m *Machine, a []V) V {
			m.traces = append(m.traces, traceEnt{mustStr(a[0]), a[1], t})
			return V{}
		}
	}
	sy("TraceInt", tr(intTI))
	sy("TraceBool", tr(boolTI))
	sy("TraceStr", tr(stringTI))
	sy("Note", func(m *Machine, a []V) V {
		return V{}
	})
	sy("And", func(m *Machine, a []V) V { return m.boolN(m.ctx.And, a[0]) })
	sy("Or", func(m *Machine, a []V) V { return m.boolN(m.ctx.Or, a[0]) })
	sy("Not", func(m *Machine, a []V) V { return m.fromTerm(m.ctx.Not(m.term(a[0], boolTI)), boolTI) })
	sy("EqInt", func(m *Machine, a []V) V { return m.fromTerm(m.eq(a[0], a[1], intTI), boolTI) })
	sy("EqRune", func(m *Machine, a []V) V { return m.fromTerm(m.eq(a[0], a[1], runeTI), boolTI) })
	sy("LtInt", func(m *Machine, a []V) V {
		return m.fromTerm(m.ctx.Slt(m.term(a[0], intTI), m.term(a[1], intTI)), boolTI)
	})
	sy("EqBool", func(m *Machine, a []V) V { return m.fromTerm(m.eq(a[0], a[1], boolTI), boolTI) })
	sy("EqStr", func(m *Machine, a []V) V { return m.fromTerm(m.eq(a[0], a[1], stringTI), boolTI) })
	sy("IteInt", func(m *Machine, a []V) V {
		return m.fromTerm(m.ctx.Ite(m.term(a[0], boolTI), m.term(a[1], intTI), m.term(a[2], intTI)), intTI)
	})
	sy("Pick", func(m *Machine, a []V) V { return V{n: m.concretize(a[0], intTI)} })
	sy("PickRune", func(m *Machine, a []V) V { return V{n: m.concretize(a[0], runeTI)} })
	sy("InRunes", func(m *Machine, a []V) V {
		// InRunes(r, lo, hi)
		r := m.term(a[0], runeTI)
		lo, hi := m.term(a[1], runeTI), m.term(a[2], runeTI)
		return m.fromTerm(m.ctx.And(m.ctx.Not(m.ctx.Slt(r, lo)), m.ctx.Not(m.ctx.Slt(hi, r))), boolTI)
	})
	sy("Const", func(m *Machine, a []V) V {
		_, ok := a[0].r.(string)
		return boolV(ok || a[0].r == nil)
	})
	sy("Symbolic", func(m *Machine, a []V) V { return boolV(true) })
	sy("Catch", func(m *Machine, a []V) V {
		lim := int64(a[0].n)
		cl := a[1].r.(*Closure)
		old := m.limit
		m.C.ensure(cl.fn)
		fr := m.push(cl.fn, nil, cl.bind, retCatch)
		fr.catchLim = old
		if lim > 0 && m.steps+lim < m.limit {
			m.limit = m.steps + lim
		}
		m.pending = &pendingCall{}
		return V{}
	})
	sy("PanicText", func(m *Machine, a []V) V { return m.smem["panic"] })
	sy("isolate", func(m *Machine, a []V) V {
		m.isolate(a[0].n != 0)
		return V{}
	})
	sy("MapDeviate", func(m *Machine, a []V) V {
		m.mapMode, m.mapSt = 3, &mapState{dev: a[0].r.(*Slice).a}
		return V{}
	})
	sy("MapSites", func(m *Machine, a []V) V {
		if m.mapSt == nil {
			return V{}
		}
		return intV(len(m.mapSt.sites))
	})
	sy("MapOrder", func(m *Machine, a []V) V { m.mapMode = int(a[0].n); return V{} })
	sy("SetFile", func(m *Machine, a []V) V {
		m.setFile(mustStr(a[0]), a[1], true)
		return V{}
	})
	sy("Files", func(m *Machine, a []V) V {
		var ns []string
		for n := range m.files {
			ns = append(ns, path.Clean(n))
		}
		sort.Strings(ns)
		o := make([]V, len(ns))
		for i, n := range ns {
			o[i] = str(n)
		}
		return V{r: &Slice{o}}
	})
	sy("file", func(m *Machine, a []V) V {
		v, ok := m.files[mustStr(a[0])]
		if !ok {
			return m.tupleOf(str(""), V{})
		}
		return m.tupleOf(v, V{n: 1})
	})
	sy("exitCode", func(m *Machine, a []V) V { return m.smem["exit"] })
	// formatter support
	sf := func(n string, f ext) { externs["vh/sym/symfmt."+n] = f }
	sf("kindOf", func(m *Machine, a []V) V {
		i, ok := a[0].r.(*Iface)
		if !ok {
			return intV(-1)
		}
		k := int(i.t.kind)
		if i.t.kind == kInt && i.t.signed {
			k = 100
		}
		return intV(k)
	})
	sf("intOf", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		return V{n: m.concretize(i.v, i.t)}
	})
	sf("runeOf", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		return m.convert(i.v, i.t, runeTI)
	})
	sf("boolOf", func(m *Machine, a []V) V { return a[0].r.(*Iface).v })
	sf("strOf", func(m *Machine, a []V) V { return a[0].r.(*Iface).v })
	sf("typeName", func(m *Machine, a []V) V {
		i, ok := a[0].r.(*Iface)
		if !ok {
			return str("<nil>")
		}
		return str(i.t.String())
	})
	sf("sliceLen", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		switch x := i.v.r.(type) {
		case *Slice:
			return intV(len(x.a))
		case *Agg:
			return intV(len(x.f))
		}
		return intV(0)
	})
	sf("elem", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		k := int(a[1].n)
		wrapI := func(v V, t *TI) V {
			if t.kind == kIface {
				return v
			}
			return V{r: &Iface{t, copyVal(v)}}
		}
		switch x := i.v.r.(type) {
		case *Slice:
			return wrapI(x.a[k], i.t.elem)
		case *Agg:
			if i.t.kind == kStruct {
				return wrapI(x.f[k], i.t.fields[k])
			}
			return wrapI(x.f[k], i.t.elem)
		}
		panic("elem")
	})
	fieldNo := func(a V, name V) int {
		i, ok := a.r.(*Iface)
		if !ok || i.t.kind != kStruct {
			return -1
		}
		st := i.t.u.(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == mustStr(name) {
				return k
			}
		}
		return -1
	}
	sf("hasField", func(m *Machine, a []V) V { return boolV(fieldNo(a[0], a[1]) >= 0) })
	sf("field", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		k := fieldNo(a[0], a[1])
		v, t := i.v.r.(*Agg).f[k], i.t.fields[k]
		if t.kind == kIface {
			return v
		}
		return V{r: &Iface{t, copyVal(v)}}
	})
	sf("method", func(m *Machine, a []V) V {
		i, ok := a[0].r.(*Iface)
		if !ok {
			return V{}
		}
		f := m.C.method(i.t, mustStr(a[1]), nil)
		if f == nil {
			return V{}
		}
		r := f.fn.Signature.Results()
		if f.fn.Signature.Params().Len() == 0 && r.Len() == 1 {
			switch b, _ := r.At(0).Type().(*types.Basic); {
			case b == nil:
			case b.Kind() == types.String:
				return intV(1)
			case b.Kind() == types.Bool:
				return intV(2)
			case b.Kind() == types.Int:
				return intV(3)
			}
		}
		return intV(4)
	})
	call := func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		m.pending = &pendingCall{push: m.C.method(i.t, mustStr(a[1]), nil), args: []V{i.v}, onRet: retNormal}
		return V{}
	}
	sf("callString", call)
	sf("callBool", call)
	sf("callInt", call)
	sf("fail", func(m *Machine, a []V) V { panic(unsupported(mustStr(a[0]))) })
	sf("isNil", func(m *Machine, a []V) V {
		i, ok := a[0].r.(*Iface)
		return boolV(!ok || i.v.r == nil && (i.t.kind == kPtr || i.t.kind == kMap || i.t.kind == kSlice || i.t.kind == kFunc))
	})
	sf("deref", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		p := i.v.r.(*V)
		return V{r: &Iface{i.t.elem, copyVal(*p)}}
	})
	sf("mapLen", func(m *Machine, a []V) V {
		if mp, ok := a[0].r.(*Iface).v.r.(*MapV); ok {
			return intV(mp.live)
		}
		return intV(0)
	})
	sf("address", func(m *Machine, a []V) V {
		i := a[0].r.(*Iface)
		return str(fmt.Sprintf("%p", i.v.r))
	})
	_ = sort.Ints
	_ = json.Marshal
}

var fast = map[string]func(m *Machine, a []V) (V, bool){}

func mustStr(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported("symbolic string where a concrete one is needed"))
	}
	return s
}

func (m *Machine) boolN(op func(...*Term) *Term, v V) V {
	var ts []*Term
	if s, ok := v.r.(*Slice); ok {
		for _, x := range s.a {
			ts = append(ts, m.term(x, boolTI))
		}
	}
	return m.fromTerm(op(ts...), boolTI)
}

func (m *Machine) fresh(n string) string {
	k := m.nameCnt[n]
	m.nameCnt[n]++
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (m *Machine) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	r, vals := m.feasible(t)
	switch r {
	case Unsat:
		panic(pathEnd{"assume", ""})
	case Unknown:
		panic(pathEnd{"unknown", "assume"})
	}
	if vals != nil {
		m.setModelVals(vals)
	}
	m.addPC(t)
}

func (m *Machine) caseMap(v V, f func(rune) rune) V {
	if v.r == nil {
		return V{n: uint64(int64(f(rune(int32(uint32(v.n))))))}
	}
	t := v.r.(*Term)
	c := m.ctx
	if m.choose([]*Term{c.Ult(t, c.Const(32, 0x80)), c.Not(c.Ult(t, c.Const(32, 0x80)))}) != 0 {
		panic(unsupported("case mapping of a symbolic non-ASCII rune"))
	}
	r := t
	for x := rune(0); x < 0x80; x++ {
		if y := f(x); y != x {
			r = c.Ite(c.Eq(t, c.Const(32, uint64(x))), c.Const(32, uint64(y)), r)
		}
	}
	return V{r: r}
}

func (m *Machine) strIndex(a, b V) V {
	x, xok := concStr(a)
	y, yok := concStr(b)
	if xok && yok {
		return intV(strings.Index(x, y))
	}
	e, f := strElems(a), strElems(b)
	off := 0
	for i := 0; i+len(f) <= len(e); i++ {
		var ts []*Term
		for j := range f {
			ts = append(ts, m.eq(e[i+j], f[j], runeTI))
		}
		if m.branch(m.fromTerm(m.ctx.And(ts...), boolTI)) {
			return intV(off)
		}
		off += m.runeSize(e[i])
	}
	return intV(-1)
}

var _ = utf8.RuneError
var uniMu sync.Mutex

// setFile writes or removes a file of the executed program.
func (m *Machine) setFile(n string, v V, put bool) {
	if m.trailOn {
		old, had := m.files[n]
		m.trail = append(m.trail, trailEnt{kind: 3, fn: func() {
			if had {
				m.files[n] = old
			} else {
				delete(m.files, n)
			}
		}})
	}
	if put {
		m.files[n] = v
	} else {
		delete(m.files, n)
	}
}
