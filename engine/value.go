package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a runtime value.
//
//	bool, integers: n (sign/zero extended), or r=*Term when symbolic
//	string: r = string or *SymStr (nil means "")
//	pointer: r = *V; slice: r = *Slice; map: r = *MapV; struct/array/tuple: r = *Agg
//	interface: r = *Iface; func: r = *Closure
type V struct {
	n uint64
	r any
}

type Agg struct{ f []V }
type Slice struct{ a []V }
type Iface struct {
	t *TI
	v V
}
type Closure struct {
	fn   *Func
	bind []V
	nat  func(m *Machine, args []V) V
}

// SymStr is a sequence of runes, some symbolic (32-bit terms).
type SymStr struct{ e []V }

type MapEnt struct {
	k, v  V
	dead  bool
	hk    any
	hkNil bool
}
type MapV struct {
	ents []*MapEnt
	idx  map[any]*MapEnt
	nsym int
	live int
	id   int
}

type MapIter struct {
	m    *MapV
	i    int
	ents []*MapEnt // remaining, in order
}
type StrIter struct {
	s    V
	e    []V
	pos  V
	conc string
	i    int
	off  int
}

// TI is a canonical type.
type TI struct {
	t      types.Type
	u      types.Type
	id     int
	w      uint8 // 0 for bool
	signed bool
	kind   kind
	elem   *TI
	key    *TI
	fields []*TI
	n      int
	mu     sync.Mutex
	meth   map[string]*Func
	impl   map[*TI]bool
	ms     *types.MethodSet
}

type kind uint8

const (
	kBool kind = iota
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kStruct
	kArray
	kIface
	kFunc
	kTuple
	kOther
)

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int
)

func tiOf(t types.Type) *TI {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TI {
	if x := tiMap.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{t: t, u: t.Underlying(), id: tiN, meth: map[string]*Func{}, impl: map[*TI]bool{}}
	tiN++
	tiMap.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		inf := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			ti.kind = kPtr
		case inf&types.IsBoolean != 0:
			ti.kind = kBool
		case inf&types.IsInteger != 0:
			ti.kind = kInt
			ti.signed = inf&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case inf&types.IsFloat != 0:
			ti.kind = kFloat
			ti.w = 64
		case inf&types.IsString != 0:
			ti.kind = kString
		default:
			ti.kind = kOther
		}
	case *types.Pointer:
		ti.kind = kPtr
		ti.elem = tiLocked(u.Elem())
	case *types.Slice:
		ti.kind = kSlice
		ti.elem = tiLocked(u.Elem())
	case *types.Map:
		ti.kind = kMap
		ti.key = tiLocked(u.Key())
		ti.elem = tiLocked(u.Elem())
	case *types.Struct:
		ti.kind = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tiLocked(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = kArray
		ti.elem = tiLocked(u.Elem())
		ti.n = int(u.Len())
	case *types.Interface:
		ti.kind = kIface
	case *types.Signature:
		ti.kind = kFunc
	case *types.Tuple:
		ti.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tiLocked(u.At(i).Type()))
		}
	default:
		ti.kind = kOther
	}
	return ti
}

func (t *TI) String() string {
	return types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
}

func zero(t *TI) V {
	switch t.kind {
	case kStruct, kTuple:
		a := &Agg{make([]V, len(t.fields))}
		for i, f := range t.fields {
			if f.kind == kStruct || f.kind == kArray || f.kind == kString {
				a.f[i] = zero(f)
			}
		}
		return V{r: a}
	case kArray:
		a := &Agg{make([]V, t.n)}
		if t.elem.kind == kStruct || t.elem.kind == kArray || t.elem.kind == kString {
			for i := range a.f {
				a.f[i] = zero(t.elem)
			}
		}
		return V{r: a}
	case kString:
		return V{r: ""}
	}
	return V{}
}

func copyVal(v V) V {
	if a, ok := v.r.(*Agg); ok {
		n := &Agg{make([]V, len(a.f))}
		for i := range a.f {
			n.f[i] = copyVal(a.f[i])
		}
		return V{r: n}
	}
	return v
}

func str(s string) V { return V{r: s} }
func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func intV(i int) V { return V{n: uint64(int64(i))} }

func isSym(v V) bool {
	switch v.r.(type) {
	case *Term, *SymStr:
		return true
	}
	return false
}

// runesOf decodes a concrete string; invalid bytes become 0x110000+b.
func runesOf(s string) []V {
	out := make([]V, 0, len(s))
	for i, r := range s {
		if r == 0xFFFD {
			// distinguish a real U+FFFD from an invalid byte
			if !(i+2 < len(s) && s[i] == 0xEF && s[i+1] == 0xBF && s[i+2] == 0xBD) {
				r = 0x110000 + rune(s[i])
			}
		}
		out = append(out, V{n: uint64(r)})
	}
	return out
}

func strElems(v V) []V {
	switch s := v.r.(type) {
	case string:
		return runesOf(s)
	case *SymStr:
		return s.e
	case nil:
		return nil
	}
	panic(fmt.Sprintf("strElems %T", v.r))
}

// mkStr builds a string value from runes, collapsing to a Go string when concrete.
func mkStr(e []V) V {
	for _, x := range e {
		if x.r != nil {
			return V{r: &SymStr{e}}
		}
	}
	b := make([]byte, 0, len(e))
	for _, x := range e {
		if x.n >= 0x110000 && x.n < 0x110100 {
			b = append(b, byte(x.n-0x110000))
		} else {
			b = append(b, string(rune(x.n))...)
		}
	}
	return V{r: string(b)}
}

// hkey returns a comparable Go value for a concrete key; ok is false when it
// contains symbolic parts.
func hkey(v V, t *TI) (any, bool) {
	switch t.kind {
	case kBool, kInt, kFloat:
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case kString:
		switch s := v.r.(type) {
		case string:
			return s, true
		case nil:
			return "", true
		}
		return nil, false
	case kPtr:
		if v.r == nil {
			return nil, true
		}
		return v.r.(*V), true
	}
	b, ok := hbytes(nil, v, t)
	if !ok {
		return nil, false
	}
	return "\x00" + string(b), true
}

func hbytes(b []byte, v V, t *TI) ([]byte, bool) {
	switch t.kind {
	case kBool, kInt, kFloat:
		if v.r != nil {
			return nil, false
		}
		return binary.LittleEndian.AppendUint64(b, v.n), true
	case kString:
		switch s := v.r.(type) {
		case string:
			b = binary.LittleEndian.AppendUint64(b, uint64(len(s)))
			return append(b, s...), true
		case nil:
			return binary.LittleEndian.AppendUint64(b, 0), true
		}
		return nil, false
	case kPtr:
		var p uintptr
		if v.r != nil {
			p = uintptr(unsafe.Pointer(v.r.(*V)))
		}
		return binary.LittleEndian.AppendUint64(b, uint64(p)), true
	case kStruct:
		ok := true
		for i, x := range v.r.(*Agg).f {
			if b, ok = hbytes(b, x, t.fields[i]); !ok {
				return nil, false
			}
		}
		return b, true
	case kArray:
		ok := true
		for _, x := range v.r.(*Agg).f {
			if b, ok = hbytes(b, x, t.elem); !ok {
				return nil, false
			}
		}
		return b, true
	case kIface:
		if v.r == nil {
			return append(b, 0), true
		}
		i := v.r.(*Iface)
		b = binary.LittleEndian.AppendUint64(append(b, 1), uint64(i.t.id))
		return hbytes(b, i.v, i.t)
	case kMap, kSlice, kFunc:
		panic(unsupported("hash of " + t.String()))
	}
	panic(unsupported("hash of " + t.String()))
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

var sizes = types.SizesFor("gc", "amd64")

func hasPointers(t *TI) bool {
	switch t.kind {
	case kBool, kInt, kFloat:
		return false
	case kStruct:
		for _, f := range t.fields {
			if hasPointers(f) {
				return true
			}
		}
		return false
	case kArray:
		return t.n > 0 && hasPointers(t.elem)
	}
	return true
}

var _ = ssa.NaiveForm
