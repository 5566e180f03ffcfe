package main

import (
	"fmt"
	"strings"
)

// sharedMem is the memory that the package variables of the code under test
// reach when isolation starts.
type sharedMem struct {
	slots map[*V]bool
	maps  map[*MapV]bool
}

func (s *sharedMem) slot(p *V) {
	if p == nil || s.slots[p] {
		return
	}
	s.slots[p] = true
	s.add(*p)
}

// add marks what v refers to.
func (s *sharedMem) add(v V) {
	switch x := v.r.(type) {
	case *V:
		s.slot(x)
	case *Agg:
		for i := range x.f {
			s.slot(&x.f[i])
		}
	case *Slice:
		a := x.a[:cap(x.a)]
		for i := range a {
			s.slot(&a[i])
		}
	case *Iface:
		s.add(x.v)
	case *Closure:
		for _, b := range x.bind {
			s.add(b)
		}
	case *MapV:
		if s.maps[x] {
			return
		}
		s.maps[x] = true
		for _, e := range x.ents {
			s.add(e.k)
			s.slot(&e.v)
		}
	}
}

// theirs says whether global i belongs to the code under test; the ast package
// of an LR(1) parser is the user's.
func (c *Compiler) theirs(i int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.gl[i].Pkg.Pkg.Path()
	if c.prog.Std[p] || strings.HasPrefix(p, "vh/h/") || p == "vh/sym" || strings.HasPrefix(p, "vh/sym/") || p == "vh/ref" {
		return false
	}
	return !(strings.HasPrefix(p, "vh/g/") && strings.HasSuffix(p, "/ast"))
}

// isolate starts or ends a section that may not write to shared memory.
func (m *Machine) isolate(on bool) {
	if on && m.shared == nil {
		s := &sharedMem{map[*V]bool{}, map[*MapV]bool{}}
		for i, g := range m.globs {
			if g != nil && m.C.theirs(i) {
				s.slot(g)
			}
		}
		m.shared = s
	}
	old := m.isolated
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{kind: 3, fn: func() { m.isolated = old }})
	}
	m.isolated = on
}

func (m *Machine) sharedWrite() {
	fn := ""
	for i := len(m.stack) - 1; i >= 0 && fn == ""; i-- {
		if m.stack[i].fn.mine {
			fn = m.stack[i].fn.name
		}
	}
	msg := fmt.Sprintf("%s writes to memory that every user of the package shares", fn)
	m.job.violation(m, "race", msg)
	panic(pathEnd{"violation", msg})
}
