package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Cached  int
	ModelHi int
	Time    time.Duration
	Errors  []string
	cache   map[string]*cacheEnt
	unsat   map[int32][][]*Term // per condition: conjunctions found to contradict it
	binary  []string
	timeout int
	Unknown int
	logf    *os.File
	check2  int // every n-th query is re-decided by a second solver process
	second  *Solver
	Cross   int
	CrossNA int
	Resets  int
	// emission state
	epoch   uint32
	done    []uint32 // per term id: epoch in which it was emitted
	scanned []bool   // per term id: atoms registered
	predE   []uint32
	raw     bool // plain bit-vector encoding of every variable
	arith   map[int32]bool
	parts   map[uint8]*Partition
}

type cacheEnt struct {
	res SatRes
	m   map[int32]uint64
}

func NewSolver(ctx *Ctx, bin []string, timeoutMs int) *Solver {
	return &Solver{ctx: ctx, cache: map[string]*cacheEnt{}, unsat: map[int32][][]*Term{}, binary: bin, timeout: timeoutMs, epoch: 1, arith: map[int32]bool{}, parts: map[uint8]*Partition{}}
}

func (s *Solver) start() {
	if os.Getenv("VENGINE_LOG") != "" {
		s.logf, _ = os.CreateTemp(os.Getenv("VENGINE_LOG"), "q")
	}
	s.cmd = exec.Command(s.binary[0], s.binary[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	pre := s.prelude()
	io.WriteString(s.in, pre)
}

func (s *Solver) prelude() string {
	if strings.Contains(s.binary[0], "z3") {
		return fmt.Sprintf("(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	}
	return "(set-option :produce-models true)\n(set-option :incremental true)\n(set-logic QF_BV)\n"
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.second != nil {
		s.second.Close()
	}
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// slice returns the constraints of pc connected to the variables of cs.
func slice(pc []*Term, cs []*Term) []*Term {
	in := map[int32]bool{}
	for _, c := range cs {
		for _, v := range c.vars {
			in[v] = true
		}
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, p)
				for _, v := range p.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// Check decides pc /\ c. On Sat it returns values for the variables involved.
func (s *Solver) Check(pc []*Term, c *Term) (SatRes, map[int32]uint64) {
	if c.isFalse() {
		return Unsat, nil
	}
	sl := slice(pc, []*Term{c})
	ids := make([]int, 0, len(sl)+1)
	for _, t := range sl {
		ids = append(ids, int(t.id))
	}
	ids = append(ids, int(c.id))
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Cached++
		return e.res, e.m
	}
	r, m := s.query(append(sl[:len(sl):len(sl)], c))
	if r == Unsat && len(s.unsat[c.id]) < 24 {
		s.unsat[c.id] = append(s.unsat[c.id], sl)
	}
	if s.check2 > 0 && s.Queries%s.check2 == 0 && r != Unknown && s.Cross+s.CrossNA < 25 {
		if s.second == nil {
			s.second = NewSolver(s.ctx, []string{"cvc5", "--incremental", "--tlimit-per=2000"}, 2000)
			s.second.raw = true
		}
		r2, _ := s.second.query(append(sl, c))
		switch {
		case r2 == Unknown:
			s.CrossNA++
		case r2 != r:
			s.Errors = append(s.Errors, "(error \"two solvers disagree\")")
		default:
			s.Cross++
		}
	}
	if r != Unknown {
		s.cache[key] = &cacheEnt{r, m}
	} else {
		s.Unknown++
	}
	return r, m
}

func (s *Solver) query(cs []*Term) (SatRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	s.Queries++
	var sb strings.Builder
	vs := map[int32]bool{}
	change := false
	for _, c := range cs {
		if s.scan(c) {
			change = true
		}
	}
	if change && s.epoch > 1 {
		s.Resets++
		sb.WriteString("(reset)\n" + s.prelude())
		s.epoch++
	} else if s.epoch == 1 {
		s.epoch = 2
	}
	for _, c := range cs {
		s.emit(&sb, c)
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n(echo \"done\")\n")
	io.WriteString(s.in, sb.String())
	if s.logf != nil {
		s.logf.WriteString(sb.String())
	}
	res := Unknown
	bad := false
	for {
		l := s.line()
		if strings.HasPrefix(l, "(error") {
			s.Errors = append(s.Errors, l)
			bad = true
			if strings.Contains(l, "solver died") {
				s.cmd.Wait()
				s.cmd = nil
				s.epoch++
				return Unknown, nil
			}
			continue
		}
		if l == "done" || l == "\"done\"" {
			break
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	if bad {
		res = Unknown
	}
	var m map[int32]uint64
	if res == Sat && len(vs) > 0 {
		var q strings.Builder
		order := make([]int32, 0, len(vs))
		for v := range vs {
			order = append(order, v)
		}
		sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
		q.WriteString("(get-value (")
		for _, v := range order {
			q.WriteString(s.ctx.varl[v].ref() + " ")
		}
		q.WriteString("))\n(echo \"done\")\n")
		io.WriteString(s.in, q.String())
		m = map[int32]uint64{}
		var all strings.Builder
		for {
			l := s.line()
			if l == "done" || l == "\"done\"" {
				break
			}
			if strings.HasPrefix(l, "(error") {
				s.Errors = append(s.Errors, l)
				return Unknown, nil
			}
			all.WriteString(l + " ")
		}
		parseModel(all.String(), m)
		for v := range m {
			if !s.plain(v) {
				m[v] = s.parts[s.ctx.varl[v].w].rep[m[v]]
			}
		}
	} else if res == Sat {
		m = map[int32]uint64{}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, m
}

func parseModel(t string, m map[int32]uint64) {
	f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(f); i += 2 {
		n, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		if err != nil {
			panic("bad model: " + t)
		}
		v := f[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("bad model value " + v)
		}
		m[int32(n)] = x
	}
}
