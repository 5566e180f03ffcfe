package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct {
	Name    string   `json:"name"`
	Pkg     string   `json:"pkg"`
	Setup   string   `json:"setup"`
	Run     string   `json:"run"`
	Steps   int64    `json:"steps"`
	MaxPath int64    `json:"max_paths"`
	MapMode int      `json:"map_mode"`
	Init    []string `json:"init"`
}

type Violation struct {
	Msg    string            `json:"msg"`
	Kind   string            `json:"kind"`
	Inputs map[string]string `json:"inputs"`
	Detail string            `json:"detail,omitempty"`
	Hist   []int             `json:"-"`
}

type JobResult struct {
	Name         string         `json:"name"`
	Paths        int64          `json:"paths"`
	Cut          int64          `json:"assume_cut"`
	Branch       int64          `json:"forks"`
	Merges       int64          `json:"merges"`
	Steps        int64          `json:"steps"`
	Asserts      int64          `json:"asserts"`
	AssertQ      int64          `json:"assert_queries"`
	Complete     bool           `json:"complete"`
	Incomplete   map[string]int `json:"incomplete"`
	Violations   []*Violation   `json:"violations"`
	VCount       map[string]int `json:"violation_counts"`
	Reach        map[string]int `json:"reach"`
	Samples      []*Sample      `json:"samples"`
	Funcs        map[string]int `json:"funcs"`
	Queries      int            `json:"queries"`
	Cached       int            `json:"cached"`
	ModelHits    int            `json:"model_hits"`
	SolverErrors []string       `json:"solver_errors"`
	SolverS      float64        `json:"solver_s"`
	CrossChecked int            `json:"cross_checked"`
	CrossNA      int            `json:"cross_no_answer"`
	Resets       int            `json:"encoding_resets"`
	SetupS       float64        `json:"setup_s"`
	SetupErr     string         `json:"setup_err,omitempty"`
	WallS        float64        `json:"wall_s"`
	Depth        int            `json:"max_depth"`
}

// Sample is one completed path: inputs that take it, and what the harness
// traced on it, evaluated for these inputs.
type Sample struct {
	Inputs map[string]string `json:"inputs"`
	Traces []string          `json:"traces"`
}

type JobState struct {
	Job
	res     *JobResult
	mu      sync.Mutex
	pending int64 // tasks queued or running
	start   time.Time
	stopped int32
	vkeys   map[string]int
	order   int
}

type Task struct {
	js     *JobState
	prefix []int
	skip   []int // calls not joined on the way
}

type Pool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	q     []Task
	idle  int32
	n     int
	busy  int
	done  bool
	wantD int32
}

func (p *Pool) push(t Task) {
	p.mu.Lock()
	p.q = append(p.q, t)
	p.mu.Unlock()
	p.cond.Signal()
}

// pop prefers a task of job cur, to save set-up.
func (p *Pool) pop(cur *JobState) (Task, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.busy--
	for {
		if len(p.q) > 0 {
			k := 0
			for i, t := range p.q {
				if t.js == cur {
					k = i
					break
				}
			}
			t := p.q[k]
			p.q = append(p.q[:k], p.q[k+1:]...)
			p.busy++
			return t, true
		}
		if p.busy == 0 {
			p.done = true
			p.cond.Broadcast()
			return Task{}, false
		}
		atomic.AddInt32(&p.idle, 1)
		p.cond.Wait()
		atomic.AddInt32(&p.idle, -1)
		if p.done && len(p.q) == 0 {
			return Task{}, false
		}
	}
}

func (m *Machine) runInit(path string) {
	p := m.C.prog.Pkgs[path]
	if p == nil {
		panic(unsupported("no package " + path))
	}
	m.initPkg(path, map[string]bool{})
}

var stdInit = map[string]bool{"unicode": true, "unicode/utf8": true, "sort": true, "strings": true, "bytes": true, "strconv": true, "io": true,
	"slices": true, "math": true, "math/bits": true, "cmp": true, "text/template": false, "internal/bytealg": false, "iter": false, "container/list": true}

func (m *Machine) initPkg(path string, seen map[string]bool) {
	if seen[path] {
		return
	}
	seen[path] = true
	p := m.C.prog.Pkgs[path]
	if p == nil {
		return
	}
	if m.inited[p] {
		return
	}
	if m.C.prog.Std[path] && !stdInit[path] {
		return
	}
	for _, im := range p.Pkg.Imports() {
		m.initPkg(im.Path(), seen)
	}
	m.inited[p] = true
	m.C.build(p)
	fn := p.Func("init")
	if fn == nil {
		return
	}
	m.callTop(m.C.Func(fn))
}

func (m *Machine) callTop(f *Func) {
	m.stack = m.stack[:0]
	m.push(f, nil, nil, retNormal)
	m.run()
}

// a package's init calls the inits of its imports; those are run by initPkg.
func isInitCall(f *Func) bool {
	return f.fn.Name() == "init" && f.fn.Synthetic == "package initializer"
}

var (
	dlMu sync.Mutex
)

func main() {
	if os.Getenv("VENGINE_FORKS") != "" {
		forkSites = map[string]int{}
		defer reportForks()
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	dir := flag.String("dir", "", "module directory")
	jobsF := flag.String("jobs", "", "jobs file (JSON list)")
	out := flag.String("out", "", "result file")
	workers := flag.Int("workers", 8, "workers")
	secs := flag.Float64("seconds", 600, "time budget for exploration")
	timeout := flag.Int("qtimeout", 20000, "solver timeout per query, ms")
	solver := flag.String("solver", "z3 -in", "solver command")
	trace := flag.Bool("trace", false, "")
	cross := flag.Int("cross", 97, "re-decide every n-th query with a second solver (0: never)")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var jobs []Job
	b, err := os.ReadFile(*jobsF)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &jobs); err != nil {
		fatal(err)
	}
	pk := map[string]bool{}
	var pats []string
	for _, j := range jobs {
		if !pk[j.Pkg] {
			pk[j.Pkg] = true
			pats = append(pats, j.Pkg)
		}
	}
	t0 := time.Now()
	prog, err := Load(*dir, pats)
	if err != nil {
		fatal(err)
	}
	loadS := time.Since(t0).Seconds()
	comp := NewCompiler(prog)
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	pool := &Pool{n: *workers}
	pool.cond = sync.NewCond(&pool.mu)
	var states []*JobState
	for i, j := range jobs {
		if j.Steps == 0 {
			j.Steps = 20_000_000
		}
		js := &JobState{Job: j, order: i, vkeys: map[string]int{}}
		js.res = &JobResult{Name: j.Name, Incomplete: map[string]int{}, VCount: map[string]int{}, Reach: map[string]int{}, Funcs: map[string]int{}, Complete: true}
		states = append(states, js)
		pool.q = append(pool.q, Task{js: js})
	}
	pool.busy = *workers
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			worker(pool, comp, strings.Fields(*solver), *timeout, deadline, *trace, *cross, w)
		}(w)
	}
	wg.Wait()
	var rs []*JobResult
	for _, s := range states {
		rs = append(rs, s.res)
	}
	o := map[string]any{"load_s": loadS, "wall_s": time.Since(t0).Seconds(), "jobs": rs}
	jb, _ := json.MarshalIndent(o, "", " ")
	if *out == "" {
		os.Stdout.Write(jb)
	} else if err := os.WriteFile(*out, jb, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "engine:", err)
	os.Exit(2)
}

type jobMachine struct {
	m    *Machine
	base int
	run  *Func
	bad  string
}

func worker(p *Pool, comp *Compiler, sol []string, timeout int, deadline time.Time, trace bool, cross int, w int) {
	var cur *JobState
	var jm *jobMachine
	defer func() {
		if jm != nil {
			flush(cur, jm)
		}
	}()
	for {
		t, ok := p.pop(cur)
		if !ok {
			return
		}
		if t.js != cur {
			if jm != nil {
				flush(cur, jm)
			}
			cur = t.js
			jm = setup(comp, cur, sol, timeout, trace, cross)
		}
		if jm.bad != "" {
			cur.mu.Lock()
			cur.res.SetupErr = jm.bad
			cur.res.Complete = false
			cur.mu.Unlock()
			continue
		}
		explore(p, jm, cur, t, deadline)
	}
}

func setup(comp *Compiler, js *JobState, sol []string, timeout int, trace bool, cross int) (jm *jobMachine) {
	t0 := time.Now()
	m := NewMachine(comp, sol, timeout)
	m.trace = trace
	m.sol.check2 = cross
	jm = &jobMachine{m: m}
	m.job = js
	defer func() {
		js.mu.Lock()
		if s := time.Since(t0).Seconds(); s > js.res.SetupS {
			js.res.SetupS = s
		}
		js.mu.Unlock()
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				jm.bad = e.kind + ": " + e.msg + m.where()
			case unsupportedErr:
				jm.bad = "unsupported: " + e.msg + m.where()
			default:
				jm.bad = fmt.Sprint("engine fault: ", r, m.where())
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine fault at", m.where())
					panic(r)
				}
			}
		}
	}()
	m.limit = 2_000_000_000
	m.setup = true
	m.runInit(js.Pkg)
	pkg := comp.prog.Pkgs[js.Pkg]
	if js.Setup != "" {
		fn := pkg.Func(js.Setup)
		if fn == nil {
			panic(unsupported("no function " + js.Setup))
		}
		m.callTop(comp.Func(fn))
	}
	fn := pkg.Func(js.Run)
	if fn == nil {
		panic(unsupported("no function " + js.Run))
	}
	jm.run = comp.Func(fn)
	m.setup = false
	m.trailOn = true
	m.total += m.steps
	return jm
}

// forkSites counts where paths fork, if VENGINE_FORKS is set.
var forkSites map[string]int
var forkMu sync.Mutex

func reportForks() {
	var ss []string
	for s := range forkSites {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return forkSites[ss[i]] > forkSites[ss[j]] })
	for i, s := range ss {
		if i < 12 {
			fmt.Fprintln(os.Stderr, forkSites[s], s)
		}
	}
}

func (m *Machine) where() string {
	var sb strings.Builder
	for i := len(m.stack) - 1; i >= 0 && i > len(m.stack)-6; i-- {
		f := m.stack[i]
		pos := ""
		if f.pc < len(f.fn.code) {
			for k := f.pc; k >= 0; k-- {
				if f.fn.code[k].pos.IsValid() {
					q := m.C.prog.Fset.Position(f.fn.code[k].pos)
					pos = fmt.Sprintf(" %s:%d", q.Filename, q.Line)
					break
				}
			}
		}
		sb.WriteString("\n   at " + f.fn.name + pos)
	}
	return sb.String()
}

func explore(p *Pool, jm *jobMachine, js *JobState, task Task, deadline time.Time) {
	m := jm.m
	m.undo(0)
	m.pc = m.pc[:0]
	m.snaps = nil
	m.hist = nil
	m.forcedH = task.prefix
	m.mord, m.mlog = 0, nil
	m.mskip = map[int]bool{}
	for _, k := range task.skip {
		m.mskip[k] = true
	}
	m.forced = nil
	m.needModel = false
	m.inputs = nil
	m.traces = nil
	m.nameCnt = map[string]int{}
	m.restoreModel(nil)
	m.steps = 0
	m.limit = js.Steps
	m.mapMode, m.mapSt = js.MapMode, nil
	m.deadline = deadline
	m.mapSeq = 1 << 20
	m.stack = nil
	m.gen++
	m.donate = func() {
		if atomic.LoadInt32(&p.idle) == 0 || m.sub > 0 {
			return
		}
		p.mu.Lock()
		waiting := len(p.q)
		p.mu.Unlock()
		if waiting > 0 {
			return
		}
		for i, sn := range m.snaps {
			n := len(sn.alts)
			pre := append(append([]int(nil), m.hist[:sn.hist]...), sn.alts[n-1])
			sn.alts, sn.altC = sn.alts[:n-1], sn.altC[:n-1]
			if len(sn.alts) == 0 {
				m.snaps = append(m.snaps[:i], m.snaps[i+1:]...)
			}
			p.push(Task{js, pre, append([]int(nil), m.mlog[:sn.nmlog]...)})
			return
		}
	}
	m.push(jm.run, nil, nil, retNormal)
	for {
		kind, msg := m.onePath()
		js.record(m, kind, msg)
		if kind == "stopped" {
			js.mu.Lock()
			js.res.Complete = false
			js.res.Incomplete["time budget used up"] += 1 + len(m.snaps)
			js.mu.Unlock()
			return
		}
		if js.MaxPath > 0 && atomic.LoadInt64(&js.res.Paths) >= js.MaxPath {
			js.mu.Lock()
			js.res.Complete = false
			js.res.Incomplete["path budget used up"]++
			js.mu.Unlock()
			return
		}
		if !m.backtrack() {
			return
		}
		if atomic.LoadInt32(&p.idle) > 0 {
			m.donate()
		}
	}
}

func (m *Machine) onePath() (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				kind, msg = e.kind, e.msg
				if kind == "steps" || kind == "unknown" {
					msg += m.where()
				}
			case unsupportedErr:
				kind, msg = "unsupported", e.msg+m.where()
			default:
				kind, msg = "fault", fmt.Sprint(r, m.where())
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine fault at", m.where())
					panic(r)
				}
			}
		}
	}()
	m.run()
	return "done", ""
}

func (m *Machine) inputVals() map[string]string {
	r := map[string]string{}
	if m.needModel {
		m.fixModel()
	}
	for _, in := range m.inputs {
		v := m.ev.eval(in.v.r.(*Term))
		switch in.Kind {
		case "bool":
			r[in.Name] = fmt.Sprint(v)
		default:
			r[in.Name] = fmt.Sprint(sgn(v, in.w))
		}
	}
	return r
}

func (js *JobState) violation(m *Machine, kind, msg string) {
	js.mu.Lock()
	defer js.mu.Unlock()
	key := kind + ": " + msg
	js.res.VCount[key]++
	if js.res.VCount[key] <= 40 {
		js.res.Violations = append(js.res.Violations, &Violation{Msg: msg, Kind: kind, Inputs: m.inputVals()})
	}
}

func (js *JobState) record(m *Machine, kind, msg string) {
	switch kind {
	case "done":
		n := atomic.AddInt64(&js.res.Paths, 1)
		if n <= 3 || n&(n-1) == 0 && len(js.res.Samples) < 14 {
			sm := &Sample{Inputs: m.inputVals()}
			for _, t := range m.traces {
				sm.Traces = append(sm.Traces, t.label+"="+m.traceText(t))
			}
			js.mu.Lock()
			js.res.Samples = append(js.res.Samples, sm)
			js.mu.Unlock()
		}
	case "assume", "infeasible":
		atomic.AddInt64(&js.res.Cut, 1)
	case "panic", "exit":
		atomic.AddInt64(&js.res.Paths, 1)
		js.violation(m, kind, msg)
	case "violation":
		atomic.AddInt64(&js.res.Paths, 1)
	case "stopped":
	case "steps":
		js.violation(m, kind, msg)
	default:
		js.mu.Lock()
		js.res.Complete = false
		js.res.Incomplete[kind+": "+msg]++
		js.mu.Unlock()
	}
}

func (m *Machine) traceText(e traceEnt) string {
	if e.t.kind == kString {
		var o []rune
		for _, x := range strElems(e.v) {
			if t, ok := x.r.(*Term); ok {
				o = append(o, rune(int32(m.ev.eval(t))))
			} else {
				o = append(o, rune(int32(x.n)))
			}
		}
		return string(o)
	}
	if t, ok := e.v.r.(*Term); ok {
		v := m.ev.eval(t)
		if e.t.kind == kBool {
			return fmt.Sprint(v == 1)
		}
		return fmt.Sprint(sgn(v, e.t.w))
	}
	if e.t.kind == kBool {
		return fmt.Sprint(e.v.n == 1)
	}
	return fmt.Sprint(int64(e.v.n))
}

// assert reports a violation when some value within the path breaks t, and
// continues with those that satisfy it.
func (m *Machine) assert(t *Term, msg V) {
	js := m.job
	if m.setup {
		if !t.isTrue() {
			panic(unsupported("assertion failed during set-up: " + mustStr(msg)))
		}
		return
	}
	atomic.AddInt64(&js.res.Asserts, 1)
	if t.isTrue() {
		return
	}
	text, ok := concStr(msg)
	if !ok {
		text = "(symbolic message)"
	}
	neg := m.ctx.Not(t)
	atomic.AddInt64(&js.res.AssertQ, 1)
	r, vals := m.feasible(neg)
	if r == Unknown {
		panic(pathEnd{"unknown", "assertion " + text})
	}
	if r == Sat {
		old := m.model
		if vals != nil {
			m.setModelVals(vals)
		}
		js.violation(m, "assert", text)
		m.restoreModel(old)
		r2, v2 := m.feasible(t)
		if r2 != Sat {
			panic(pathEnd{"violation", text})
		}
		if v2 != nil {
			m.setModelVals(v2)
		}
	}
	m.addPC(t)
}

func flush(js *JobState, jm *jobMachine) {
	m := jm.m
	js.mu.Lock()
	r := js.res
	for k, v := range m.reachC {
		r.Reach[k] += v
	}
	for f, n := range m.cov {
		if f.mine {
			r.Funcs[f.name] += n
		}
	}
	r.Queries += m.sol.Queries
	r.Cached += m.sol.Cached
	r.ModelHits += m.sol.ModelHi
	r.SolverS += m.sol.Time.Seconds()
	r.CrossChecked += m.sol.Cross
	r.CrossNA += m.sol.CrossNA
	r.Resets += m.sol.Resets
	r.Branch += m.forks
	r.Merges += m.merges
	r.Steps += m.totalSteps
	if m.depthMx > r.Depth {
		r.Depth = m.depthMx
	}
	if len(m.sol.Errors) > 0 && len(r.SolverErrors) < 5 {
		r.SolverErrors = append(r.SolverErrors, m.sol.Errors...)
		r.Complete = false
	}
	js.mu.Unlock()
	m.sol.Close()
}
