// Package sym is the harness interface to the symbolic executor. Under the
// executor every function below is intercepted; natively they read the values
// of a counterexample from the file named by VERIF_REPLAY, so that the same
// harness replays it against the real build.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"vh/sym/symfmt"
)

var (
	vals   map[string]string
	counts = map[string]int{}
	dir    string
	ptext  string
)

func load() {
	if vals != nil {
		return
	}
	vals = map[string]string{}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &vals); err != nil {
			panic(err)
		}
	}
}

func value(name string) int64 {
	load()
	k := counts[name]
	counts[name]++
	if k > 0 {
		name += "#" + strconv.Itoa(k)
	}
	n, _ := strconv.ParseInt(vals[name], 10, 64)
	return n
}

// Int returns an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(value(name))
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Rune returns an arbitrary 32-bit rune, valid or not.
func Rune(name string) rune { return rune(value(name)) }

// Bool returns an arbitrary bool.
func Bool(name string) bool { return value(name) != 0 }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("ASSUME-FAILED")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("ASSERT-FAILED " + msg)
		os.Exit(3)
	}
}

// Reach marks a point that some path must reach.
func Reach(label string) {}

// TraceInt, TraceBool and TraceStr record a value of the run; the executor
// evaluates it for the inputs of a sampled path, and the driver compares both.
func TraceInt(label string, v int)    { fmt.Printf("TRACE %q\n", label+"="+strconv.Itoa(v)) }
func TraceBool(label string, v bool)  { fmt.Printf("TRACE %q\n", label+"="+strconv.FormatBool(v)) }
func TraceStr(label string, v string) { fmt.Printf("TRACE %q\n", label+"="+v) }

// Note prints a value natively; it does nothing under the executor.
func Note(label string, v interface{}) {
	fmt.Printf("NOTE %s %v\n", label, v)
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(a bool) bool             { return !a }
func EqInt(a, b int) bool         { return a == b }
func EqRune(a, b rune) bool       { return a == b }
func EqBool(a, b bool) bool       { return a == b }
func EqStr(a, b string) bool      { return a == b }
func LtInt(a, b int) bool         { return a < b }
func Pick(a int) int              { return a }
func PickRune(a rune) rune        { return a }
func InRunes(r, lo, hi rune) bool { return lo <= r && r <= hi }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Const tells whether no character of s is symbolic.
func Const(s string) bool { return true }

// Symbolic tells whether the executor runs the harness.
func Symbolic() bool { return false }

// Catch runs f and reports how it ended: 0 returned, 1 panicked, 2 exited the
// process, 3 took more than limit steps (limit 0: no limit).
func Catch(limit int, f func()) (r int) {
	defer func() {
		if x := recover(); x != nil {
			ptext = fmt.Sprint(x)
			r = 1
		}
	}()
	f()
	return 0
}

// PanicText is the text of the last panic that Catch saw.
func PanicText() string { return ptext }

// MapOrder selects how maps are enumerated: 0 insertion order, 1 reversed, 2
// every order.
func MapOrder(mode int) {}

// MapDeviate enumerates maps in insertion order, except at one range statement,
// which each dev selects: 3s+1 to 3s+3 are three other orders at the s-th such
// statement, or call of its function, that is met.
func MapDeviate(dev ...int) {}

// MapSites is the number of range statements over maps met under MapDeviate.
func MapSites() int { return 0 }

// SetFile makes content readable under name.
func SetFile(name string, content string) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

// Capture runs f and returns what it printed to standard output.
func Capture(f func()) string {
	if Symbolic() {
		symfmt.Capturing, symfmt.Out = true, ""
		defer func() { symfmt.Capturing = false }()
		f()
		return symfmt.Out
	}
	old := os.Stdout
	t, err := os.CreateTemp("", "capture")
	if err != nil {
		panic(err)
	}
	os.Stdout = t
	defer func() {
		os.Stdout = old
		t.Close()
		os.Remove(t.Name())
	}()
	f()
	b, err := os.ReadFile(t.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func file(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

// File reads a file that the code under test wrote.
func File(name string) (content string, exists bool) { return file(name) }

// Files lists the files that there are.
func Files() (names []string) {
	filepath.WalkDir(".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			names = append(names, filepath.ToSlash(p))
		}
		return nil
	})
	return
}

func exitCode() int { return 0 }

var argv = os.Args // before the harness puts others there

var exits int // calls of Exits so far

const childMark = "\n---CHILD---\n"

// Exits runs f and returns the status with which it ends the process, -1 if it
// returns, and what it printed. Natively a child process runs the harness up
// to here, and f.
func Exits(f func()) (code int, out string) {
	if Symbolic() {
		symfmt.Capturing, symfmt.Out = true, ""
		r := Catch(0, f)
		symfmt.Capturing = false
		switch r {
		case 1:
			panic(PanicText())
		case 2:
			return exitCode(), symfmt.Out
		}
		return -1, symfmt.Out
	}
	exits++
	var past []string
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		past = strings.Split(c, ",")[1:]
		if exits == len(past)+1 {
			fmt.Print(childMark)
			f()
			os.Exit(99)
		}
		code, _ = strconv.Atoi(past[exits-1])
	} else {
		cmd := exec.Command(argv[0], argv[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=0"+history)
		var w, we bytes.Buffer
		cmd.Stdout, cmd.Stderr = &w, io.MultiWriter(os.Stderr, &we)
		cmd.Run()
		code = cmd.ProcessState.ExitCode()
		if i := strings.Index(w.String(), childMark); i >= 0 {
			out = w.String()[i+len(childMark):]
		} else {
			panic("the child process did not come this far")
		}
		if code == 99 {
			code = -1
		}
		if code == 2 && strings.Contains(we.String(), "goroutine ") {
			panic("panic in a child process")
		}
		history += "," + strconv.Itoa(code)
	}
	if code < 0 {
		if out != "" {
			Capture(f)
		} else {
			out = Capture(f)
		}
	}
	return
}

var history string

func isolate(on bool) {}

// Concurrent runs f, which may not write to memory that package variables of
// the code under test reach. Natively, with VERIF_RACE, it runs twice at once.
func Concurrent(f func()) {
	if Symbolic() {
		isolate(true)
		f()
		isolate(false)
		return
	}
	if os.Getenv("VERIF_RACE") == "" {
		f()
		return
	}
	var w sync.WaitGroup
	for i := 0; i < 2; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			f()
		}()
	}
	w.Wait()
}
