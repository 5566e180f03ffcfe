"""A run writes what its options ask for, where they ask for it."""
import re

import gram
from c17 import main_copy

CMD = '''package h

import (
	"os"
	"strings"

	"github.com/goccmack/gogll/v3/cfg"
	"vh/sym"
)

var list = []string{@LIST@}

type options struct {
	all, verbose, knuth, pager, gll, resolve, rust, help, version bool
	out, src                                                     string
}

// read is the use that gogll -h describes: options, then the source file.
func read(args []string) (o options, bad bool) {
	o.gll = true
	bools := map[string]*bool{"a": &o.all, "v": &o.verbose, "knuth": &o.knuth, "pager": &o.pager, "gll": &o.gll,
		"resolve_conflicts": &o.resolve, "rust": &o.rust, "h": &o.help, "version": &o.version}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			o.src = a
			return
		}
		name, value, has := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-"), "=")
		if b, ok := bools[name]; ok {
			*b = !has || value == "true"
			continue
		}
		if name != "o" {
			return o, true
		}
		if !has {
			if i+1 == len(args) {
				return o, true
			}
			i++
			value = args[i]
		}
		o.out = value
	}
	return
}

func Run() {
	n := sym.Pick(sym.Int("n", 0, @N@))
	os.Args = []string{"gogll"}
	for i := 0; i < n; i++ {
		os.Args = append(os.Args, list[sym.Pick(sym.Int("arg", 0, len(list)-1))])
	}
	args := os.Args[1:]
	want, bad := read(args)
	code, said := sym.Exits(cfg.GetParams)
	sym.TraceInt("code", code)
	switch {
	case bad:
		sym.Assert(code > 0, "an option that there is not ends the run with an error")
		return
	case want.help:
		sym.Assert(code == 0 && strings.Contains(said, "use: gogll"), "-h shows the use and ends the run without error")
		sym.Reach("help")
		return
	case want.version:
		sym.Assert(code == 0 && strings.Contains(said, cfg.Version), "-version shows the version and ends the run without error")
		return
	case want.src == "":
		sym.Assert(code == 1 && strings.Contains(said, "Source file required"), "a run without a source file ends with an error that says so")
		return
	case want.knuth && want.pager:
		sym.Assert(code == 1 && strings.Contains(said, "pager or knuth"), "a run with both LR(1) constructions ends with an error that says so")
		sym.Reach("both")
		return
	}
	sym.Assert(code == -1, "a proper command line is accepted")
	sym.Reach("accepted")
	sym.Assert(cfg.SrcFile == want.src, "the source file is the first argument that is no option")
	dir := want.out
	if dir == "" {
		dir = "."
		if i := strings.LastIndex(want.src, "/"); i >= 0 {
			dir = want.src[:i+1]
		}
	}
	sym.Assert(cfg.BaseDir == dir, "the output directory is that of -o, or else that of the source file")
	sym.Assert(*cfg.Knuth == want.knuth && *cfg.Pager == want.pager, "the LR(1) construction is the one asked for")
	sym.Assert(*cfg.GLL == (want.gll && !want.knuth && !want.pager), "a GLL parser is generated unless an LR(1) parser is asked for")
	sym.Assert(*cfg.All == want.all && cfg.Verbose == want.verbose && *cfg.AutoResolveLRConf == want.resolve, "the other options are those given")
	sym.Assert(*cfg.Go == !want.rust && *cfg.Rust == want.rust, "Go is the target unless Rust is asked for")
}
'''

LIST = ["-v", "-a", "-knuth", "-pager", "-resolve_conflicts", "-o", "out", "-o=x/y", "in.md", "d/in.md", "-h", "-version", "-rust", "-gll", "--knuth", "-pager=false", "-nope"]

MAIN = '''package h

import (
	"strings"

	"github.com/goccmack/gogll/v3/cfg"
	"vh/gogll"
	"vh/sym"
)

const text = @TEXT@
const dir = @DIR@
const syntax, conflicts = @SYNTAX@, @CONFLICTS@

// plain is what each kind of parser is generated as, without further options.
var plain [3]map[string]string

var kinds = []string{"gll", "knuth", "pager"}

func options(base string, k int, all, verbose, resolve bool) {
	cfg.SrcFile, cfg.BaseDir, cfg.Verbose = "in.bnf", base, verbose
	*cfg.All, *cfg.AutoResolveLRConf = all, resolve
	*cfg.GLL, *cfg.Knuth, *cfg.Pager = k == 0, k == 1, k == 2
}

// below gives the files in a directory, by their names in it.
func below(base string) map[string]string {
	m := map[string]string{}
	for _, f := range sym.Files() {
		if strings.HasPrefix(f, base+"/") {
			m[f[len(base)+1:]], _ = sym.File(f)
		}
	}
	return m
}

func Setup() {
	sym.SetFile("in.bnf", text)
	for k, name := range kinds {
		options("plain/"+name, k, false, false, true)
		sym.Capture(gogll.Main)
		plain[k] = below("plain/" + name)
	}
}

const mine = "package ast // mine"

// packages are those that a user of the generated code imports.
var packages = [][]string{
	{"lexer", "token", "parser", "parser/bsr", "parser/slot", "parser/symbols", "sppf"},
	{"lexer", "token", "parser", "errors", "ast"},
	{"lexer", "token", "parser", "errors", "ast"},
}

func Run() {
	k := 0
	if sym.Bool("lr") {
		k = 1
		if sym.Bool("pager") {
			k = 2
		}
	}
	all, verbose, resolve, have := sym.Bool("a"), sym.Bool("v"), sym.Bool("resolve"), sym.Bool("ast")
	at := strings.TrimPrefix(dir+"/", "./")
	others := []string{at + "main.go", at + "parser/mine.go", at + "ast/mine.go", at + "token.txt"}
	if have {
		others = append(others, at+"ast/ast.go")
	}
	for _, f := range others {
		sym.SetFile(f, mine)
	}
	before := map[string]bool{}
	for _, f := range sym.Files() {
		before[f] = true
	}
	options(dir, k, all, verbose, resolve)
	code, said := -1, ""
	if k > 0 && conflicts && !resolve {
		code, said = sym.Exits(gogll.Main)
		sym.Assert(code == 1, "conflicts end the run with an error")
		sym.Assert(strings.Contains(said, "onflict"), "it says that there are conflicts")
		_, ok := sym.File(at + "parser/parser.go")
		sym.Assert(!ok, "no parser is generated with conflicts")
		sym.Reach("conflicts")
	} else {
		sym.Capture(gogll.Main)
	}
	for _, f := range others[:4] {
		s, _ := sym.File(f)
		sym.Assert(s == mine, "a file that gogll does not generate stays as it is")
	}
	n := 0
	for _, f := range sym.Files() {
		if before[f] && f != at+"ast/ast.go" {
			continue
		}
		sym.Assert(strings.HasPrefix(f, at), "every file is written below the output directory")
		s, _ := sym.File(f)
		name := f[len(at):]
		was, ok := plain[k][name]
		switch {
		case name == "ast/ast.go" && have && (k == 0 || !syntax || !all || code > 0):
			sym.Assert(s == mine, "the ast that there is stays as it is, unless -a asks for all files")
			sym.Reach("ast kept")
		case ok:
			if name == "ast/ast.go" && have {
				sym.Reach("ast regenerated")
			}
			sym.Assert(s == was, "the options other than the kind of parser do not alter what is generated")
			n++
		default:
			sym.Assert(!strings.HasSuffix(name, ".go") && verbose, "only -v writes further files, and no code")
			sym.Reach("report")
		}
	}
	if code > 0 {
		return
	}
	want := len(plain[k])
	if _, ok := plain[k]["ast/ast.go"]; ok && have && !all {
		want--
	}
	sym.Assert(n == want, "the options other than the kind of parser do not leave anything out")
	need := packages[k]
	if !syntax {
		need = need[:2]
	}
	for _, p := range need {
		has := false
		for name := range plain[k] {
			i := strings.LastIndex(name, "/")
			has = has || i >= 0 && name[:i] == p && strings.HasSuffix(name, ".go")
		}
		sym.Assert(has, "every package of the kind of parser is generated")
	}
	for name := range plain[k] {
		in := !strings.HasSuffix(name, ".go")
		for _, p := range need {
			in = in || strings.LastIndex(name, "/") == len(p) && strings.HasPrefix(name, p)
		}
		sym.Assert(in, "no other package is generated")
	}
	sym.Reach("end")
}
'''

TEXTS = {
    "both": ('''package "p"
id : letter {letter | '_'} ;
!ws : <'\\t'> ;
S : "(" S ")" | T ;
T : id T | empty ;
''', True, False),
    "conflict": ('''package "p"
id : letter {letter | '_'} ;
S : S "+" S | id ;
''', True, True),
    "lexical": ('''package "p"
id : letter {letter | '_'} ;
num : <number> ;
!cmt : '#' {not "\\n"} ;
''', False, False),
}


def build(c):
    main_copy(c)
    n = 4 if c.thorough else 3
    lst = LIST + (["-v=false", "-", "--"][:1] if c.thorough else [])
    c.write("vh/h/cmd", "h.go", CMD.replace("@LIST@", ", ".join(map(gram.goq, lst))).replace("@N@", str(n)))
    c.job("command line", "vh/h/cmd", need=["help", "both", "accepted"], max_paths=200000)
    c.bounds.append("every command line of up to %d arguments out of %s" % (n, " ".join(lst)))
    for name, (text, syntax, conflicts) in TEXTS.items():
        for i, d in enumerate([".", "out", "out/deep"]):
            b = MAIN.replace("@TEXT@", gram.goq(text)).replace("@DIR@", gram.goq(d)).replace("@SYNTAX@", "true" if syntax else "false").replace("@CONFLICTS@", "true" if conflicts else "false")
            c.write("vh/h/%s%d" % (name, i), "h.go", b)
            c.job("%s in %s" % (name, d), "vh/h/%s%d" % (name, i), setup="Setup", need=["end"] + (["conflicts"] if conflicts else []), steps=20000000)
            c.bounds.append("grammar %s generated in %s: every kind of parser, with and without -a, -v, -resolve_conflicts and an ast package that is already there" % (name, d))
    c.outside += ["-CPUProf, -bs and -t", "the Rust target", "file systems that refuse to write"]
