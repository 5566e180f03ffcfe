import os
import subprocess

import front
import gram
from c17 import main_copy

# generate runs the whole of gogll's main function.
GEN = '''
func generate(dir string, k int) (int, string) {
	begin(dir, k)
	return sym.Exits(gogll.Main)
}

func begin(dir string, k int) {
	cfg.BaseDir = dir
	cfg.Verbose = true
	*cfg.GLL, *cfg.Knuth, *cfg.Pager, *cfg.AutoResolveLRConf = k == 0, k == 1, k == 2, k > 0
}

// same generates once with every map in the same order and once with one range
// over maps in another order, and compares.
func same(k int) {
	code, said := generate("a", k)
	// natively the order of maps is arbitrary, so that it is tried often
	tries := 25
	if sym.Symbolic() {
		tries = 1
	} else if code >= 0 {
		tries = 6
	}
	devs := make([]int, @DEVS@)
	for i := range devs {
		devs[i] = sym.Int("dev", 0, 3*sites)
	}
	for ; tries > 0; tries-- {
		sym.MapDeviate(devs...)
		code1, said1 := -1, ""
		if code == -1 {
			begin("b", k)
			said1 = sym.Capture(gogll.Main)
		} else {
			code1, said1 = generate("b", k)
		}
		sym.Assert(code == code1 && said == said1, "what is reported does not depend on the order of maps")
		if sym.MapSites() <= sites {
			sym.Reach("all sites")
		}
		sym.MapOrder(0)
		for _, f := range files {
			a, ok := sym.File("a/" + f)
			b, _ := sym.File("b/" + f)
			if ok {
				sym.Reach("file")
			}
			sym.Assert(a == b, f+" does not depend on the order of maps")
		}
	}
	sym.Reach("end")
}
'''

FIXED = '''package h

import (
	"github.com/goccmack/gogll/v3/cfg"
	"vh/gogll"
	"vh/sym"
)

const text = @TEXT@

func Run() {
	sym.SetFile("in.bnf", text)
	same(@MODE@)
}
'''

SYMB = '''
func Run() {
	in, toks := text()
	want, ok := ref.ReadFront(toks)
	sym.Assume(ok && len(want.Faults) == 0)
	for _, t := range toks[2:] {
		if t.Kind == "string_lit" {
			for _, r := range t.Text[1 : len(t.Text)-1] {
				sym.Assume(sym.Or(sym.EqRune(r, 't'), sym.InRunes(r, 'a', 'b')))
			}
		}
	}
	sym.SetFile("in.bnf", string(in))
	same(@MODE@)
}
'''

MODES = ["gll", "knuth", "pager"]

GRAMMARS = {
    "one": '''package "p"
ida : letter {letter | number | '_'} ;
num : <number> ['.' <any "0123">] ;
!cmt : '/' '/' {not "\\n"} ;
bb : 'b' ('x' | 'y' | 'b') ;
S : "s" A B | "s" ida | C "+" S | num ;
A : "a" | empty | A ida ;
B : "b" A | C ;
C : num "*" C | "(" S ")" | "a" ;
''',
    # overlapping tokens, many of one length
    "lex": '''package "p"
kw : ('a' 'b' | 'b' 'a' | 'c' { 'a' | 'b' }) ;
id : letter {letter} ;
hi : '[\\p{Lu}]' {any "xy"} ;
no : not "ab" ;
op : <any "+-"> ;
!ws : <'\\t'> ;
dot : 'a' . ;
S : kw "ab" | "ba" id | "c" hi | op "+" "-" "++" | no "--" | dot "+-" S ;
''',
    # ambiguous, left and right recursive, hidden left recursion
    "amb": '''package "p"
S : S S | A S "x" | "x" | B ;
A : empty | B "y" | S ;
B : A "z" | "z" B | empty ;
C : C C C | "c" | S A ;
''',
    # conflicts that only LR(1) leaves or that have to be reported
    "conf": '''package "p"
S : "if" E "then" S | "if" E "then" S "else" S | "x" | L ;
E : E "+" E | E "*" E | "x" | M ;
L : "a" A "d" | "b" B "d" | "a" B "e" | "b" A "e" ;
A : "c" ; 
B : "c" ;
M : "x" | N ;
N : "x" ;
''',
}

QUICK = {"one": MODES, "lex": ["gll"], "amb": ["gll", "pager"], "conf": ["knuth", "pager"]}

PROGS = {
    "syn": ["package S :", ["str2"], "|", ["str2", "tokid"], "T ; T : empty | \"t\" S ; a1 : 'x' ;"],
    "lexs": ["package a1 : 'x'", ["none", "dot", "letter"], "; a2 :", ["char", "lowcase"], "; S : a1 | a2 S ;"],
}


def listing(c, name, mode, text):
    """The files that gogll generates for the grammar."""
    d = os.path.join(c.dir, "gen18", name + mode)
    os.makedirs(d)
    with open(d + ".bnf", "w", encoding="utf-8") as f:
        f.write(text)
    fl = [] if mode == "gll" else ["-" + mode, "-resolve_conflicts"]
    p = subprocess.run([c.gogll, "-v", "-o", d] + fl + [d + ".bnf"], capture_output=True, text=True, timeout=60, cwd=d)
    files = sorted(os.path.relpath(os.path.join(r, x), d) for r, _, fs in os.walk(d) for x in fs)
    assert files, p.stdout
    return files


def build(c):
    main_copy(c)
    c.bounds.append("the whole of gogll's main function, run twice; in the second run one range statement over a map (one call of the function that has it) enumerates in another order: reversed, rotated by a half, or last first; which one is symbolic" + (", and so is a second such place" if c.thorough else ""))

    def consts(files, sites, devs):
        return "\nvar files = []string{%s}\n\nconst sites = %d\n" % (", ".join(map(gram.goq, files)), sites) + GEN.replace("@DEVS@", str(devs))

    seen = set()
    for name, text in GRAMMARS.items():
        for i, mode in enumerate(MODES):
            files = listing(c, name, mode, text)
            seen.update(files)
            if not c.thorough and mode not in QUICK[name]:
                continue
            for devs in ([1, 2] if c.thorough else [1]):
                pkg = "vh/h/%s%s%d" % (name, mode, devs)
                b = FIXED.replace("@TEXT@", gram.goq(text)).replace("@MODE@", str(i)) + consts(files, 120, devs)
                c.write(pkg, "h.go", b)
                c.job("%s%s%d" % (name, mode, devs), pkg, need=["end", "file", "all sites"], steps=400000000, max_paths=100000)
        c.bounds.append("grammar %s: %s" % (name, " ".join(text.split())))
    for name, parts in PROGS.items():
        for i, mode in enumerate(MODES[:2]):
            if not c.thorough and (name, mode) == ("lexs", "gll"):
                continue
            c.write("vh/h/" + name + mode, "h.go", front.harness(parts, SYMB.replace("@MODE@", str(i)) + consts(sorted(seen), 120, 1), ["cfg", '"vh/gogll"']))
            c.job(name + mode, "vh/h/" + name + mode, setup="Setup", need=["end", "file", "all sites"], steps=400000000, max_paths=100000)
        c.bounds.append("program %s: %s" % (name, front.show(parts)))
    c.outside.append("other orders of a map than those three; more than %s deviating places at once; other grammars; the Rust target; the effect of gofmt (the text is compared before it)" % ("two" if c.thorough else "one"))
