"""Generated code is Go that compiles, for every well-formed grammar."""
import gram
from c17 import main_copy

HEAD = r'''package h

import (
	"os"
	"strings"

	"github.com/goccmack/gogll/v3/cfg"
	"vh/gogll"
	"vh/ref"
	"vh/sym"
)

var packages = [][]string{
	{"lexer", "token", "parser", "parser/bsr", "parser/slot", "parser/symbols", "sppf"},
	{"lexer", "token", "parser", "errors", "ast"},
}

// Setup reads what is generated for a grammar, to have read the files that
// do not depend on it.
func Setup() {
	for _, lr := range []bool{false, true} {
		options("package \"p\"\nS : \"x\" | empty ;", lr)
		sym.Capture(gogll.Main)
		read()
	}
	for _, f := range sym.Files() {
		os.Remove(f)
	}
}

func options(in string, lr bool) {
	sym.SetFile("in.bnf", in)
	cfg.BaseDir = "b"
	*cfg.GLL, *cfg.Knuth, *cfg.AutoResolveLRConf = !lr, lr, true
}

// read checks what is generated.
func read() map[string]bool {
	files := map[string]string{}
	var names []string
	for _, f := range sym.Files() {
		if strings.HasPrefix(f, "b/") {
			s, _ := sym.File(f)
			files[f[2:]] = s
			names = append(names, f[2:])
		}
	}
	return ref.GoPkgs(files, names, "p", func(ok bool, what string) { sym.Assert(ok, what) })
}

// compiles generates the code for a text and checks it.
func compiles(in []rune, lr, syntax bool) {
	options(string(in), lr)
	code, _ := sym.Exits(gogll.Main)
	sym.Assert(code == -1, "code is generated for a well-formed grammar")
	pkgs := read()
	want := packages[0]
	if lr {
		want = packages[1]
	}
	if !syntax {
		want = want[:2]
	}
	for _, p := range want {
		sym.Assert(pkgs[p], "the packages are generated")
	}
	sym.Reach("end")
}
'''

NAMES = HEAD + r'''
// the names: \x01 a capital letter, \x02 a letter, \x03 a letter, digit or _
var names = []string{@NAMES@}

// the grammar; each @k is name k
const text = @TEXT@

var capital = []rune{'A', 'Z', 0x410, 0x42F}
var letter = []rune{'a', 'z', 0x3B1, 0x3C9}
var rest = append([]rune{'0', '9', '_', '_', 0x660, 0x669}, letter...)

func character(class rune) rune {
	of := [][]rune{capital, letter, rest}[class-1]
	k := 2 * sym.Pick(sym.Int("range", 0, len(of)/2-1))
	c := sym.Rune("c")
	sym.Assume(sym.InRunes(c, of[k], of[k+1]))
	return c
}

func Run() {
	ws := make([][]rune, len(names))
	for i, n := range names {
		for _, r := range n {
			if r < 4 {
				r = character(r)
			}
			ws[i] = append(ws[i], r)
		}
		for j := 0; j < i; j++ {
			sym.Assume(sym.Not(ref.SameRunes(ws[i], ws[j])))
		}
		for _, s := range []string{"empty", "any", "not", "letter", "number", "upcase", "lowcase", "space", "package", "S", "ab", "cd"} {
			sym.Assume(sym.Not(ref.SameRunes(ws[i], []rune(s))))
		}
	}
	@MORE@
	in := []rune("package \"p\"\n")
	for i := 0; i < len(text); i++ {
		if text[i] != '@' {
			in = append(in, rune(text[i]))
			continue
		}
		i++
		in = append(in, ws[text[i]-'0']...)
	}
	compiles(in, @LR@, true)
}
'''

SHAPES = HEAD + r'''
// the bodies of rules
var bodies = []string{@BODIES@}
var lexical = []string{@LEXICAL@}

func Run() {
	in, syn := "", ""
	names := []string{"br", "cr"}
	nl := sym.Pick(sym.Int("lex", 0, @NLEX@))
	for i := 0; i < nl; i++ {
		rule := lexical[sym.Pick(sym.Int("rule", 0, len(lexical)-1))]
		sym.Assume(i > 0 || !strings.Contains(rule, names[0]))
		in += names[i] + " : " + rule + " ;\n"
	}
	// every symbol of a syntax rule is declared, and every rule is used
	heads := "SAB"
	n := sym.Pick(sym.Int("syn", 0, @NSYN@))
	used := "S"
	for k := 0; k < n; k++ {
		sym.Assume(strings.Contains(used, heads[k:k+1]))
		// what is declared
		var fit []string
		for _, b := range bodies {
			ok := true
			for j, c := range names {
				ok = ok && (j < nl || !strings.Contains(b, c))
			}
			for j := n; j < len(heads); j++ {
				ok = ok && !strings.Contains(b, heads[j:j+1])
			}
			if ok {
				fit = append(fit, b)
			}
		}
		for i, alts := 0, sym.Pick(sym.Int("alts", 1, @NALT@)); i < alts; i++ {
			if i > 0 {
				syn += " | "
			} else {
				syn += heads[k:k+1] + " : "
			}
			body := fit[sym.Pick(sym.Int("body", 0, len(fit)-1))]
			syn += body
			used += body
		}
		syn += " ;\n"
	}
	sym.Assume(nl+n > 0)
	compiles([]rune("package \"p\"\n"+in+syn), @LR@, n > 0)
}
'''


def names(c, name, ns, text, lr, more=""):
    b = NAMES.replace("@NAMES@", ", ".join(map(gram.goq, ns))).replace("@MORE@", more).replace("@TEXT@", gram.goq(text)).replace("@LR@", "true" if lr else "false")
    c.write("vh/h/" + name, "h.go", b)
    c.job(name, "vh/h/" + name, setup="Setup", need=["end"] if "\1" in ns[0] + ns[-1] or "\2" in ns[-1] else [], steps=20000000)
    c.bounds.append("%s: every choice of the names %s, where 1 is a capital letter of ASCII or Cyrillic, 2 a small letter of ASCII or Greek, 3 a letter, digit or _" % (name, " ".join(n.replace("\1", "<1>").replace("\2", "<2>").replace("\3", "<3>") for n in ns)))


ALTS = "@0 : " + " | ".join('"%s"' % w for w in "abcdefghijkl") + " ;\n"


def build(c):
    main_copy(c)
    for lr in (False, True):
        k = "lr" if lr else "gll"
        syn = 'S : @0 ab | @1 ;\n@0 : @1 @0 | "x" ;\n@1 : empty | "y" @1 ;\n'
        lex = "ab : letter {number} ;\n"
        names(c, "one-" + k, ["\1", "\1\3"], lex + syn, lr)
        names(c, "tokens-" + k, ["T", "U", "\2\3"], lex.replace("ab", "@2") + "!cd : '#' @2 ;\n" + syn.replace("ab", "@2"), lr)
        eleven = 'S : @0 | @1 "z" ;\n' + ALTS + '@1 : "x" ;\n'
        names(c, "eleven-" + k, ["\1", "\1\3" + ("\3" if c.thorough else "")], eleven, lr, '// a finding, see the job clash\n\tsym.Assume(sym.Not(ref.SameRunes(ws[1], []rune{ws[0][0], \'1\'})))')
        names(c, "clash-" + k, ["A", "A1"], eleven, lr)
        names(c, "number-" + k, ["A", "B\u00b2"], lex + syn, lr)
        if c.thorough:
            names(c, "two-" + k, ["\1\3", "\1\3"], lex + syn, lr)
            names(c, "three-" + k, ["\1\3\3", "\1\3\3"], lex + syn, lr)
        bodies = ["empty", '"x"', "br", "S", '"x" A br', "B S", "cr cr"] + (['A "y" B', "A"] if c.thorough else [])
        lexical = ["letter {number}", ". 'a'", "any \"ab\"", "not \"ab\" ['c' | 'd']", "<upcase> br"]
        for n, (nlex, nsyn, nalt) in enumerate([(2, 1, 2), (1, 2, 2)] if not c.thorough else [(2, 1, 3), (1, 2, 2), (0, 3, 2)]):
            b = SHAPES.replace("@BODIES@", ", ".join(map(gram.goq, bodies))).replace("@LEXICAL@", ", ".join(map(gram.goq, lexical[:1] if n and not c.thorough else lexical)))
            b = b.replace("@NLEX@", str(nlex)).replace("@NSYN@", str(nsyn)).replace("@NALT@", str(nalt)).replace("@LR@", "true" if lr else "false")
            c.write("vh/h/shapes%d-%s" % (n, k), "h.go", b)
            c.job("shapes%d-%s" % (n, k), "vh/h/shapes%d-%s" % (n, k), setup="Setup", need=["end"], steps=20000000, max_paths=60000)
            c.bounds.append("shapes%d-%s: every grammar of up to %d lexical rules and up to %d syntax rules of up to %d alternates of given forms" % (n, k, nlex, nsyn, nalt))
    c.outside += ["types: a use of a value of the wrong type (the generated code of all other checks is compiled)", "the text of -v reports", "import paths that Go does not accept", "names longer than three characters"]
    # compiled as they are
    pk = []
    for n, (text, conflicts) in enumerate(WHOLE):
        for k, flags in (("g", []), ("k", ["-knuth"]), ("p", ["-pager"])):
            name = "w%d%s" % (n, k)
            if c.gen(name, text, flags + (["-resolve_conflicts"] if conflicts and flags else [])):
                pk += ["%s/%s" % (name, p) for p in ["lexer", "token"] + ([] if n == 0 else ["parser"] if flags else ["parser", "sppf"])]
    c.write("vh/h/whole", "h.go", "package h\n\nimport (\n%s\t\"vh/sym\"\n)\n\nfunc Run() { sym.Reach(\"end\") }\n" % "".join('\t_ "vh/g/%s"\n' % p for p in pk))
    c.job("whole", "vh/h/whole", need=["end"])
    c.bounds.append("%d grammars are compiled by the Go compiler, too" % len(WHOLE))


WHOLE = [
    ("id : letter {number} ;\n!cc : '#' ;\n", False),
    ("S : empty ;\n", False),
    ('S : "a" ;\n', False),
    ("S : A ;\nA : B ;\nB : empty | C ;\nC : \"x\" ;\n", False),
    ("num : <number> ;\nS : S num | empty ;\n", False),
    ("num : number {number} ;\n!ws : <'\\t'> ;\nS : S S | num num | \"(\" S \")\" ;\n", True),
    ("S : " + " | ".join('"%s"' % chr(33 + i) for i in range(1, 31) if chr(33 + i) not in '"\\$') + " ;\n", False),
    ("S : É_1 | Ж2 ;\nÉ_1 : \"x\" É_1 | \"y\" ;\nЖ2 : \"z\" ;\nñb : lowcase ['_'] ;\n", False),
    ("S : S ;\n", True),
]
