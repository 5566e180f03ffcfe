import gram
from c17 import main_copy

BODY = '''package h

import (
	"github.com/goccmack/gogll/v3/cfg"
	"vh/gogll"
	"vh/ref"
	"vh/sym"
)

// the grammar; \\x01 and \\x02 stand for a character of the literal
const text = @TEXT@

var files = []string{@FILES@}

// characters that occur in no generated file of themselves
const mark1, mark2 = 'ж', 'щ'

var base map[string]string
var norm = map[string][]rune{}

type form struct {
	text string
	char rune
}

var escapes = []form{@ESCAPES@}

func begin(dir string) {
	cfg.BaseDir = dir
	*cfg.GLL, *cfg.Knuth, *cfg.Pager, *cfg.AutoResolveLRConf = @GLL@, !@GLL@, false, true
}

// Setup generates with the marks.
func Setup() {
	in := ""
	for _, r := range text {
		switch r {
		case 1:
			r = mark1
		case 2:
			r = mark2
		}
		in += string(r)
	}
	sym.SetFile("in.bnf", in)
	begin("a")
	sym.Capture(gogll.Main)
	base = map[string]string{}
	for _, f := range files {
		if s, ok := sym.File("a/" + f); ok {
			base[f] = s
		}
	}
}

// element is a character of a literal, as it is or escaped.
func element(name string) (text []rune, char rune) {
	if k := sym.Pick(sym.Int("form"+name, 0, len(escapes))); k > 0 {
		return []rune(escapes[k-1].text), escapes[k-1].char
	}
	c := sym.Rune(name)
	sym.Assume(sym.Or(sym.InRunes(c, 0, 0xD7FF), sym.InRunes(c, 0xE000, 0x10FFFF)))
	for _, r := range @NOT@ {
		sym.Assume(sym.Not(sym.EqRune(c, r)))
	}
	return []rune{c}, c
}

func Run() {
	var in []rune
	var c1, c2 rune
	var t1, t2 []rune
	for _, r := range text {
		switch r {
		case 1:
			if t1 == nil {
				t1, c1 = element("c")
			}
			in = append(in, t1...)
		case 2:
			if t2 == nil {
				t2, c2 = element("d")
			}
			in = append(in, t2...)
		default:
			in = append(in, r)
		}
	}
	@ASSUME@
	sym.SetFile("in.bnf", string(in))
	begin("b")
	said := sym.Capture(gogll.Main)
	_ = said
	for _, f := range files {
		a, ok := base[f]
		b, ok1 := sym.File("b/" + f)
		if !ok {
			continue
		}
		sym.Assert(ok1, f+" is generated")
		sym.Reach("file")
		if !sym.Symbolic() || !sym.EqStr(a, b) {
			compare(f, a, b, c1, c2)
		}
	}
	sym.Reach("end")
}

func compare(f, a, b string, c1, c2 rune) {
	want, ok := norm[f]
	if !ok {
		want, ok = ref.GoSource([]rune(a))
		sym.Assert(ok, f+" is Go source")
		norm[f] = want
	}
	got, ok := ref.GoSource([]rune(b))
	sym.Assert(ok, f+" is Go source")
	sym.Assert(len(got) == len(want), f+" has the characters of the literal")
	same := true
	for i, w := range want {
		switch w {
		case mark1:
			w = c1
			sym.Reach("literal")
		case mark2:
			w = c2
		}
		same = sym.And(same, sym.EqRune(got[i], w))
	}
	sym.Assert(same, f+" has the characters of the literal")
}
'''

TOKENS = '''package h

import (
	token0 "github.com/goccmack/gogll/v3/token"
	token1 "vh/g/tok/token"
	"vh/sym"
)

// unescaped is the literal with every escape replaced by what it names.
func unescaped(lit []rune) (out []rune) {
	for i := 0; i < len(lit); i++ {
		r := lit[i]
		if sym.EqRune(r, 92) && i+1 < len(lit) {
			i++
			r = lit[i]
			switch r {
			case 'n':
				r = 10
			case 'r':
				r = 13
			case 't':
				r = 9
			}
		}
		out = append(out, r)
	}
	return
}

func Run() {
	n := sym.Pick(sym.Int("n", 0, @LEN@))
	in := []rune("<>")
	for i := 0; i < n; i++ {
		c := sym.Rune("c")
		sym.Assume(sym.Or(sym.InRunes(c, 0, 0xD7FF), sym.InRunes(c, 0xE000, 0x10FFFF)))
		in = append(in, c)
	}
	in = append(in, '>')
	lit := in[2 : 2+n]
	want := unescaped(lit)
	for k := 0; k < 2; k++ {
		var a, b []rune
		var s, t string
		if k == 0 {
			x := token0.New(token0.Type(2), 2, 2+n, in)
			a, b, s, t = x.Literal(), x.LiteralStripEscape(), x.LiteralString(), x.LiteralStringStripEscape()
		} else {
			x := token1.New(token1.Type(2), 2, 2+n, in)
			a, b, s, t = x.Literal(), x.LiteralStripEscape(), x.LiteralString(), x.LiteralStringStripEscape()
		}
		sym.Assert(len(a) == n && len(b) == len(want), "the length of the literal")
		same := true
		for i := range a {
			same = sym.And(same, sym.EqRune(a[i], lit[i]))
		}
		for i := range b {
			same = sym.And(same, sym.EqRune(b[i], want[i]))
		}
		sym.Assert(same, "the characters of the literal, and with escapes resolved")
		sym.Assert(sym.And(sym.EqStr(s, string(lit)), sym.EqStr(t, string(want))), "the literal as a string")
	}
	sym.Reach("end")
}
'''

CHAR = [("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\\\", "\\"), ("\\'", "'")]
STR = [("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\\\", "\\"), ('\\"', '"')]
STRNS = STR[3:]

SPACE = '\t\n\v\f\r \x85\xa0' + "\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

FILES = ["token/token.go", "lexer/lexer.go", "parser/parser.go", "parser/symbols/symbols.go", "parser/slot/slot.go", "parser/bsr/bsr.go", "sppf/sppf.go",
         "parser/action.go", "parser/actiontable.go", "parser/gototable.go", "parser/productionstable.go", "errors/errors.go", "ast/ast.go"]

PROGS = {
    "char": ("aa : '\1' ; S : aa ;", CHAR, "'ж", True),
    "any": ('aa : any "\1" ; S : aa ;', STR, '"\\ж', True),
    "not": ('aa : not "\1" ; S : aa ;', STR, '"\\ж', True),
    "any2": ('aa : any "\1\2" ; S : aa ;', STR, '"\\жщ', True),
    "alt": ("aa : '\1' | '\2' 'x' ; S : aa ;".replace("'\1' |", "('\1' |").replace("'x' ;", "'x') ;"), CHAR, "'жщ", True),
    "str": ('S : "\1" ;', STRNS, '"\\ж$Sϵ' + SPACE, True),
    "strlr": ('S : "\1" ;', STRNS, '"\\ж$Sϵ' + SPACE, False),
    "str2": ('S : "\1\2" ;', STRNS, '"\\жщ' + SPACE, True),
    "str2lr": ('S : "\1\2" ;', STRNS, '"\\жщ' + SPACE, False),
}

MORE = {
    "lits": ('S : "\1" "\1\2" ;', STRNS, '"\\жщ$Sϵ' + SPACE, True),
    "litslr": ('S : "\1" "\1\2" | "\1\2" ;', STRNS, '"\\жщ$Sϵ' + SPACE, False),
}


def build(c):
    main_copy(c)
    progs = dict(PROGS)
    if c.thorough:
        progs.update(MORE)
    for name, (text, esc, excl, gll) in progs.items():
        e = ", ".join("{%s, %d}" % (gram.goq(t), ord(ch)) for t, ch in esc)
        b = BODY.replace("@TEXT@", gram.goq('package "p"\n' + text)).replace("@ESCAPES@", e).replace("@NOT@", gram.goq(excl))
        b = b.replace("@GLL@", "true" if gll else "false").replace("@FILES@", ", ".join(map(gram.goq, FILES))).replace("@ASSUME@", "sym.Assume(c1 < c2)" if name in ("any2", "alt") else "_, _ = c1, c2")
        c.write("vh/h/" + name, "h.go", b)
        c.job(name, "vh/h/" + name, setup="Setup", need=["end", "file", "literal"], steps=100000000, max_paths=100000)
        c.bounds.append("%s: %s, where ?1 and ?2 are any character but %s, or an escape" % ("GLL" if gll else "LR(1)", text.replace("\1", "?1").replace("\2", "?2"), " ".join("U+%04X" % ord(x) for x in excl)))
    c.gen("tok", 'S : "x" ;')
    n = 6 if c.thorough else 4
    c.write("vh/h/tok", "h.go", TOKENS.replace("@LEN@", str(n)))
    c.job("tok", "vh/h/tok", need=["end"])
    c.bounds.append("Literal, LiteralStripEscape and their string forms, of the own and of a generated token package: literals of up to %d arbitrary characters" % n)
    c.assumptions.append("each generated file is compared, as the sequence of Go tokens that it is with every literal decoded, with the one generated for a plain letter; C01 covers what the lexer of a plain letter does")
    c.outside.append("more than two arbitrary characters in a literal; the Rust target; string literals that are also the name of a nonterminal, $ or ϵ (C20)")
