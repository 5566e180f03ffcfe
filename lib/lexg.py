"""Grammars and harness for the checks on generated lexers (C01, C02, C03, C20)."""
import json
import random
import gram

# every construct of the lexical notation, and pairs of rules whose
# characters overlap in the ways the notation allows
GRAMMARS = {
    # literals against an identifier rule, prefixes of each other
    "kw": '''
id : letter {letter | number | '_'} ;
num : <number> ;
!ws : ' ' ;
S : E ;
E : E "+" T | E "++" T | "if" E "then" T | "ifs" T | T ;
T : id | num | "(" E ")" | "i" | "=" | "==" | "=>" ;
''',
    # groups, options, repetition, nesting
    "rep": '''
ra : 'a' ['b' | 'c' 'd'] 'e' ;
rb : 'b' {'x' | 'y' 'z'} 'w' ;
rc : 'c' <'x' ['y']> ;
rd : 'd' ('0' | <'1'> '2') {'3'} ;
re : {'p'} <'q' | 'r' {'s'} > 't' ;
rf : ['m'] ['n'] 'o' ;
S : X | S X ;
X : ra | rb | rc | rd | re | rf ;
''',
    # references to other rules, used twice and nested
    "ref": '''
digit : any "01" ;
sign : any "+-" ;
int : [sign] <digit> ;
pair : int ',' int ;
flt : int '.' {digit} ;
S : int | pair | flt | digit | sign ;
''',
    # block and line comments, strings: not, any, '.'
    "cmt": r'''
!line : '/' '/' {not "\n"} ;
!block : '/' '*' {not "*" | '*' not "*/"} <'*'> '/' ;
str : '"' {not "\\\"" | '\\' any "\\\"nrt"} '"' ;
chr : '\'' (not "\\'" | '\\' any "\\'nrt") '\'' ;
S : str | chr | "/" | "/=" | S S ;
''',
    # unicode classes
    "uni": '''
name : upcase {letter | number} ;
low : lowcase {lowcase} '!' ;
dig : number '.' <number> ;
S : name | low | dig ;
''',
    "uset": r'''
hex : '0' <'[\p{Hex_Digit}]'> ;
sym : '[\p{Sm}\p{Sc}-\p{Pattern_Syntax}]' {'[\p{Radical}]'} ;
uni : '[\p{L}-\p{Lu}]' {'[\p{L}\p{N}]'} ;
S : hex | sym | uni ;
''',
    # brackets whose bodies match nothing, within each other
    "optl": '''
ra : 'a' {['x'] | {'y'} 'z'} ['w' | ['v']] 'e' ;
rb : 'b' <{'x'} ['y']> ( ['z'] | <['w']> 'v' ) ;
rc : 'c' {'y' ('a' | ['b'])} ;
rd : 'd' [{'x' | <{'y'}>} ['z' ['w']]] {{['a'] 'b'}} ;
S : ra | rb | rc | rd | "cy" ;
''',
    # any character
    "dot": '''
pct : '%' . ;
two : '$' . . '$' ;
S : pct | two | "%%" | "$$" ;
''',
    # escapes
    "esc": r'''
nl : '\n' '\t' '\r' ;
bs : '\\' any "\\\"nt" ;
qq : '\'' '"' ;
S : nl | bs | qq | "\\\\" | "\"" | "'" ;
''',
    # rules that share long prefixes, failing late
    "late": '''
xx : 'a' 'b' 'c' 'd' ;
yy : 'a' 'b' 'e' ;
zz : 'a' {'b'} 'f' ;
S : xx | yy | zz | "a" | "abc" ;
''',
    # non-ASCII literals
    "wide": '''
euro : '€' <number> ;
S : euro | "αβ" | "α" | "😀" ;
''',
}


def rand_lex(seed):
    """Random lexical rules, mostly of nested brackets, over a few characters."""
    r = random.Random(seed)

    def atom():
        k = r.random()
        if k < 0.68:
            return "'%s'" % r.choice("abc")
        if k < 0.8:
            return 'any "%s"' % r.choice(["ab", "bc", "ac"])
        if k < 0.9:
            return "letter"
        return r.choice([".", 'not "a"', 'not "bc"', "number", "lowcase"])

    def seq(d):
        return " ".join(sym(d) for _ in range(r.choice([1, 1, 2, 2, 3])))

    def sym(d):
        if d == 0 or r.random() < 0.45:
            return atom()
        o, e = r.choice(["()", "[]", "{}", "{}", "<>", "<>"])
        return o + " " + " | ".join(seq(d - 1) for _ in range(r.choice([1, 1, 2, 3]))) + " " + e

    n = r.choice([1, 2, 2, 3])
    rules, names = [], []
    for i in range(n):
        name = ["ra", "rb", "rc"][i]
        body = seq(r.choice([1, 2, 2, 3]))
        if i and r.random() < 0.3:
            body = r.choice([body + " " + names[0], names[0] + " " + body])
        sup = "!" if n > 1 and i == n - 1 and r.random() < 0.4 else ""
        rules.append("%s%s : %s ;" % (sup, name, body))
        if not sup:
            names.append(name)
    lits = r.sample(['"a"', '"ab"', '"ca"', '"c"', '"bb"'], r.choice([0, 0, 1, 2]))
    return "\n" + "\n".join(rules) + "\nS : " + " | ".join(names + lits + ["S S"]) + " ;\n"


def grammars(c, quick, thorough):
    d = dict(GRAMMARS)
    i = n = 0
    while n < (thorough if c.thorough else quick):
        t = rand_lex(i)
        if 5 <= len(gram.Auto(gram.parse('package "p"\n' + t)).pos) <= (20 if c.thorough else 13):
            d["rnd%d" % i] = t
            n += 1
        i += 1
    return d


def harness_go(g, k, access, body, lexer=None, token=None, extra=()):
    a = gram.Auto(g)
    o = ["package h", "", "import ("]
    for i in ["unicode", lexer or "vh/g/%s/lexer" % g.name, token or "vh/g/%s/token" % g.name, "vh/ref", "vh/sym", *extra]:
        o.append('\t"%s"' % i)
    o += [")", "", "var _ = unicode.IsSpace", "var _ = ref.Md", "var _ token.Type", "", "var access = []string{" + ", ".join(gram.goq(s) for s in access) + "}", "", gram.auto_go(a, "Spec"), ""]
    o.append((INPUT + body).replace("@K@", str(k)))
    return a, "\n".join(o)


INPUT = '''
const more = @K@

func input() []rune {
	i := 0
	if len(access) > 1 {
		i = sym.Pick(sym.Int("access", 0, len(access)-1))
	}
	in := []rune(access[i])
	for k := 0; k < more; k++ {
		r := sym.Rune("r")
		sym.Assume(sym.Or(sym.InRunes(r, 0, 0xD7FF), sym.InRunes(r, 0xE000, 0x10FFFF)))
		in = append(in, r)
	}
	return in
}
'''

TOKENS = '''
func Run() {
	in := input()
	l := lexer.New(in)
	n := 0
	for n < len(l.Tokens) && l.Tokens[n].Type() != token.EOF {
		n++
	}
	sym.Assert(n < len(l.Tokens), "the token list ends with the end-of-file token")
	want := Spec.Tokens(in)
	for i, w := range want {
		sym.Assert(i < n, "a token that the rules demand is missing")
		t := l.Tokens[i]
		sym.TraceInt("l", t.Lext())
		sym.TraceInt("r", t.Rext())
		sym.TraceStr("id", t.TypeID())
		sym.Assert(t.Lext() == w.L, "a token starts where the rules demand")
		sym.Assert(t.Rext() == w.R, "a token ends where the rules demand")
		sym.Assert(Spec.Is(w, t.TypeID()), "a token has the type that the rules demand")
		if w.Accept == nil {
			sym.Reach("error")
		} else {
			sym.Reach("token")
		}
	}
	sym.Assert(n == len(want), "no token beyond those that the rules demand")
	sym.Reach("end")
}
'''

# every input is tiled by its tokens
TILE = '''
func Run() {
	in := input()
	l := lexer.New(append([]rune(nil), in...))
	at, n := 0, 0
	for _, t := range l.Tokens {
		if t.Type() == token.EOF {
			break
		}
		n++
		sym.TraceInt("l", t.Lext())
		sym.TraceInt("r", t.Rext())
		sym.Assert(at <= t.Lext(), "tokens are in order and do not overlap")
		sym.Assert(t.Lext() < t.Rext(), "no token is empty")
		sym.Assert(t.Rext() <= len(in), "tokens lie inside the input")
		sym.Assert(sym.Not(unicode.IsSpace(in[t.Lext()])), "no token starts with white space")
		sym.Assert(!t.Suppress(), "no suppressed token in the result")
		sym.Assert(Spec.Blank(in, at, t.Lext()), "what no token covers is white space or suppressed")
		lit := t.Literal()
		sym.Assert(len(lit) == t.Rext()-t.Lext(), "the literal of a token is the text of its extent")
		for i := range lit {
			sym.Assert(sym.EqRune(lit[i], in[t.Lext()+i]), "the literal of a token is the text of its extent")
		}
		s := []rune(t.LiteralString())
		sym.Assert(len(s) == len(lit), "the literal string of a token is its text")
		for i := range s {
			sym.Assert(sym.EqRune(s[i], lit[i]), "the literal string of a token is its text")
		}
		at = t.Rext()
		sym.Reach("token")
	}
	sym.Assert(n == len(l.Tokens)-1, "exactly one end-of-file token, at the end")
	e := l.Tokens[n]
	sym.Assert(e.Type() == token.EOF && e.Lext() == len(in) && e.Rext() == len(in), "the end-of-file token lies at the end of the input")
	sym.Assert(Spec.Blank(in, at, len(in)), "what no token covers is white space or suppressed")
	if n > 0 {
		first, last := l.Tokens[0].Lext(), l.Tokens[n-1].Rext()
		sym.Assert(sym.EqStr(l.GetString(0, n-1), string(in[first:last])), "the text from one token to another is that of the input")
	}
	for i := range in {
		sym.Assert(sym.EqRune(l.I[i], in[i]), "the input is left as it is")
	}
	sym.Reach("end")
}
'''
