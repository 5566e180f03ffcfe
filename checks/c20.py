import gram
import lexg
from c17 import main_copy

# the generated token and symbols packages, executed: arbitrary types
TAB = '''package h

import (
	token "@TOKEN@"
	symbols "@SYMBOLS@"
	"vh/sym"
)

var ids = []string{@IDS@}
var suppressed = map[string]bool{@SUPPRESSED@}

func Run() {
	n := len(token.TypeToString)
	sym.Assert(n == len(ids)+2 && len(token.TypeToID) == n && len(token.Suppress) == n && len(token.StringToType) == n && len(token.IDToType) == n, "every terminal, Error and end of file have one entry in every table")
	a := token.Type(sym.Int("a", 0, n-1))
	s, ok := token.StringToType[a.String()]
	sym.Assert(sym.And(ok, sym.EqInt(int(s), int(a))), "look-up by name: no two types have the same name")
	i, ok := token.IDToType[a.ID()]
	sym.Assert(sym.And(ok, sym.EqInt(int(i), int(a))), "look-up by terminal: no two types have the same terminal")
	sym.Assert(sym.Not(sym.EqInt(int(token.Error), int(token.EOF))), "Error is not end of file")

	// a token of the type
	in := []rune{sym.Rune("c"), 'x', 'y'}
	sym.Assume(sym.InRunes(in[0], 1, 0xD7FF))
	t := token.New(a, 0, 2, in)
	sym.Assert(sym.And(sym.EqInt(int(t.Type()), int(a)), sym.EqStr(t.TypeID(), a.ID())), "the type of a token")
	printed := t.String()
	sym.Assert(sym.EqStr(printed, t.TypeID()+" (0,2) "+string(in[:2])), "the printed form of a token")

	// the terminal that the type stands for
	terms := 0
	found := false
	for k, id := range ids {
		is := sym.EqStr(a.ID(), id)
		found = sym.Or(found, is)
		sym.Assert(sym.Or(sym.Not(is), sym.EqBool(t.Suppress(), suppressed[id])), "suppressed if the rule is")
		sym.Assert(sym.Or(sym.Not(is), sym.EqBool(token.Suppress[a], suppressed[id])), "suppressed if the rule is")
		typ, ok := token.IDToType[id]
		sym.Assert(ok, "every terminal has a type")
		// terminals are numbered alike in the parser
		sym.Assert(sym.EqStr(symbols.T(int(typ)-2).String(), id), "the parser's number of a terminal")
		sym.Assert(!symbols.T(int(typ)-2).IsNonTerminal() && !symbols.IsNT(id), "a terminal is no nonterminal")
		_ = k
		terms++
	}
	special := sym.Or(sym.EqInt(int(a), int(token.Error)), sym.EqInt(int(a), int(token.EOF)))
	sym.Assert(sym.EqBool(found, sym.Not(special)), "every type but Error and end of file is a terminal's")
	sym.Assert(sym.Or(sym.Not(special), sym.Not(t.Suppress())), "Error and end of file are not suppressed")
	sym.Reach("end")
}
'''

OWN_IDS = None

GEN = '''package h

import (
	"github.com/goccmack/gogll/v3/cfg"
	"vh/gogll"
	"vh/ref"
	"vh/sym"
)

// the terminals: \\x01 a character of a name, \\x02 a character of a literal,
// \\x03 any character that an identifier cannot start with
type term struct {
	id       string
	suppress bool
	rule     string // what the lexical rule matches, "" for a string literal
}

var terms = []term{@TERMS@}

// the syntax rule; each #k is terminal k
const syntax = @SYNTAX@

var letters = []rune{'a', 'z', '0', '9', '_', '_', 'A', 'Z', 0xE0, 0xF6, 0x3B1, 0x3C9, 0x4E00, 0x9FA5}

func character(class rune) rune {
	c := sym.Rune("c")
	if class == 1 {
		in := false
		for i := 0; i < len(letters); i += 2 {
			in = sym.Or(in, sym.InRunes(c, letters[i], letters[i+1]))
		}
		sym.Assume(in)
		return c
	}
	sym.Assume(sym.Or(sym.InRunes(c, 1, 0xD7FF), sym.InRunes(c, 0xE000, 0xFEFE), sym.InRunes(c, 0xFF00, 0x10FFFF)))
	for _, r := range @NOT@ {
		sym.Assume(sym.Not(sym.EqRune(c, r)))
	}
	return c
}

func eqs(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.EqRune(a[i], b[i]))
	}
	return r
}

func Run() {
	ids := make([][]rune, len(terms))
	for i, t := range terms {
		for _, r := range t.id {
			if r < 4 {
				r = character(r)
			}
			ids[i] = append(ids[i], r)
		}
		// other terminals, and not the names that every grammar has
		for j := 0; j < i; j++ {
			sym.Assume(sym.Not(eqs(ids[i], ids[j])))
		}
		for _, s := range []string{"$", "Error", "ϵ", "S"} {
			sym.Assume(sym.Not(eqs(ids[i], []rune(s))))
		}
	}
	in := []rune("package \\"p\\"\\n")
	for i, t := range terms {
		if t.rule != "" {
			if t.suppress {
				in = append(in, '!')
			}
			in = append(append(in, ids[i]...), []rune(" : ")...)
			for _, r := range t.rule {
				in = append(in, []rune{'\\'', r, '\\'', ' '}...)
			}
			in = append(in, ';', '\\n')
		}
	}
	for i := 0; i < len(syntax); i++ {
		if syntax[i] != '#' {
			in = append(in, rune(syntax[i]))
			continue
		}
		i++
		k := int(syntax[i] - '0')
		if terms[k].rule == "" {
			in = append(append(append(in, '"'), ids[k]...), '"')
		} else {
			in = append(in, ids[k]...)
		}
	}
	sym.SetFile("in.bnf", string(in))
	cfg.BaseDir = "b"
	*cfg.GLL, *cfg.Knuth, *cfg.AutoResolveLRConf = @GLL@, !@GLL@, false
	sym.Capture(gogll.Main)

	src, ok := sym.File("b/token/token.go")
	sym.Assert(ok, "a token package is generated")
	ts, ok := ref.GoTokens([]rune(src))
	sym.Assert(ok, "the token package is Go source")
	consts := ref.Consts(ts)
	names, ok1 := ref.Table(ts, "TypeToString")
	lookup, ok2 := ref.Table(ts, "StringToType")
	toID, ok3 := ref.Table(ts, "TypeToID")
	idTo, ok4 := ref.Table(ts, "IDToType")
	sup, ok5 := ref.Table(ts, "Suppress")
	if consts == nil || !(ok1 && ok2 && ok3 && ok4 && ok5) {
		// written in another way; the executed packages are still checked
		sym.Reach("end")
		return
	}
	n := len(ids) + 2
	sym.Assert(len(names) == n && len(lookup) == n && len(toID) == n && len(idTo) == n && len(sup) == n, "every terminal, Error and end of file have one entry in every table")
	typ := make([]int, len(ids))
	for i, id := range ids {
		found := -1
		for k, e := range toID {
			if eqs(lit(e.Val), id) {
				sym.Assert(found < 0, "one type for a terminal")
				found = k
			}
		}
		sym.Assert(found > 1, "a type for every terminal")
		typ[i] = found
		sym.Assert(ref.Value(sup[found].Val, consts) == bit(terms[i].suppress), "suppressed if the rule is")
	}
	sym.Assert(ref.Value(sup[0].Val, consts) == 0 && ref.Value(sup[1].Val, consts) == 0, "Error and end of file are not suppressed")
	sym.Assert(string(lit(toID[0].Val)) == "Error" && string(lit(names[0].Val)) == "Error" && string(lit(names[1].Val)) == "EOF", "Error and end of file")
	for k := range toID {
		hit := 0
		for _, e := range idTo {
			if eqs(lit(e.Key), lit(toID[k].Val)) {
				sym.Assert(ref.Value(e.Val, consts) == k, "look-up by terminal")
				hit++
			}
		}
		sym.Assert(hit == 1, "one look-up by terminal")
		hit = 0
		for _, e := range lookup {
			if string(lit(e.Key)) == string(lit(names[k].Val)) {
				sym.Assert(ref.Value(e.Val, consts) == k, "look-up by name")
				hit++
			}
		}
		sym.Assert(hit == 1, "one look-up by name")
		if v, ok := consts[string(lit(names[k].Val))]; ok {
			sym.Assert(v == k, "the name of a type")
		}
	}
	sym.Reach("token")

	// the lexer finds the terminal's type
	src, _ = sym.File("b/lexer/lexer.go")
	ts, ok = ref.GoTokens([]rune(src))
	sym.Assert(ok, "the lexer is Go source")
	accept, ok := ref.Table(ts, "accept")
	next, ok1 := ref.Table(ts, "nextState")
	if ok && ok1 {
		for i, t := range terms {
			text := ids[i]
			if t.rule != "" {
				text = []rune(t.rule)
				for j, u := range terms {
					// a string literal takes precedence
					sym.Assume(u.rule != "" || sym.Not(eqs(ids[j], text)))
				}
			}
			if s := run(next, text); s >= 0 && s < len(accept) {
				got := ref.Value(accept[s].Val, consts)
				sym.Assert(got == typ[i], "the type that the lexer gives")
				sym.Reach("lexer")
			}
		}
	}

	// the parser names and numbers the terminals alike
	for _, f := range []string{"b/parser/parser.go", "b/parser/symbols/symbols.go"} {
		src, ok = sym.File(f)
		if !ok {
			continue
		}
		ts, ok = ref.GoTokens([]rune(src))
		sym.Assert(ok, f+" is Go source")
		for i := 0; i+4 < len(ts); i++ {
			if ts[i].Is("token") && ts[i+1].Kind == '.' && ts[i+2].Kind == 'i' && ts[i+3].Kind == ':' && ts[i+4].Kind == 'l' {
				if k, ok := consts[string(ts[i+2].Text)]; ok {
					sym.Assert(eqs(ts[i+4].Text, lit(toID[k].Val)), "the name in the parser's sets")
					sym.Reach("sets")
				}
			}
		}
		if tab, ok := ref.Table(ts, "tToString"); ok && f == "b/parser/symbols/symbols.go" {
			sym.Assert(len(tab) == len(ids), "the parser's terminals")
			for k, e := range tab {
				sym.Assert(eqs(lit(e.Val), lit(toID[k+2].Val)), "the parser's number of a terminal")
			}
			sym.Reach("symbols")
		}
	}
	sym.Reach("end")
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func lit(v []ref.GoTok) []rune {
	if len(v) == 1 && v[0].Kind == 'l' {
		return v[0].Text
	}
	return nil
}

// run follows the text through the lexer's states: cases "r == 'x': return n".
func run(next []ref.Entry, text []rune) int {
	s := 0
	for _, r := range text {
		to := -1
		v := next[s].Val
		for i := 0; i+6 < len(v); i++ {
			if v[i].Is("case") && v[i+1].Is("r") && v[i+2].Kind == '=' && v[i+3].Kind == '=' && v[i+4].Kind == 'l' && len(v[i+4].Text) == 1 && v[i+5].Kind == ':' && v[i+6].Is("return") {
				if eqs(v[i+4].Text, []rune{r}) {
					to = ref.Value(v[i+7:i+8], nil)
					break
				}
			}
		}
		if to < 0 || to >= len(next) {
			return -1
		}
		s = to
	}
	return s
}
'''

SPACE = '\t\n\v\f\r \x85\xa0' + "\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

# terminals (name or literal, suppressed, what the rule matches), syntax rules, GLL?
PROGS = {
    "rules": ([("q\1", False, "x"), ("q\1\1", True, "y"), ("r\1", False, "z")], "S : #0 | #2 ;", True),
    "lits": ([("\2", False, ""), ("\2\2", False, ""), ("x", False, "")], "S : #0 #1 | #2 ;", True),
    "mixed": ([("q\1", True, "x"), ("\2", False, ""), ("r\1", False, "yx")], "S : #1 #2 ;", True),
    "mixedlr": ([("q\1", True, "x"), ("\2", False, ""), ("r\1", False, "yx")], "S : #1 #2 ;", False),
    "near": ([("q\1", False, "yx"), ("q\2", False, ""), ("r", False, "") ], "S : #0 #1 #2 ;", True),
}
MORE = {
    "four": ([("q\1", True, "x"), ("\2", False, ""), ("r\1", True, "yx"), ("\2q", False, "")], "S : #1 #2 | #3 S ;", True),
    "fourlr": ([("q\1", True, "x"), ("\2", False, ""), ("r\1", False, "yx"), ("\2q", False, "")], "S : #1 #2 | #3 S ;", False),
    "six": ([("q\1", True, "x"), ("r\1", False, "y"), ("s\1", True, "z"), ("t", False, "zx"), ("t\1", True, "zy"), ("\2", False, "")], "S : #1 #3 | #5 S ;", True),
}

# grammars whose terminals' names clash
CLASH = {
    "clash-eof": [("$", False, ""), ("x", False, "")],
    "clash-error": [("Error", False, ""), ("x", False, "")],
    "clash-rule": [("ab", False, "x"), ("ab", False, "")],
}


def go_terms(ts):
    return ", ".join("{%s, %s, %s}" % (gram.goq(i), "true" if s else "false", gram.goq(r)) for i, s, r in ts)


MANY = '''
''' + "".join("%sr%d : 'r' '%s' ;\n" % ("!" if i % 3 == 1 else "", i, "abcdefghijklm"[i]) for i in range(13)) + '''
S : r0 r2 | r3 "a" | "b" "zz" | "Z" "_" | S r12 "é" | "世" "T_0" "EOF" r11 r9 ;
'''


def terminals(text):
    g = gram.parse(text)
    sup = {n: s for n, s, _ in g.lex}
    ids = sorted(set(sup) | set(map(gram.unesc, g.literals)))
    return ids, sup


def build(c):
    main_copy(c)
    grams = {"many": MANY}
    for n in ("kw", "cmt", "opt"):
        if n in lexg.GRAMMARS:
            grams[n] = lexg.GRAMMARS[n]
    own = open("/repo/gogll.md").read()
    for name, text in list(grams.items()) + [("own", None)]:
        if text is None:
            tok, syms = "github.com/goccmack/gogll/v3/token", "github.com/goccmack/gogll/v3/parser/symbols"
            ids, sup = terminals(gram.md_code(own))
        else:
            c.gen("t" + name, text)
            tok, syms = "vh/g/t%s/token" % name, "vh/g/t%s/parser/symbols" % name
            ids, sup = terminals('package "p"\n' + text if "package" not in text else text)
        b = TAB.replace("@TOKEN@", tok).replace("@SYMBOLS@", syms).replace("@IDS@", ", ".join(map(gram.goq, ids)))
        b = b.replace("@SUPPRESSED@", ", ".join("%s: true" % gram.goq(i) for i in ids if sup.get(i)))
        c.write("vh/h/tab" + name, "h.go", b)
        # every type of every grammar
        c.job("tab-" + name, "vh/h/tab" + name, need=["end"])
        c.bounds.append("token and symbols packages of grammar %s (%d terminals): every pair of types, any token text" % (name, len(ids)))
    progs = dict(PROGS)
    if c.thorough:
        progs.update(MORE)
    for name, (ts, syntax, gll) in progs.items():
        gen(c, "gen-" + name, ts, syntax, gll)
    for name, ts in CLASH.items():
        gen(c, name, ts, "S : #0 | #1 ;", True, True)


    c.bounds.append("in these, ? is any letter of a few ranges of letters and digits, * any character but white space, quote and backslash; the names differ from each other and from $, Error, ϵ and S")
    c.outside.append("tables that are written in another form than Go composite literals (then only the packages that are executed are checked); the Rust target; names of several arbitrary characters beyond two")


def gen(c, name, ts, syntax, gll, clash=False):
    b = GEN.replace("@TERMS@", go_terms(ts)).replace("@SYNTAX@", gram.goq(syntax)).replace("@GLL@", "true" if gll else "false").replace("@NOT@", gram.goq('"\\' + SPACE))
    if clash:
        b = b.replace("sym.Assume(sym.Not(eqs(ids[i]", "sym.Or(sym.Not(eqs(ids[i]")
        b = b.replace('string(lit(toID[0].Val)) == "Error"', "true")
    c.write("vh/h/" + name.replace("-", ""), "h.go", b)
    c.job(name, "vh/h/" + name.replace("-", ""), need=[] if clash else ["end"], steps=100000000, max_paths=100000)
    c.bounds.append("%s: terminals %s in %s" % ("GLL" if gll else "LR(1)", " ".join((i if r else '"%s"' % i).replace("\1", "?").replace("\2", "*") for i, _, r in ts), syntax))
