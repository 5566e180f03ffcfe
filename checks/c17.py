import re

import front

HELP = '''
func num(n int) string { return strconv.Itoa(n) }

// has tells whether part occurs in s.
func has(s, part string) bool {
	b := false
	for i := 0; i+len(part) <= len(s); i++ {
		b = sym.Or(b, sym.EqStr(s[i:i+len(part)], part))
	}
	return b
}

// diagnosed tells whether the message names the symbol, and the line and
// column, of one of the faults.
func diagnosed(f *ref.Front, l *lexer.Lexer, out string) bool {
	b := false
	for _, x := range f.Faults {
		line, col := l.GetLineColumn(x.At)
		b = sym.Or(b, sym.And(has(out, string(x.Name)), has(out, num(line)), has(out, num(col))))
	}
	return b
}
'''

BODY = '''
func Run() {
	in, toks := text()
	want, ok := ref.ReadFront(toks)
	sym.Assume(ok)
	l := lex(in, toks)
	set, errs := parser.Parse(l)
	sym.Assume(errs == nil)
	code, out := sym.Exits(func() {
		g := ast.Build(set.GetRoot(), l, "g.md")
		sc.Go(g, l)
	})
	if len(want.Faults) == 0 {
		sym.Assert(code == -1 && out == "", "a grammar without faults is accepted")
		sym.Reach("accept")
		return
	}
	sym.Assert(code > 0, "a faulty grammar is rejected")
	sym.Assert(diagnosed(want, l, out), "the diagnostic names the symbol and its place")
	sym.Reach(want.Faults[0].What)
	sym.TraceInt("code", code)
}
''' + HELP

# the whole of gogll's main function, on texts that have a fault
MAIN = '''
func Run() {
	in, toks := text()
	want, ok := ref.ReadFront(toks)
	sym.Assume(ok)
	sym.Assume(len(want.Faults) > 0)
	sym.SetFile("in.bnf", string(in))
	cfg.BaseDir = "out"
	*cfg.GLL = sym.Bool("gll")
	*cfg.Knuth = sym.Not(*cfg.GLL)
	code, out := sym.Exits(gogll.Main)
	sym.Assert(code > 0, "a faulty grammar is rejected")
	sym.Assert(diagnosed(want, lexer.New(in), out), "the diagnostic names the symbol and its place")
	for _, f := range []string{"lexer/lexer.go", "token/token.go", "parser/parser.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "parser/bsr/bsr.go", "sppf/sppf.go", "parser/action.go", "errors/errors.go", "ast/ast.go", "LR1_conflicts.txt"} {
		_, made := sym.File("out/" + f)
		sym.Assert(!made, "no code is generated from a faulty grammar")
	}
	sym.Reach(want.Faults[0].What)
	sym.TraceInt("code", code)
}
''' + HELP

IMPORTS = ["ast", "parser", "sc", '"strconv"']


def programs(thorough):
    return {
        "names": ["package a0 :", ["char", "tokid"], "; a\2 :", ["char", "tokid"], "; S :", ["nt", "tokid", "str"], ["none", "nt", "tokid"], "; N\3 : \"t\" ;"],
        "twice": ["package S :", ["str", "nt"], "; \3 :", ["nt", "empty"], "; \3 : \"a\" ; \3 : empty ;"],
        "lextwice": ["package a\2 : 'x' ; a\2 :", ["char", "tokid"], ";", ["none", "!"], "a\2 : 'z' ; S :", ["tokid", "empty"], ";"],
        "inner": ["package a1 : 'x' ; a2 : [", ["char", "tokid"], "|", ["char", "tokid"], "{", ["char", "tokid"], "} ] ; S :", ["tokid", "str"], ";"],
        "blank": ["package S :", ["str", "str2", "strtab", "stresc", "strnb", "strem", "strutf"], ["none", "|"], ["nt", "str2"], "; A : \"a\" ;"],
        "deep": ["package S : A \"b\" | A | empty |", ["nt", "str"], "C", ["nt", "tokid"], "; A : \"x\" | \"y\"", ["nt", "tokid"], "; C : A", ["nt", "str"], "| S ; a5 : 'x' ;"],
        "order": ["package", ["none", "!"], "a1 :", ["char", "tokid"], ["endlex", "endsup"], ["char", "tokid"], ["endlex", "endsyn"], ["char", "tokid", "nt"], "; S :", ["str", "nt", "tokid"], ";"],
        # no syntax rule at all
        "lexonly": ["package a1 :", ["char", "tokid"], "; a2 :", ["char", "tokid"], ["none", "endlex"], ["char", "tokid"], ";"],
    }


NEED = {"names": ["accept", "undeclared"], "twice": ["accept", "duplicate"], "lextwice": ["accept", "duplicate", "undeclared"], "inner": ["accept", "undeclared"], "blank": ["accept", "blank", "undeclared"], "deep": ["accept", "undeclared"], "order": ["accept", "undeclared", "duplicate"], "lexonly": ["accept", "undeclared"]}


MAINS = {
    "mainsyn": ["package a1 : 'x' ; S :", ["str", "nt", "tokid", "strempty"], ["none", "nt"], "; T : \"t\" ;"],
    "mainlex": ["package a1 : 'x' ; a2 :", ["char", "tokid"], ["none", "endlex"], ["char", "tokid"], "; S : a2 ;"],
}


def main_copy(c):
    """gogll's main function as a package of its own; the command line is left out."""
    with open("/repo/main.go", encoding="utf-8") as f:
        t = f.read()
    t = re.sub(r"^package main\b", "package gogll", t, flags=re.M)
    t = re.sub(r"\bfunc main\(\)", "func Main()", t)
    t = re.sub(r"\bcfg\.GetParams\(\)", 'cfg.SrcFile = "in.bnf"', t)
    c.write("vh/gogll", "main.go", t)


def build(c):
    for name, parts in programs(c.thorough).items():
        c.write("vh/h/" + name, "h.go", front.harness(parts, BODY, IMPORTS))
        c.job(name, "vh/h/" + name, setup="Setup", need=NEED[name], steps=4000000, max_paths=60000)
        c.bounds.append("program %s: %s" % (name, front.show(parts)))
    for name, parts in MAINS.items():
        c.write("vh/h/" + name, "h.go", front.harness(parts, MAIN, ["cfg"] + ['"strconv"', '"vh/gogll"']))
        c.job(name, "vh/h/" + name, setup="Setup", need=["undeclared"], steps=8000000, max_paths=60000)
        c.bounds.append("main function, program %s: %s" % (name, front.show(parts)))
    main_copy(c)
    c.outside.append("characters beyond ASCII in string literals and names; longer grammars; texts that are not of the form of a grammar")
