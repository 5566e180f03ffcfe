import front

BODY = '''
func Run() {
	in, toks := text()
	want, ok := ref.ReadFront(toks)
	sym.Assume(ok)
	if len(want.Faults) > 0 {
		sym.Reach("fault")
		return
	}
	l := lex(in, toks)
	set, errs := parser.Parse(l)
	sym.Assert(errs == nil, "a grammar of the documented form is parsed")
	sym.Assert(!set.IsAmbiguous(), "a grammar of the documented form is read in one way")
	g := ast.Build(set.GetRoot(), l, "g.md")
	sc.Go(g, l)
	sym.Assert(g.Package.GetString() == "p", "the package is the one written")

	sym.Assert(len(g.LexRules) == len(want.Lex), "every lexical rule is built")
	names := [][]rune{}
	for i, r := range g.LexRules {
		w := want.Lex[i]
		sym.Assert(eq(r.ID(), w.Name), "a lexical rule has the name written")
		sym.Assert(r.Suppress == w.Suppress, "a lexical rule is suppressed if written so")
		same(r.RegExp.Symbols, w.Body)
		names = append(names, w.Name)
		sym.Reach("lex")
	}
	sym.Assert(len(g.SyntaxRules) == len(want.Syn), "every syntax rule is built")
	lits := [][]rune{}
	for i, r := range g.SyntaxRules {
		w := want.Syn[i]
		sym.Assert(eq(r.ID(), w.Name), "a syntax rule has the name written")
		sym.Assert(len(r.Alternates) == len(w.Alts), "every alternate is built")
		for j, a := range r.Alternates {
			sym.Assert(len(a.Symbols) == len(w.Alts[j]), "an alternate has the symbols written")
			ids := a.GetSymbols()
			for k, s := range a.Symbols {
				x := w.Alts[j][k]
				kind := ""
				switch s.(type) {
				case *ast.NT:
					kind = "nt"
				case *ast.TokID:
					kind = "tokid"
				case *ast.StringLit:
					kind = "string_lit"
					lits = append(lits, x.Text)
				}
				sym.Assert(kind == x.Kind, "a symbol is of the kind written")
				sym.Assert(sym.And(eq(s.ID(), x.Text), eq(ids[k], x.Text)), "a symbol is the one written")
			}
		}
		sym.Reach("syn")
	}
	isSet(g.NonTerminals.Elements(), synNames(want), "the nonterminals are the heads of the syntax rules")
	isSet(g.GetStringLiterals(), lits, "the string literals are those of the syntax rules")
	isSet(g.Terminals.Elements(), append(names, lits...), "the terminals are the lexical rules and the string literals")
	if len(want.Syn) > 0 {
		sym.Assert(eq(g.StartSymbol(), want.Syn[0].Name), "the start symbol is the first syntax rule")
	}
	sym.TraceInt("lex", len(g.LexRules))
	sym.TraceInt("terminals", g.Terminals.Len())
	sym.Reach("end")
}

func synNames(f *ref.Front) (ns [][]rune) {
	for _, r := range f.Syn {
		ns = append(ns, r.Name)
	}
	return
}

func eq(s string, rs []rune) bool { return sym.EqStr(s, string(rs)) }

// isSet asserts that elems lists the wanted names, each once.
func isSet(elems []string, want [][]rune, msg string) {
	for i, e := range elems {
		in := false
		for _, w := range want {
			in = sym.Or(in, eq(e, w))
		}
		sym.Assert(in, msg)
		for _, f := range elems[:i] {
			sym.Assert(sym.Not(sym.EqStr(e, f)), msg)
		}
	}
	for _, w := range want {
		in := false
		for _, e := range elems {
			in = sym.Or(in, eq(e, w))
		}
		sym.Assert(in, msg)
	}
}

func chars(rs *runeset.RuneSet, want []rune) {
	for _, c := range rs.Elements() {
		in := false
		for _, w := range want {
			in = sym.Or(in, sym.EqRune(c, w))
		}
		sym.Assert(in, "a set holds only the characters written")
	}
	for _, w := range want {
		in := false
		for _, c := range rs.Elements() {
			in = sym.Or(in, sym.EqRune(c, w))
		}
		sym.Assert(in, "a set holds the characters written")
	}
}

const order = "a lexical rule has the symbols written, in order"

var classes = map[string]ast.UnicodeClassType{"letter": ast.Letter, "upcase": ast.Upcase, "lowcase": ast.Lowcase, "number": ast.Number, "space": ast.Space}

func same(body []ast.LexSymbol, want []*ref.FSym) {
	sym.Assert(len(body) == len(want), order)
	for i, s := range body {
		w := want[i]
		switch s := s.(type) {
		case *ast.Any:
			sym.Assert(w.Kind == "any", order)
		case *ast.AnyOf:
			sym.Assert(w.Kind == "anyof", order)
			chars(s.Set, w.Chars)
		case *ast.Not:
			sym.Assert(w.Kind == "not", order)
			chars(s.Set, w.Chars)
		case *ast.CharLiteral:
			sym.Assert(w.Kind == "char", order)
			sym.Assert(sym.EqRune(s.Char(), w.Chars[0]), "a character literal is the character written")
		case *ast.UnicodeClass:
			sym.Assert(w.Kind == "class" && s.Type == classes[w.Name], order)
		case *ast.UnicodeSet:
			sym.Assert(w.Kind == "set" && len(s.Ranges) == len(w.Ranges), order)
			for j, r := range s.Ranges {
				x := w.Ranges[j]
				prop := len(x.Name) > 2
				sym.Assert(r.Range == x.Name && r.Exclude == x.Exclude && (r.Type == ast.UnicodeProperty) == prop, "a Unicode set has the elements written")
			}
		case *ast.LexBracket:
			sym.Assert(s.LeftBracket() == w.Kind, order)
			sym.Assert(len(s.Alternates) == len(w.Alts), "a bracket has the alternates written")
			for j, a := range s.Alternates {
				same(a.Symbols, w.Alts[j])
			}
			sym.Reach("bracket")
		default:
			sym.Assert(false, order)
		}
	}
}
'''

IMPORTS = ["ast", "parser", "sc", "util/runeset"]

LEX = ["char", "dot", "tokid", "(", ")", "[", "]", "{", "}", "<", ">", "|"]


def programs(thorough):
    atoms = ["char", "quote", "newline", "high", "dot", "any", "not", "letter", "upcase", "lowcase", "number", "set", "set2", "tokid"]
    p = {
        # every kind of symbol, next to every other
        "atoms": ["package a0 : 'x' ; a1 :", atoms, atoms + ["none"], ["none", "char", "any"], "; a2 : 'u' a1 ; S : a0 a1 ;"],
        # brackets
        "brackets": ["package a0 : 'x' any ; a1 :"] + [LEX] * (5 if thorough else 4) + ["; S : a1 a0 ;"],
        "nested": ["package a0 : 'x' ; a1 :", ["[", "{"], ["(", "<"], ["char", "tokid"], ["none", "|"], ["none", "char"], [")", ">"], ["none", "|"], ["none", "dot"], ["]", "}"], ["none", "dot"], "; S : a1 ;"],
        # references to references
        "refs": ["package a0 : 'p' 'q' ; a1 :"] + [["char", "tokid"], ["none", "char", "tokid"], "; a2 :"] + [["tokid"], ["none", "char"], "; a3 :", ["char", "tokid"], ["none", "char"], "; S : a0 a1 a2 a3 ;"],
        "reflong": ["package a0 : 'p' 'q' ; a1 : a0 'x'", ["none", "char"], "; a2 :", ["tokid"], "'y' ; a3 :", ["tokid"], "'z'", ["none", "char"], "; a4 : [", ["tokid"], "'v' ] ; a5 :", ["char", "tokid"], "; S : a5 ;"],
        # rules
        "rules": ["package", ["none", "!"], "a0 : 'x'", ["endlex", "endsup", "endsyn", "none"], ["char", "str", "tokid"], ["endlex", "endsup", "endsyn"], ["char", "str", "empty"], "; S :", ["str", "nt", "tokid"], ";"],
        # alternates
        "alts": ["package S :"] + [["nt", "str", "tokid", "empty", "|"]] * (5 if thorough else 4) + ["; a7 : 'x' ; T : \"t\" ;"],
        "altrules": ["package S : \"s\"", ["none", "|", "endsyn"], ["str", "empty", "nt"], ["none", "|", "endsyn"], ["str2", "empty", "stresc"], ["none", "|", "endsyn"], ["none", "str", "empty"], ";"],
        "lits": ["package S :", ["str", "str2", "stresc"], ["none", "|"], ["str", "str2", "stresc"], ["none", "str"], "; a1 : 'x' ;"],
    }
    return p


def build(c):
    for name, parts in programs(c.thorough).items():
        c.write("vh/h/" + name, "h.go", front.harness(parts, BODY, IMPORTS))
        c.job(name, "vh/h/" + name, setup="Setup", need=["end"], steps=4000000, max_paths=60000)
        c.bounds.append("program %s: %s" % (name, front.show(parts)))
    c.outside.append("characters beyond ASCII in string literals and names; longer grammars; the lexing of the text (C01, C02, C19)")
