"""The planted bugs of /verif/seeded, as edits of /repo's files.  See mkseeds.py."""

def g(*lines):
    return '# Demo\n```\npackage "demo"\n' + '\n'.join(lines) + '\n```\n'

LEXMAIN = '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func toks(in string) (s string) {
	for _, t := range lexer.New([]rune(in)).Tokens {
		s += fmt.Sprintf("%%s(%%d,%%d) ", t.TypeID(), t.Lext(), t.Rext())
	}
	return
}

func main() {
	bad := false
	for in, want := range map[string]string{
%s	} {
		if got := toks(in); got != want {
			fmt.Printf("%%q: got  %%s\\n      want %%s\\n", in, got, want)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
'''

def lexmain(cases):
    return LEXMAIN % ''.join('\t\t%s: %s,\n' % (a, b) for a, b in cases)

GLLMAIN = '''package main

import (
	"fmt"
	"os"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func check(ok bool, format string, a ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", a...)
		os.Exit(1)
	}
}

func parses(in string) bool {
	set, errs := parser.Parse(lexer.New([]rune(in)))
	check((set == nil) == (len(errs) > 0), "%%q: forest %%v, errors %%v", in, set != nil, errs)
	return set != nil
}

func main() {
	_ = strings.TrimSpace
%s}
'''

LRMAIN = '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
)

func main() {
	bad := false
	for in, want := range map[string]bool{
%s	} {
		_, err := parser.New(lexer.New([]rune(in))).Parse()
		if (err == nil) != want {
			fmt.Printf("%%q: accepted %%t, want %%t\\n", in, err == nil, want)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
'''

def lrmain(cases):
    return LRMAIN % ''.join('\t\t"%s": %s,\n' % (a, 'true' if b else 'false') for a, b in cases)

def MAINGLL(cases):
    return '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, c := range []struct {
		in string
		ok bool
	}{%s} {
		_, errs := parser.Parse(lexer.New([]rune(c.in)))
		if (len(errs) == 0) != c.ok {
			fmt.Println("wrong verdict for", c.in)
			os.Exit(1)
		}
	}
}
''' % cases


LRGEN = '''timeout 60 "$w/gogll" -o . %(flags)s g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
cp "$here"/*.go .
'''

SEEDS = [
 dict(id='C01-empty-loop', property='C01',
  edits=[('lex/item/item.go', '''				for j := range item.Symbol().(*ast.LexBracket).Alternates {
''', '''				for j, alt := range item.Symbol().(*ast.LexBracket).Alternates {
					if i.Pos.Len() > 1 && isOptional(alt) {
						continue
					}
'''), ('lex/item/item.go', '''func (i *Item) Equal(other *Item) bool {
''', '''// isOptional returns true if re is one optional bracket
func isOptional(re *ast.RegExp) bool {
	if len(re.Symbols) != 1 {
		return false
	}
	b, ok := re.Symbols[0].(*ast.LexBracket)
	return ok && b.Type == ast.LexOptional
}

func (i *Item) Equal(other *Item) bool {
''')],
  grammar=g("tok : 'x' { 'y' ( 'a' | [ 'b' ] ) } ;", "S : tok ;"),
  main=lexmain([('"xya"', '"tok(0,3) $(3,3) "'), ('"xyb"', '"tok(0,3) $(3,3) "'), ('"xyyb"', '"tok(0,4) $(4,4) "')]),
  needs='an alternate of a nested bracket that is one optional bracket',
  breaks='such alternates are dropped, so that strings of the rule are not recognised'),

 dict(id='C02-nbsp', property='C02',
  edits=[('gen/golang/lexer/lexer.go', '''		for lext < len(lex.I) && unicode.IsSpace(lex.I[lext]) {
''', '''		for lext < len(lex.I) && (lex.I[lext] < unicode.MaxASCII && unicode.IsSpace(lex.I[lext]) ||
			unicode.Is(unicode.Zs, lex.I[lext])) {
''')],
  grammar=g("id : < letter > ;", "S : id id ;"),
  main=lexmain([('"a b"', '"id(0,1) id(2,3) $(3,3) "'), ('"a\\u00a0b"', '"id(0,1) id(2,3) $(3,3) "'),
                ('"a\\u0085b"', '"id(0,1) id(2,3) $(3,3) "'), ('"a\\u2028b"', '"id(0,1) id(2,3) $(3,3) "')]),
  needs='input with one of U+0085, U+2028, U+2029 between tokens',
  breaks='white space that is neither ASCII nor in category Zs is lexed as Error tokens'),

 dict(id='C03-tabstop', property='C03',
  edits=[('gen/golang/token/token.go', '''            col += 4
''', '''            col += 4 - (col-1)%4
''')],
  grammar=g("id : < letter > ;", "S : id id ;"),
  main='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for _, in := range []string{"a b\\n\\tc", "ab\\tc\\n d"} {
		l := lexer.New([]rune(in))
		for i, t := range l.Tokens {
			l1, c1 := t.GetLineColumn()
			l2, c2 := l.GetLineColumnOfToken(i)
			if l1 != l2 || c1 != c2 {
				fmt.Printf("%q token %d: %d:%d and %d:%d\\n", in, i, l1, c1, l2, c2)
				os.Exit(1)
			}
		}
	}
}
''',
  needs='a tab that does not start at a multiple of four columns, before a token on the same line',
  breaks="the token's own column uses tab stops while the lexer's and the parse errors' count four per tab"),

 dict(id='C04-last-fence', property='C04',
  edits=[('gen/golang/lexer/lexer.go', '''		if i <= len(input)-3 && input[i]''', '''		if i < len(input)-3 && input[i]''')],
  grammar=g("id : < letter > ;", "S : id id ;"),
  main='''package main

import (
	"fmt"
	"io/ioutil"
	"os"

	"demo/lexer"
)

func main() {
	f := os.TempDir() + fmt.Sprintf("/demo%d.md", os.Getpid())
	defer os.Remove(f)
	for _, end := range []string{"\\n", ""} {
		ioutil.WriteFile(f, []byte("text\\n```\\na b\\n```"+end), 0644)
		l := lexer.NewFile(f)
		if len(l.Tokens) != 3 {
			fmt.Println(l.Tokens)
			os.Remove(f)
			os.Exit(1)
		}
	}
}
''',
  needs='a markdown file whose last three characters are the closing fence',
  breaks='a fence at the very end of the file is taken for code'),

 dict(id='C06-follow-one', property='C06',
  edits=[('frstflw/frstflw.go', '''				first := ff.FirstOfString(bs[idx+1:])
''', '''				next := bs[idx+1:]
				if len(next) > 2 {
					next = next[:2]
				}
				first := ff.FirstOfString(next)
''')],
  grammar=g('S : A B C "d" ;', 'A : "a" ;', 'B : "b" | empty ;', 'C : "c" | empty ;'),
  main=GLLMAIN % '''	for in, want := range map[string]bool{"a b c d": true, "a c d": true, "a b d": true, "a d": true, "a": false} {
		check(parses(in) == want, "%q", in)
	}
''',
  needs='a nonterminal followed by two nullable symbols and a third one, and input in which both are empty',
  breaks='Follow misses what can follow after two or more empty symbols, so that generated parsers reject sentences'),

 dict(id='C07-call-empty', property='C07',
  edits=[('gen/golang/gll/parser.go', '''				if pnd.X == X && pnd.k == j {
''', '''				if pnd.X == X && pnd.k == j && pnd.j > j {
''')],
  grammar=g('S : A A "b" | A "c" ;', 'A : "a" | empty ;'),
  main=GLLMAIN % '''	for in, want := range map[string]bool{"b": true, "a b": true, "a a b": true, "a c": true, "c": true, "a a c": false} {
		check(parses(in) == want, "%q", in)
	}
''',
  needs='a nonterminal called a second time at a position where it has already returned the empty string',
  breaks='the empty derivation of a nonterminal is not passed on to later callers at the same position'),

 dict(id='C08-empty-prefix', property='C08',
  edits=[('gen/golang/gll/bsr/bsr.go', '''        if l.Pos() > 1 {
            s.insert(''', '''        if l.Pos() > 1 && j > i {
            s.insert(''')],
  grammar=g('S : A B C ;', 'A : "a" | empty ;', 'B : "b" | empty ;', 'C : "c" ;'),
  main=GLLMAIN % '''	for _, in := range []string{"a b c", "b c", "a c", "c"} {
		set, errs := parser.Parse(lexer.New([]rune(in)))
		check(errs == nil, "%v", errs)
		rt, at := set.GetRoot(), 0
		for i := 0; i < 3; i++ {
			c := rt.GetNTChildI(i)
			check(c.LeftExtent() == at, "%q: child %d is %s", in, i, c)
			at = c.RightExtent()
		}
	}
''',
  needs='an alternate of three symbols or more of which the first two derive the empty string',
  breaks='the children of such a node cannot be looked up'),

 dict(id='C09-first-child', property='C09',
  edits=[('gen/golang/gll/bsr/bsr.go', '''            for _, b1 := range b.GetNTChildrenI(i) {
                if isAmbiguous(b1) {
                    return true
                }
            }
''', '''            return isAmbiguous(b.GetNTChildI(i))
''')],
  grammar=g('S : A B ;', 'A : "a" ;', 'B : B B | "b" ;'),
  main=GLLMAIN % '''	for in, want := range map[string]bool{"a b": false, "a b b": false, "a b b b": true} {
		set, errs := parser.Parse(lexer.New([]rune(in)))
		check(errs == nil, "%v", errs)
		check(set.IsAmbiguous() == want, "%q: %t", in, set.IsAmbiguous())
	}
''',
  needs='an ambiguity below a nonterminal that is not the first of its alternate',
  breaks='IsAmbiguous only follows the first nonterminal child of every node'),

 dict(id='C10-sort-line', property='C10',
  edits=[('gen/golang/gll/parser.go', '''	sort.Slice(p.parseErrors,
		func(i, j int) bool {
			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
		})
	for _, pe := range p.parseErrors {
		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
	}
''', '''	for _, pe := range p.parseErrors {
		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
	}
	sort.Slice(p.parseErrors,
		func(i, j int) bool {
			return p.parseErrors[j].Line < p.parseErrors[i].Line
		})
''')],
  grammar=g('S : "a" "b" "c" | "a" "d" "e" | "f" ;'),
  main=GLLMAIN % '''	for in, want := range map[string]string{"a b x": "x", "a d y": "y", "a z": "z", "q": "q", "a": "", "a\\nd d": "d"} {
		set, errs := parser.Parse(lexer.New([]rune(in)))
		check(set == nil && len(errs) > 0, "%q", in)
		check(errs[0].Token.LiteralString() == want, "%q: %s", in, errs[0])
		for i := 1; i < len(errs); i++ {
			check(errs[i].Token.Lext() <= errs[i-1].Token.Lext(), "%q: %v", in, errs)
		}
	}
''',
  needs='errors at two different tokens of one line',
  breaks='errors are not ordered by input position'),

 dict(id='C11-pn-pivot', property='C11',
  edits=[('gen/golang/gll/sppf/sppf.go', '''	return fmt.Sprintf("\\"%s,%d,%d,%d\\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)
''', '''	return fmt.Sprintf("\\"%s,%d,%d\\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext)
''')],
  grammar=g('S : E ;', 'E : E E | "a" ;'),
  main=GLLMAIN % '''	set, errs := parser.Parse(lexer.New([]rune("a a a a")))
	check(errs == nil, "%v", errs)
	n := 0
	for _, pn := range set.ToSPPF().Children[0].RightChild.Children {
		check(pn.Lext == 0 && pn.Rext == 4, "%s", pn)
		n++
		for m, pn1 := range set.ToSPPF().Children[0].RightChild.Children {
			check(m == n-1 || pn1.Pivot != pn.Pivot, "%s twice", pn)
		}
	}
	check(n == 3, "%d packed nodes", n)
''',
  needs='an ambiguous parse in which one alternate derives the same tokens with two pivots',
  breaks='the packed nodes of derivations that differ only in the pivot are merged, so that all but one are lost'),

 dict(id='C12-context-equal', property='C12', flags='-knuth',
  edits=[('lr1/states/contextset.go', '''	if len(this.List) != len(that.List) {
		return false
	}
	for sym := range this.Contain {
		if !that.Contain[sym] {
			return false
		}
	}
	return true
''', '''	return len(this.List) == len(that.List)
''')],
  grammar=g('S : "a" A "d" | "b" B "d" | "a" B "e" | "b" A "e" ;', 'A : "c" ;', 'B : "c" ;'),
  main=lrmain([('a c d', 1), ('b c d', 1), ('a c e', 1), ('b c e', 1), ('a c', 0), ('a d', 0)]),
  needs='the Knuth construction and a grammar that is LR(1) but not LALR(1)',
  breaks='states whose contexts have equally many symbols are merged, which gives conflicts where there are none (or tables with wrong reductions)'),

 dict(id='C13-rr-order', property='C13', flags='-knuth -resolve_conflicts',
  edits=[('lr1/action/action.go', '''		if this < that {
			return this
		}
		return that
''', '''		// this is met first, since it is listed first
		return this
''')],
  grammar=g('S : "a" Q | "a" P "b" | "a" P ;', 'P : "p" ;', 'Q : "p" ;'),
  body=LRGEN + '''go run . > run.txt || exit 1
grep -q 'ast.P0 ' run.txt && ! grep -q 'ast.Q0 ' run.txt || { cat run.txt; exit 1; }
''' , main=lrmain([('ap', 1)]),
  needs='a reduce/reduce conflict in which the later production enters the state first, and automatic resolution',
  breaks='the production that enters the state first wins instead of the one that comes first in the grammar'),

 dict(id='C14-unit', property='C14', flags='-knuth',
  edits=[('gen/golang/lr1/parser/parser.go', '''			attrib, err := prod.ReduceFunc(p.stack.popN(prod.NumSymbols))
''', '''			attrib, err := reduceProd(prod, p.stack.popN(prod.NumSymbols))
'''), ('gen/golang/lr1/parser/parser.go', '''func (p *Parser) next() {
''', '''// reduceProd passes the attribute of a single nonterminal on
func reduceProd(prod ProdTabEntry, X []interface{}) (interface{}, error) {
	if len(X) == 1 && X[0] != nil {
		if _, isToken := X[0].(*token.Token); !isToken {
			return X[0], nil
		}
	}
	return prod.ReduceFunc(X)
}

func (p *Parser) next() {
''')],
  grammar=g('S : A ;', 'A : "a" B ;', 'B : "b" | "b" B ;'),
  body=LRGEN + '''cat > ast/ast.go <<'X'
package ast

import "fmt"

func G00(a interface{}) (interface{}, error)    { return fmt.Sprintf("G0(%v)", a), nil }
func S0(a interface{}) (interface{}, error)    { return fmt.Sprintf("S0(%v)", a), nil }
func A0(a, b interface{}) (interface{}, error) { return fmt.Sprintf("A0(%v)", b), nil }
func B0(a interface{}) (interface{}, error)    { return "B0", nil }
func B1(a, b interface{}) (interface{}, error) { return fmt.Sprintf("B1(%v)", b), nil }
X
timeout 120 go run .
''',
  main='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
)

func main() {
	res, err := parser.New(lexer.New([]rune("a b b"))).Parse()
	if err != nil || fmt.Sprint(res) != "S0(A0(B1(B0)))" {
		fmt.Println(res, err)
		os.Exit(1)
	}
}
''',
  needs='a production whose body is one nonterminal',
  breaks='the constructors of such productions are not called'),

 dict(id='C15-upcase', property='C15',
  edits=[('lex/items/event/event.go', '''				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
''', '''				(b1.Type == ast.Letter && a1.Type < ast.Number && a1.Type%2 == 0))
''')],
  grammar=g("cap : upcase '1' ;", "low : lowcase '3' ;", "id : letter '2' ;", "S : id | cap | low ;"),
  main=lexmain([('"A1"', '"cap(0,2) $(2,2) "'), ('"A2"', '"id(0,2) $(2,2) "'), ('"a2"', '"id(0,2) $(2,2) "'), ('"a3"', '"low(0,2) $(2,2) "')]),
  needs='rules that allow upcase and letter at the same place',
  breaks='upcase is not taken for a subset of letter, so that a rule that starts with letter is lost after an upper case letter'),

 dict(id='C16-same-alternate', property='C16',
  edits=[('ast/build.go', '''		alts = append(alts, bld.syntaxAlternates(b.GetNTChild(symbols.NT_SyntaxAlternates, 0))...)
''', '''		for _, alt := range bld.syntaxAlternates(b.GetNTChild(symbols.NT_SyntaxAlternates, 0)) {
			// an alternate that is written twice adds nothing
			if alternateKey(alt) != alternateKey(alts[0]) {
				alts = append(alts, alt)
			}
		}
'''), ('ast/build.go', '''// SyntaxRule : nt ":" SyntaxAlternates ";"  ;
''', '''func alternateKey(a *SyntaxAlternate) (key string) {
	for _, s := range a.GetSymbols() {
		key += s
	}
	return
}

// SyntaxRule : nt ":" SyntaxAlternates ";"  ;
''')],
  grammar=g('S : "a" "bc" | "ab" "c" ;'),
  main=MAINGLL('{"a bc", true}, {"ab c", true}, {"a c", false}'),
  needs='two alternates of a rule whose symbols run together to the same text',
  breaks='the second of them is dropped'),

 dict(id='C17-unreachable', property='C17',
  edits=[('sc/sc.go', """	for _, r := range g.SyntaxRules {
		for _, alt := range r.Alternates {
			for _, sym := range alt.Symbols {
""", """	used := make(map[string]bool)
	for i, r := range g.SyntaxRules {
		if i == 0 {
			used[r.ID()] = true
		}
		for _, alt := range r.Alternates {
			for _, sym := range alt.Symbols {
				if !used[r.ID()] {
					break // of a rule that is never used
				}
				if nt, ok := sym.(*ast.NT); ok {
					used[nt.ID()] = true
				}
""")],
  grammar=g('T : S A ;', 'A : B "a" ;', 'C : Missing "c" ;', 'S : "x" | C ;', 'B : C ;'),
  body='''timeout 60 "$w/gogll" -o . g.md > out.txt 2>&1 && { echo "accepted"; exit 1; }
grep -q 'Error at line.*Missing' out.txt || { cat out.txt; exit 1; }
test ! -e lexer
''',
  needs='a rule that is used only by rules that come after it',
  breaks='the symbols of such a rule are not checked'),

 dict(id='C18-first-letter', property='C18',
  edits=[('gen/golang/gll/testselect.go', '''		func(i, j int) bool { return firstSymbols[i] < firstSymbols[j] })

	for''', '''		func(i, j int) bool { return firstSymbols[i][0] < firstSymbols[j][0] })

	for''')],
  grammar=g('S : A "c" ;', 'A : "aa" | "ab" A | "ac" | "b" ;'),
  body='''for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  mkdir o; timeout 60 "$w/gogll" -o o g.md > out.txt 2>&1 || exit 1
  md5sum < o/parser/parser.go; rm -r "$w/m/o"
done | sort -u > sums.txt
test $(wc -l < sums.txt) = 1
''',
  needs='two terminals with the same first character in one First set',
  breaks='the generated parser differs from run to run'),

 dict(id='C05-backslash-n', property='C05',
  edits=[('gen/golang/token/token.go', """			default:
				strip = append(strip, lit[i])
			}""", r"""			default:
				strip = append(strip, lit[i])
				if lit[i] == '\\' {
					i--
				}
			}""")],
  grammar=g(r"""str : '"' {not "\\\"" | '\\' .} '"' ;""", 'S : str ;'),
  main=r"""package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for in, want := range map[string]string{`"a\tb"`: "\"a\tb\"", `"a\"b"`: `"a"b"`, `"a\\b"`: `"a\b"`, `"a\\nb"`: `"a\nb"`, `"\\\\"`: `"\\"`} {
		if got := lexer.New([]rune(in)).Tokens[0].LiteralStringStripEscape(); got != want {
			fmt.Printf("%s: %q, not %q\n", in, got, want)
			os.Exit(1)
		}
	}
}
""",
  needs='an escaped backslash that is followed by n, r, t or another escape',
  breaks='the second half of the escaped backslash is taken for the start of an escape'),

 dict(id='C20-ten', property='C20',
  edits=[('symbols/symbols.go', """	return tToTypeString
}""", """	types := append([]string{}, tToTypeString...)
	sort.Strings(types[StartOfTokens:])
	return types
}"""), ('symbols/symbols.go', """import (
	"fmt"
""", """import (
	"fmt"
	"sort"
""")],
  grammar=g('S : "a" | "b" | "c" | "d" | "e" | "f" | "g" | "h" | "i" | "j" | "k" | "l" ;'),
  main="""package main

import (
	"os"

	"demo/token"
)

func main() {
	for _, t := range token.IDToType {
		if token.StringToType[t.String()] != t {
			println("type", t.ID(), "is called", t.String())
			os.Exit(1)
		}
	}
}
""",
  needs='more than ten terminals',
  breaks='the names of types do not belong to the types'),
 dict(id='C22-shift-only', property='C22', flags='-knuth',
  edits=[('gen/golang/lr1/parser/parser.go', """		if action != nil {
			errorAttrib.ExpectedTokens = append(""", """		if _, canShift := action.(shift); canShift {
			errorAttrib.ExpectedTokens = append(""")],
  grammar=g('S : E ";" ;', 'E : "i" | E "+" "i" ;'),
  main="""package main

import (
	"fmt"
	"os"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	_, err := parser.New(lexer.New([]rune("i i"))).Parse()
	if err == nil || !strings.Contains(err.Error(), "+") || !strings.Contains(err.Error(), ";") {
		fmt.Println(err)
		os.Exit(1)
	}
}
""",
  needs='an error in a state that reduces',
  breaks='the error does not name the terminals on which the state reduces'),

 dict(id='C23-shared-stack', property='C23', flags='-knuth',
  edits=[('gen/golang/lr1/parser/parser.go', """func newStack() *stack {
	return &stack{ 	state: 	make([]int, 0, iNITIAL_STACK_SIZE),
					attrib: make([]interface{}, 0, iNITIAL_STACK_SIZE),
			}
}
""", """// theStack is kept, so that its memory is used again
var theStack = &stack{ 	state: 	make([]int, 0, iNITIAL_STACK_SIZE),
					attrib: make([]interface{}, 0, iNITIAL_STACK_SIZE),
			}

func newStack() *stack {
	theStack.reset()
	return theStack
}
""")],
  grammar=g('S : "a" X "b" ;', 'X : "i" ;'),
  body="""mkdir ast; cp "$here"/ast.go ast/
timeout 60 "$w/gogll" -o . -knuth g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
cp "$here"/main.go .
timeout 120 go run .
""",
  files={'ast.go': """package ast

var Hook = func() {}

func G00(p0 interface{}) (interface{}, error) { return p0, nil }
func S0(p0, p1, p2 interface{}) (interface{}, error) { return p1, nil }
func X0(p0 interface{}) (interface{}, error) { Hook(); return "x", nil }
"""},
  main="""package main

import (
	"fmt"
	"os"

	"demo/ast"
	"demo/lexer"
	"demo/parser"
)

func main() {
	// a constructor parses a text of its own, once
	ast.Hook = func() {
		ast.Hook = func() {}
		if _, err := parser.New(lexer.New([]rune("a i b"))).Parse(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	if r, err := parser.New(lexer.New([]rune("a i b"))).Parse(); err != nil || r != "x" {
		fmt.Println(r, err)
		os.Exit(1)
	}
}
""",
  needs='two parsers in use at the same time',
  breaks='they share one stack'),

 dict(id='C23-merge-expected', property='C23',
  edits=[('gen/golang/gll/parser.go', """	pe := &Error{cI: i, Slot: slot, Token: p.lex.Tokens[i], Expected: expected}
""", """	for _, pe := range p.parseErrors {
		// One error for the end of a rule in several contexts
		if pe.cI == i && pe.Slot == slot {
			for t, name := range expected {
				pe.Expected[t] = name
			}
			return
		}
	}
	pe := &Error{cI: i, Slot: slot, Token: p.lex.Tokens[i], Expected: expected}
""")],
  grammar=g('S : S "+" S | "i" ;'),
  body="""timeout 60 "$w/gogll" -o . g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
cp "$here"/main.go .
CGO_ENABLED=1 timeout 200 go run -race .
""",
  main="""package main

import (
	"fmt"
	"os"
	"sync"

	"demo/lexer"
	"demo/parser"
)

func main() {
	var w sync.WaitGroup
	for i := 0; i < 16; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for k := 0; k < 50; k++ {
				if _, errs := parser.Parse(lexer.New([]rune("i + i + x"))); len(errs) == 0 {
					fmt.Println("accepted")
					os.Exit(1)
				}
			}
		}()
	}
	w.Wait()
}
""",
  needs='two failing parses at the same time, of an ambiguous prefix',
  breaks='they write to one map of expected tokens'),
 dict(id='C24-ast-cwd', property='C24',
  edits=[('gen/golang/lr1/ast/ast.go', """	fname := filepath.Join(cfg.BaseDir, "ast", "ast.go")
	if ioutil.Exist(fname) && !*cfg.All {
		// Do not regenerate
		return
	}
""", """	dir := "ast"
	if ioutil.Exist(filepath.Join(dir, "ast.go")) && !*cfg.All {
		// Do not regenerate
		return
	}
	fname := filepath.Join(cfg.BaseDir, dir, "ast.go")
""")],
  grammar=g('S : "a" S | "b" ;'),
  body="""mkdir -p out/ast
echo "package ast // edited by its user" > out/ast/ast.go
timeout 60 "$w/gogll" -o out -knuth g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
grep -q "edited by its user" out/ast/ast.go || { echo "the ast of the user is overwritten"; exit 1; }
""",
  needs='an LR(1) parser generated with -o into a directory that has an edited ast',
  breaks="the user's ast is overwritten, without -a"),

 dict(id='C24-report-empty', property='C24',
  edits=[('gen/firstfollow/firstfollow.go', """	fmt.Fprintf(w, "%s: ", symbol)
""", """	if fs := ff.FirstOfSymbol(symbol); fs.Contain(frstflw.Empty) {
		fs.Remove(frstflw.Empty)
		fmt.Fprintf(w, "%s (nullable): ", symbol)
	} else {
		fmt.Fprintf(w, "%s: ", symbol)
	}
""")],
  grammar=g('S : A "b" ;', 'A : "a" | empty ;'),
  flags='-v',
  main="""package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{"a b", "b"} {
		if _, errs := parser.Parse(lexer.New([]rune(in))); len(errs) > 0 {
			fmt.Println("rejected:", in, errs[0])
			os.Exit(1)
		}
	}
}
""",
  needs='a nullable rule before other symbols, and -v',
  breaks='writing the report takes the empty string out of the first sets that the parser is generated from'),
 dict(id='C25-underscore', property='C25',
  edits=[('gslot/gslot.go', """	return fmt.Sprintf("%s%dR%d", s.Head, s.Alternate, s.Pos)
""", """	// Go names have no underscores
	return fmt.Sprintf("%s%dR%d", strings.ReplaceAll(s.Head, "_", ""), s.Alternate, s.Pos)
"""), ('gslot/gslot.go', """	"sort"

	"github.com/goccmack/gogll/v3/ast"
""", """	"sort"
	"strings"

	"github.com/goccmack/gogll/v3/ast"
""")],
  grammar=g('S : A_B "x" | AB ;', 'A_B : "a" ;', 'AB : "b" ;'),
  main=MAINGLL(r'{"a x", true}, {"b", true}, {"b x", false}'),
  needs='two nonterminals whose names differ in underscores only',
  breaks='their slots have one name, the parser does not compile'),

 dict(id='C25-params', property='C25',
  edits=[('gen/golang/lr1/ast/ast.go', """				ID:   fmt.Sprintf("symbol_%d", i),
""", """				ID:   "p" + string(rune('0'+i)),
"""), ('gen/golang/lr1/ast/ast.go', """p{{$i}}{{end}}""", """{{$p.ID}}{{end}}"""), ('gen/golang/lr1/ast/ast.go', """				ID:   strcase.ToLowerCamel(sym.String()),
""", """				ID:   fmt.Sprintf("%s_%d", strcase.ToLowerCamel(sym.String()), i%10),
""")],
  grammar=g('S : "a" "b" "c" "d" "e" "f" "g" "h" "i" "j" "k" ;'),
  flags='-knuth',
  body="""timeout 60 "$w/gogll" -o . -knuth g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
go vet ./ast
""",
  needs='an alternate of more than ten symbols',
  breaks='the name of the eleventh parameter of its constructor is no identifier, the ast does not compile'),
]
SEEDS = [s for s in SEEDS if s['edits'] and s['needs']]
