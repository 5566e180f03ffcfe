import gllg
import lrg

BODY = '''
// spaced is an input whose line breaks and tabs move the tokens about.
var spaced = []rune("a b\\tc\\nd\\t\\te f\\n\\n\\tg h i")
var places = []int{0, 2, 4, 6, 9, 11, 15, 17, 19}

func Run() {
	n := length()
	l := &lexer.Lexer{I: spaced[:places[n]]}
	for i := 0; i < n; i++ {
		t := sym.Int("t", int(token.Error), len(token.TypeToID)-1)
		sym.Assume(sym.Not(sym.EqInt(t, int(token.EOF))))
		l.Tokens = append(l.Tokens, token.New(token.Type(t), places[i], places[i]+1, l.I))
	}
	l.Tokens = append(l.Tokens, token.New(token.EOF, places[n], places[n], l.I))
	ast.Log, ast.Fail = nil, -1
	p := parser.New(l)
	res, err := p.Parse()
	if err == nil {
		sym.Reach("accept")
		sym.Assert(ref.NewDeriv(G, n, is(l)).In(0, 0, n), "only a sentence of @NAME@ is parsed without error")
		return
	}
	sym.Reach("reject")
	sym.Assert(res == nil, "a parse that fails has no result")
	msg := err.Error()
	sym.TraceInt("length", len(msg))
	// the token that the message names
	at := -1
	for i, t := range l.Tokens {
		line, col := ref.LineCol(l.I, t.Lext())
		if strings.Contains(msg, fmt.Sprintf("line %d col %d ", line, col)) {
			sym.Assert(at < 0, "the message gives one position")
			at = i
		}
	}
	sym.Assert(at >= 0, "the message gives the line and column of a token")
	tok := l.Tokens[at]
	// what comes after it does not count
	seen := &lexer.Lexer{I: l.I, Tokens: append([]*token.Token(nil), l.Tokens[:at+1]...)}
	was := fixed(seen)
	sym.Assert(strings.Contains(msg, tok.String()), "the message shows the token at its position")
	sym.Assert(ref.NewDeriv(G, at, was).Viable(0), "everything before the token of the error begins a sentence of @NAME@")
	if at < n {
		sym.Assert(sym.Not(ref.NewDeriv(G, at+1, was).Viable(0)), "no sentence of @NAME@ goes on with the token of the error")
		sym.Reach("inside")
	} else {
		sym.Assert(sym.Not(ref.NewDeriv(G, n, was).In(0, 0, n)), "the error is at the end of the input only if that is not a sentence of @NAME@")
		sym.Reach("at the end")
	}
	// what it says could have come
	_, list, found := strings.Cut(msg, "expected one of: ")
	sym.Assert(found, "the message says what was expected")
	listed := map[string]bool{}
	for _, s := range strings.Fields(list) {
		sym.Assert(!listed[s], "each expected terminal is named once")
		listed[s] = true
	}
	sym.Assert(len(listed) > 0, "the message names something that was expected")
	sym.Assert(!listed[tok.TypeID()], "the token of the error is not one of those expected")
	known := 0
	for k, name := range append([]string{token.EOF.ID()}, G.Terms...) {
		if listed[name] {
			known++
		}
		if @KNUTH@ {
			could := false
			if k == 0 {
				could = ref.NewDeriv(G, at, was).In(0, 0, at)
			} else {
				could = ref.NewDeriv(G, at+1, func(t, i int) bool {
					if i == at {
						return t == k-1
					}
					return was(t, i)
				}).Viable(0)
			}
			sym.Assert(sym.EqBool(listed[name], could), "the message names exactly the terminals with which a sentence of @NAME@ could have gone on")
		}
	}
	sym.Assert(known == len(listed), "what was expected are terminals of @NAME@")
	_, e := p.Error(nil)
	sym.Assert(e != nil && e.ErrorToken == tok, "the parser's error holds that token")
	line, col := ref.LineCol(l.I, tok.Lext())
	sym.Assert(strings.Contains(e.String(), fmt.Sprintf("type=%d, lit=%s\\n", int(tok.Type()), tok.LiteralString())), "its text has the token's type and characters")
	sym.Assert(strings.Contains(e.String(), fmt.Sprintf("offset=%d, line=%d, column=%d\\n", tok.Lext(), line, col)), "its text has the token's place")
}

// Fails lets one of the constructors fail.
func Fails() {
	n := sym.Pick(sym.Int("n", 0, maxLen-1))
	l := word(n)
	ast.Log, ast.Failed, ast.Fail = nil, false, sym.Int("fail", 0, maxLen+2)
	res, err := parser.New(l).Parse()
	if len(ast.Log) == 0 || !ast.Failed {
		return
	}
	sym.Reach("a constructor fails")
	sym.Assert(err != nil && res == nil, "a constructor's error ends the parse without a result")
	sym.Assert(strings.Contains(err.Error(), "no such number"), "the error of the parse says what the constructor's error says")
	sym.Assert(sym.EqInt(len(ast.Log), ast.Fail+1), "no constructor is called after one has failed")
}
'''

ERR = {
    # a terminal with the name that the parser's error recovery uses
    "err": '''
S : T ";" | S T ";" ;
T : "x" | "(" T ")" | "error" ;
''',
    "err2": '''
S : "a" S "b" | U ;
U : "error" "c" | "d" ;
''',
}


def ast_go(g):
    s = lrg.ast_go(g)
    s = s.replace("package ast\n", 'package ast\n\nimport "errors"\n\n// Fail is the number of the call that fails.\nvar Fail = -1\n\nvar Failed bool\n', 1)
    return s.replace("\tLog = append(Log, n)\n\treturn n, nil", '\tLog = append(Log, n)\n\tif len(Log) == Fail+1 {\n\t\tFailed = true\n\t\treturn n, errors.New("no such number")\n\t}\n\treturn n, nil')


def build(c):
    import gram
    n = 7 if c.thorough else 5
    gs = dict(lrg.GRAMMARS)
    gs.update(ERR)
    for i in range(60 if c.thorough else 12):
        gs["rnd%d" % i] = lrg.rand_lr(500 + i)
    for name, text in gs.items():
        for flag in ("knuth", "pager"):
            nm = name + "_" + flag
            c.write("vh/g/%s/ast" % nm, "ast.go", ast_go(gram.parse('package "x"\n' + text)))
            g = c.gen(nm, text, ["-" + flag])
            if not g:
                continue
            src = gllg.harness(g, n, BODY.replace("@KNUTH@", "true" if flag == "knuth" else "false"), ["ast"])
            c.write("vh/h/" + nm, "h.go", src.replace("import (\n", 'import (\n\t"fmt"\n\t"strings"\n\n', 1))
            c.job(nm, "vh/h/" + nm, setup="Setup", need=["reject"], steps=6000000)
            c.job(nm + "/fails", "vh/h/" + nm, run="Fails", setup="Setup", steps=3000000)
        c.bounds.append("grammar %s, Knuth's and Pager's construction: every sequence of up to %d tokens, each of any type; and the same with the first, second, ... or no constructor call failing" % (name, n))
    c.outside += ["longer inputs and other grammars", "the order in which the expected terminals are listed, and the wording of the message beyond the position, the token and that list"]
