package symfmt

// A reading of the part of text/template that gogll uses, so that the executor
// can run the generators on symbolic data.

func hasField(a interface{}, name string) bool     { return false }
func field(a interface{}, name string) interface{} { return nil }
func method(a interface{}, name string) int        { return 0 }
func callString(a interface{}, name string) string { return "" }
func callBool(a interface{}, name string) bool     { return false }
func callInt(a interface{}, name string) int       { return 0 }
func fail(msg string)                              {}
func rawBytes(s string) []byte                     { return []byte(s) }

// Template stands for text/template's Template.
type Template struct {
	src string
	top []*node
}

type node struct {
	kind string // text, out, range, if, with, set
	text string
	vars []string
	expr []string
	body []*node
	els  []*node
}

func TmplNew(name string) *Template { return &Template{} }

func TmplMust(t *Template, err error) *Template { return t }

func TmplParse(t *Template, src string) (*Template, error) {
	p := &tparser{src: src}
	t.top = p.list()
	if p.end != "" {
		fail("template: unexpected " + p.end)
	}
	return t, nil
}

type tparser struct {
	src  string
	at   int
	end  string // end or else, if a list ended there
	rest []string
	trim bool
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *tparser) list() (ns []*node) {
	for {
		i := p.at
		for i+1 < len(p.src) && !(p.src[i] == '{' && p.src[i+1] == '{') {
			i++
		}
		if i+1 >= len(p.src) {
			i = len(p.src)
		}
		text := p.src[p.at:i]
		if p.trim {
			for len(text) > 0 && isSpace(text[0]) {
				text = text[1:]
			}
			p.trim = false
		}
		if i == len(p.src) {
			p.at = i
			if text != "" {
				ns = append(ns, &node{kind: "text", text: text})
			}
			p.end = ""
			return
		}
		i += 2
		if i+1 < len(p.src) && p.src[i] == '-' && isSpace(p.src[i+1]) {
			i++
			for len(text) > 0 && isSpace(text[len(text)-1]) {
				text = text[:len(text)-1]
			}
		}
		if text != "" {
			ns = append(ns, &node{kind: "text", text: text})
		}
		j := i
		for !(p.src[j] == '}' && p.src[j+1] == '}') {
			j++
		}
		act := p.src[i:j]
		p.at = j + 2
		if n := len(act); n > 1 && act[n-1] == '-' && isSpace(act[n-2]) {
			act = act[:n-1]
			p.trim = true
		}
		ws := words(act)
		if len(ws) == 0 {
			continue
		}
		if len(ws[0]) > 1 && ws[0][:2] == "/*" {
			continue
		}
		switch ws[0] {
		case "end", "else":
			p.end, p.rest = ws[0], ws[1:]
			return
		case "range", "if", "with":
			ns = append(ns, p.block(ws))
		case "template", "block", "define", "break", "continue":
			fail("template: " + ws[0])
		default:
			vars, expr := split(ws)
			if vars != nil {
				ns = append(ns, &node{kind: "set", vars: vars, expr: expr})
			} else {
				ns = append(ns, &node{kind: "out", expr: expr})
			}
		}
	}
}

func (p *tparser) block(ws []string) *node {
	n := &node{kind: ws[0]}
	n.vars, n.expr = split(ws[1:])
	n.body = p.list()
	if p.end == "else" {
		if len(p.rest) > 0 {
			n.els = []*node{p.block(p.rest)}
			return n
		}
		n.els = p.list()
	}
	if p.end != "end" {
		fail("template: no end")
	}
	return n
}

// split separates "$i, $x :=" from the expression.
func split(ws []string) (vars, expr []string) {
	for i, w := range ws {
		if w == ":=" || w == "=" {
			for _, v := range ws[:i] {
				if v != "," {
					vars = append(vars, v)
				}
			}
			return vars, ws[i+1:]
		}
	}
	return nil, ws
}

func words(s string) (ws []string) {
	i := 0
	for i < len(s) {
		switch {
		case isSpace(s[i]):
			i++
		case s[i] == ',' || s[i] == '(' || s[i] == ')' || s[i] == '|':
			ws = append(ws, s[i:i+1])
			i++
		case s[i] == '"' || s[i] == '`':
			j := i + 1
			for s[j] != s[i] {
				if s[j] == '\\' && s[i] == '"' {
					j++
				}
				j++
			}
			ws = append(ws, s[i:j+1])
			i = j + 1
		case len(s) > i+1 && s[i] == ':' && s[i+1] == '=':
			ws = append(ws, ":=")
			i += 2
		default:
			j := i
			for j < len(s) && !isSpace(s[j]) && s[j] != ',' && s[j] != '(' && s[j] != ')' && s[j] != '|' && s[j] != ':' {
				j++
			}
			if j == i {
				fail("template: " + s)
			}
			ws = append(ws, s[i:j])
			i = j
		}
	}
	return
}

type binding struct {
	name string
	val  interface{}
}

type env struct {
	out  string
	vars []binding
}

func TmplExecute(t *Template, w writer, data interface{}) error {
	e := &env{vars: []binding{{"$", data}}}
	e.run(t.top, data)
	w.Write([]byte(e.out))
	return nil
}

func (e *env) run(ns []*node, dot interface{}) {
	mark := len(e.vars)
	for _, n := range ns {
		switch n.kind {
		case "text":
			e.out += n.text
		case "out":
			e.out += plain(e.eval(n.expr, dot), 'v', 0, 0)
		case "set":
			e.vars = append(e.vars, binding{n.vars[0], e.eval(n.expr, dot)})
		case "if", "with":
			v := e.eval(n.expr, dot)
			m := len(e.vars)
			if len(n.vars) > 0 {
				e.vars = append(e.vars, binding{n.vars[0], v})
			}
			if truth(v) {
				if n.kind == "with" {
					e.run(n.body, v)
				} else {
					e.run(n.body, dot)
				}
			} else {
				e.run(n.els, dot)
			}
			e.vars = e.vars[:m]
		case "range":
			v := e.eval(n.expr, dot)
			if kindOf(v) == kPtr {
				v = deref(v)
			}
			if k := kindOf(v); k != kSlice && k != kArray {
				fail("template: range over " + typeName(v))
			}
			l := sliceLen(v)
			for i := 0; i < l; i++ {
				x := elem(v, i)
				m := len(e.vars)
				switch len(n.vars) {
				case 1:
					e.vars = append(e.vars, binding{n.vars[0], x})
				case 2:
					e.vars = append(e.vars, binding{n.vars[0], i}, binding{n.vars[1], x})
				}
				e.run(n.body, x)
				e.vars = e.vars[:m]
			}
			if l == 0 {
				e.run(n.els, dot)
			}
		}
	}
	e.vars = e.vars[:mark]
}

func truth(v interface{}) bool {
	switch k := kindOf(v); k {
	case -1:
		return false
	case kBool:
		return boolOf(v)
	case kInt, kSigned:
		return intOf(v) != 0
	case kString:
		return len(strOf(v)) > 0
	case kSlice:
		return sliceLen(v) > 0
	case kMap:
		return mapLen(v) > 0
	case kPtr, kFunc:
		return !isNil(v)
	}
	return true
}

func (e *env) eval(ws []string, dot interface{}) interface{} {
	v, rest := e.cmd(ws, dot)
	if len(rest) > 0 {
		fail("template: unsupported pipeline")
	}
	return v
}

func (e *env) cmd(ws []string, dot interface{}) (interface{}, []string) {
	if len(ws) == 0 {
		fail("template: no value")
		return nil, nil
	}
	f := ws[0]
	switch f {
	case "not", "eq", "ne", "lt", "gt", "len", "printf", "print", "index", "and", "or":
		var args []interface{}
		ws = ws[1:]
		for len(ws) > 0 && ws[0] != ")" && ws[0] != "|" {
			var a interface{}
			a, ws = e.operand(ws, dot)
			args = append(args, a)
		}
		return apply(f, args), ws
	}
	return e.operand(ws, dot)
}

func (e *env) operand(ws []string, dot interface{}) (interface{}, []string) {
	w := ws[0]
	ws = ws[1:]
	switch {
	case w == "(":
		v, rest := e.cmd(ws, dot)
		if len(rest) == 0 || rest[0] != ")" {
			fail("template: no )")
			return nil, nil
		}
		return v, rest[1:]
	case w == ".":
		return dot, ws
	case w == "true":
		return true, ws
	case w == "false":
		return false, ws
	case w[0] == '.':
		return path(dot, w), ws
	case w[0] == '$':
		i := 1
		for i < len(w) && w[i] != '.' {
			i++
		}
		for j := len(e.vars) - 1; j >= 0; j-- {
			if e.vars[j].name == w[:i] {
				return path(e.vars[j].val, w[i:]), ws
			}
		}
		fail("template: undefined " + w)
	case w[0] >= '0' && w[0] <= '9':
		n := 0
		for i := 0; i < len(w); i++ {
			n = 10*n + int(w[i]-'0')
		}
		return n, ws
	case w[0] == '"' || w[0] == '`':
		return w[1 : len(w)-1], ws
	}
	fail("template: unsupported " + w)
	return nil, nil
}

// path follows ".A.B" from v.
func path(v interface{}, p string) interface{} {
	for len(p) > 0 {
		i := 1
		for i < len(p) && p[i] != '.' {
			i++
		}
		name := p[1:i]
		p = p[i:]
		switch method(v, name) {
		case 1:
			v = callString(v, name)
			continue
		case 2:
			v = callBool(v, name)
			continue
		case 3:
			v = callInt(v, name)
			continue
		case 4:
			fail("template: method " + name)
		}
		if kindOf(v) == kPtr {
			v = deref(v)
		}
		if !hasField(v, name) {
			fail("template: no field " + name + " of " + typeName(v))
		}
		v = field(v, name)
	}
	return v
}

func equal(a, b interface{}) bool {
	switch kindOf(a) {
	case kString:
		return strOf(a) == strOf(b)
	case kBool:
		return boolOf(a) == boolOf(b)
	}
	return intOf(a) == intOf(b)
}

func apply(f string, args []interface{}) interface{} {
	switch f {
	case "not":
		return !truth(args[0])
	case "eq":
		for _, a := range args[1:] {
			if equal(args[0], a) {
				return true
			}
		}
		return false
	case "ne":
		return !equal(args[0], args[1])
	case "lt":
		return intOf(args[0]) < intOf(args[1])
	case "gt":
		return intOf(args[0]) > intOf(args[1])
	case "len":
		if kindOf(args[0]) == kString {
			return len(strOf(args[0]))
		}
		return sliceLen(args[0])
	case "printf":
		return Sprintf(strOf(args[0]), args[1:]...)
	case "print":
		return Sprint(args...)
	case "index":
		return elem(args[0], int(intOf(args[1])))
	case "and":
		for _, a := range args {
			if !truth(a) {
				return a
			}
		}
		return args[len(args)-1]
	case "or":
		for _, a := range args {
			if truth(a) {
				return a
			}
		}
		return args[len(args)-1]
	}
	return nil
}

// FormatSource leaves the layout as it is.
func FormatSource(src []byte) ([]byte, error) { return src, nil }
