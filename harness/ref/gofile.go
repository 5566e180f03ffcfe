package ref

import (
	"strings"
	"unicode"

	"vh/sym"
)

// A Go package as a compiler sees it before types: what is declared, what is
// imported and used, and what is written twice where it may be written once.
// The characters of identifiers and literals may be symbolic.

// GTok is a token of Go source: an identifier or number ('i'), a literal with
// the characters that it denotes ('l'), a newline or a punctuation character.
type GTok struct {
	Kind  byte
	Text  string
	Const bool // no character is symbolic
}

func (t GTok) is(s string) bool { return t.Kind == 'i' && t.Const && t.Text == s }

func (t GTok) upper() bool {
	for _, r := range t.Text {
		return r >= 'A' && r <= 'Z' || r > 127 && unicode.IsUpper(r)
	}
	return false
}

// names is a set of identifiers.
type goNames struct {
	fixed map[string]bool
	open  []string
}

func (n *goNames) add(t GTok) {
	if t.Const {
		n.fixed[t.Text] = true
	} else {
		n.open = append(n.open, t.Text)
	}
}

func (n *goNames) has(t GTok) bool {
	if t.Const && n.fixed[t.Text] {
		return true
	}
	r := false
	for _, s := range n.open {
		r = sym.Or(r, sym.EqStr(s, t.Text))
	}
	if !t.Const {
		for s := range n.fixed {
			if len(s) <= 4*len(t.Text) {
				r = sym.Or(r, sym.EqStr(s, t.Text))
			}
		}
	}
	return r
}

type goImport struct{ name, path string }

// GoFile is a file as it is by itself.
type GoFile struct {
	name    string
	ts      []GTok
	bad     string
	pkg     GTok
	decls   []GTok // package-level names
	members []GTok // fields and methods
	locals  []GTok // parameters and variables with capital letters
	imports []goImport
	body    int // where the declarations start
	used    map[string][]GTok
	open    []GTok // names with a capital letter that it uses by themselves
	checks  []goCheck
}

type goCheck struct {
	ok   bool
	what string
}

// goKnown are files whose texts were read before.
var goKnown = map[string]*GoFile{}

var goKeywords = &goNames{fixed: map[string]bool{}}

func init() {
	for _, k := range strings.Fields("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var") {
		goKeywords.fixed[k] = true
	}
}

const goPunct = "+-*/%&|^<>=!()[]{},;.:~"

func goWordRune(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= '0' && r <= '9' || r > 127 && (unicode.IsLetter(r) || unicode.Is(unicode.Nd, r))
}

// goLex splits Go source into tokens; identifiers may have any letter.  It
// fails at a literal that does not end and at a character that Go does not
// have outside literals and comments.
func goLex(src []rune) (out []GTok, bad string) {
	n := len(src)
	for i := 0; i < n; {
		r := src[i]
		j := i + 1
		switch {
		case goWordRune(r):
			for j < n && goWordRune(src[j]) {
				j++
			}
			if r >= '0' && r <= '9' {
				if !goNumber(src[i:j]) {
					return nil, "a number"
				}
			} else if r > 127 && !unicode.IsLetter(r) {
				return nil, "a name starts with a letter"
			}
			w := string(src[i:j])
			out = append(out, GTok{'i', w, sym.Const(w)})
		case r == '\n':
			out = append(out, GTok{'\n', "", true})
		case r == ' ' || r == '\t' || r == '\r':
		case r == '/' && j < n && src[j] == '/':
			for j < n && src[j] != '\n' {
				j++
			}
		case r == '/' && j < n && src[j] == '*':
			for j += 2; j < n && !(src[j-1] == '*' && src[j] == '/'); j++ {
			}
			if j >= n {
				return nil, "a comment ends"
			}
			j++
		case r == '"' || r == '\'' || r == '`':
			for j < n && src[j] != r {
				if r != '`' && src[j] == '\\' {
					j++
				}
				j++
			}
			j++
			if j > n {
				return nil, "a literal ends"
			}
			lit, ok := GoSource(src[i:j])
			if !ok || r == '\'' && len(lit) != 3 {
				return nil, "a literal is proper"
			}
			w := string(lit[1 : len(lit)-1])
			out = append(out, GTok{'l', w, sym.Const(w)})
		case r < 128 && strings.ContainsRune(goPunct, r):
			out = append(out, GTok{byte(r), "", true})
		default:
			return nil, "a character is one of Go"
		}
		i = j
	}
	return append(out, GTok{'\n', "", true}), ""
}

// goNumber: the numbers that generated code has are decimal.
func goNumber(w []rune) bool {
	for _, r := range w {
		if r < '0' || r > '9' {
			return false
		}
	}
	return len(w) == 1 || w[0] != '0'
}

func goDir(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[:i]
	}
	return ""
}

// goPkg is a package: its files together.
type goPkg struct {
	name         *GTok
	decls, known *goNames
}

// GoPkgs checks the Go files of a module, of which files has the texts by
// their names below the module, and tells which packages there are.
func GoPkgs(files map[string]string, names []string, module string, check func(ok bool, what string)) map[string]bool {
	pkgs := map[string]*goPkg{}
	var read []*GoFile
	all := map[string]bool{}
	for _, f := range names {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		g := goRead(f, files[f])
		check(g.bad == "", f+": "+g.bad)
		for _, c := range g.checks {
			check(c.ok, f+": "+c.what)
		}
		dir := goDir(f)
		p := pkgs[dir]
		if p == nil {
			p = &goPkg{decls: &goNames{fixed: map[string]bool{}}, known: &goNames{fixed: map[string]bool{}}}
			pkgs[dir] = p
			all[dir] = true
		}
		if p.name == nil {
			p.name = &g.pkg
		}
		check(sym.EqStr(p.name.Text, g.pkg.Text), f+": one package in a directory")
		for _, d := range g.decls {
			check(sym.Not(p.decls.has(d)), f+": a package declares a name once")
			check(sym.Not(goKeywords.has(d)), f+": a name is no keyword")
			p.decls.add(d)
			p.known.add(d)
		}
		for _, d := range g.members {
			p.known.add(d)
		}
		read = append(read, g)
	}
	for _, g := range read {
		f := g.name
		p := pkgs[goDir(f)]
		for i, im := range g.imports {
			for _, other := range g.imports[:i] {
				// gofmt drops an import that is there twice
				check(other.name != im.name || other.path == im.path, f+": an import has a name of its own")
			}
			check(sym.Not(p.decls.has(GTok{'i', im.name, true})), f+": an import has the name of no declaration")
			check(im.name == "_" || len(g.used[im.name]) > 0, f+": what is imported is used")
			dir := strings.TrimPrefix(im.path, module+"/")
			if dir == im.path {
				continue
			}
			q := pkgs[dir]
			check(q != nil, f+": the package imported is generated")
			if q == nil {
				continue
			}
			for _, w := range g.used[im.name] {
				check(q.decls.has(w), f+": what is used of "+im.path+" is declared there")
				check(w.upper(), f+": what is used of "+im.path+" is exported")
			}
		}
		own := &goNames{fixed: map[string]bool{}}
		for _, w := range g.locals {
			own.add(w)
		}
		for _, w := range g.open {
			check(sym.Or(p.known.has(w), own.has(w)), f+": a name with a capital letter is declared")
		}
	}
	return all
}

// goRead reads a file.
func goRead(name, text string) *GoFile {
	fixed := sym.Const(text)
	if fixed && goKnown[text] != nil && goKnown[text].name == name {
		return goKnown[text]
	}
	g := &GoFile{name: name, used: map[string][]GTok{}}
	g.ts, g.bad = goLex([]rune(text))
	if g.bad == "" {
		depth := 0
		for _, t := range g.ts {
			switch t.Kind {
			case '(', '[', '{':
				depth++
			case ')', ']', '}':
				depth--
			}
			if depth < 0 {
				break
			}
		}
		if depth != 0 {
			g.bad = "brackets are closed"
		}
	}
	if g.bad == "" {
		g.declare()
		g.use()
	}
	if fixed {
		goKnown[text] = g
	}
	return g
}

func (g *GoFile) check(ok bool, what string) { g.checks = append(g.checks, goCheck{ok, what}) }

// skip returns where the bracket that opens at i is closed.
func skip(ts []GTok, i int) int {
	depth := 0
	for ; i < len(ts); i++ {
		switch ts[i].Kind {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return len(ts) - 1
}

func (g *GoFile) decl(t GTok) {
	if !t.is("_") {
		g.decls = append(g.decls, t)
	}
}

// declare reads the top level.
func (g *GoFile) declare() {
	ts := g.ts
	for i := 0; i < len(ts); i++ {
		switch t := ts[i]; {
		case t.is("package"):
			i++
			g.pkg = ts[i]
		case t.is("import"):
			end := i + 2
			if ts[i+1].Kind == '(' {
				end = skip(ts, i+1)
			}
			name := ""
			for i++; i <= end; i++ {
				switch ts[i].Kind {
				case 'i':
					name = ts[i].Text
				case 'l':
					path := ts[i].Text
					if name == "" {
						name = path[strings.LastIndex(path, "/")+1:]
					}
					g.imports = append(g.imports, goImport{name, path})
					name = ""
				}
			}
			i = end
			g.body = end
		case t.is("func"):
			i++
			if ts[i].Kind == '(' {
				i = skip(ts, i) + 1
				g.members = append(g.members, ts[i])
			} else if !ts[i].is("init") {
				g.decl(ts[i])
			}
			for ts[i].Kind != '{' {
				if ts[i].Kind == '(' {
					i = skip(ts, i)
				} else if ts[i].is("interface") && ts[i+1].Kind == '{' {
					i = skip(ts, i+1)
				}
				i++
			}
			i = skip(ts, i)
		case t.is("const"), t.is("var"), t.is("type"):
			if ts[i+1].Kind != '(' {
				i = g.spec(i+1, t)
				continue
			}
			end := skip(ts, i+1)
			for i += 2; i < end; i++ {
				if ts[i].Kind == 'i' {
					i = g.spec(i, t)
				}
			}
			i = end
		}
	}
}

// spec reads one line of a declaration, that starts at i.
func (g *GoFile) spec(i int, kind GTok) int {
	ts := g.ts
	g.decl(ts[i])
	for ts[i+1].Kind == ',' {
		i += 2
		g.decl(ts[i])
	}
	for i++; i < len(ts) && ts[i].Kind != '\n'; i++ {
		switch ts[i].Kind {
		case '{':
			// fields or methods, or the elements of a literal
			end := skip(ts, i)
			if kind.is("type") {
				start := true
				for k := i + 1; k < end; k++ {
					if ts[k].Kind == '\n' {
						start = true
					} else if start && ts[k].Kind == 'i' {
						g.members = append(g.members, ts[k])
						for ts[k+1].Kind == ',' {
							k += 2
							g.members = append(g.members, ts[k])
						}
						start = false
					} else if ts[k].Kind == '(' || ts[k].Kind == '{' {
						k = skip(ts, k)
					}
				}
			}
			i = end
		case '(', '[':
			i = skip(ts, i)
		case ')':
			return i - 1
		}
	}
	return i
}

// use collects what a file refers to.
func (g *GoFile) use() {
	ts := g.ts
	imported := map[string]bool{}
	for _, im := range g.imports {
		imported[im.name] = true
	}
	for k := g.body + 1; k < len(ts); k++ {
		t := ts[k]
		if t.Kind != 'i' {
			continue
		}
		if ts[k-1].Kind != '.' {
			if t.Const && ts[k+1].Kind == '.' && imported[t.Text] && ts[k+2].Kind == 'i' {
				g.used[t.Text] = append(g.used[t.Text], ts[k+2])
			}
			if t.upper() && (ts[k+1].Kind != ':' || ts[k-1].is("case")) {
				g.open = append(g.open, t)
			}
			if (ts[k-1].is("var") || assigns(ts, k)) && t.upper() {
				g.locals = append(g.locals, t)
			}
		}
		switch {
		case t.is("switch"):
			g.cases(k)
		case t.is("map") && ts[k+1].Kind == '[' && ts[k-1].Kind != ')':
			// the elements of a literal
			i := skip(ts, k+1) + 1
			for ts[i].Kind == 'i' || ts[i].Kind == '.' || ts[i].Kind == '*' || ts[i].Kind == '[' {
				if ts[i].Kind == '[' {
					i = skip(ts, i)
				}
				if ts[i].is("interface") || ts[i].is("struct") {
					i = skip(ts, i+1)
				}
				i++
			}
			if ts[i].Kind == '{' {
				g.keys(i)
			}
		case t.is("func"):
			for i := k; ts[i].Kind != '{' && ts[i].Kind != '\n'; i++ {
				if ts[i].Kind == 'i' && ts[i].upper() {
					g.locals = append(g.locals, ts[i])
				}
			}
			if ts[k-1].Kind == '\n' {
				g.variables(k)
			}
		}
	}
}

// element is the text of the tokens of an expression.
func element(e []GTok) (s GTok) {
	s.Const = true
	for _, t := range e {
		s.Text += string(rune(t.Kind)) + t.Text
		s.Const = s.Const && t.Const
	}
	return
}

// keys checks that no key of the literal that opens at i is there twice.
func (g *GoFile) keys(i int) {
	ts := g.ts
	end := skip(ts, i)
	seen := &goNames{fixed: map[string]bool{}}
	var e []GTok
	for i++; i < end; i++ {
		switch ts[i].Kind {
		case '\n':
		case ',':
			e = nil
		case ':':
			s := element(e)
			g.check(sym.Not(seen.has(s)), "a key of a map is there once")
			seen.add(s)
			e = nil
		case '(', '[', '{':
			close := skip(ts, i)
			e = append(e, ts[i:close+1]...)
			i = close
		default:
			e = append(e, ts[i])
		}
	}
}

// cases checks that no case of a switch on constants is there twice.
func (g *GoFile) cases(i int) {
	ts := g.ts
	if ts[i+1].Kind == '{' {
		return
	}
	for ts[i].Kind != '{' {
		if ts[i].is("type") {
			return
		}
		i++
	}
	end := skip(ts, i)
	seen := &goNames{fixed: map[string]bool{}}
	for i++; i < end; i++ {
		if ts[i].Kind == '{' || ts[i].Kind == '(' || ts[i].Kind == '[' {
			i = skip(ts, i)
			continue
		}
		if !ts[i].is("case") {
			continue
		}
		var e []GTok
		for i++; i < end; i++ {
			if ts[i].Kind == ',' || ts[i].Kind == ':' {
				s := element(e)
				g.check(sym.Not(seen.has(s)), "a case of a switch is there once")
				seen.add(s)
				e = nil
				if ts[i].Kind == ':' {
					break
				}
			} else if ts[i].Kind != '\n' {
				e = append(e, ts[i])
			}
		}
	}
}

// variables checks that the variables that a function declares are used.
func (g *GoFile) variables(i int) {
	ts := g.ts
	params, list := &goNames{fixed: map[string]bool{}}, 0
	for ts[i].Kind != '{' {
		if ts[i].is("interface") {
			i = skip(ts, i+1)
		} else if ts[i].Kind == '(' {
			// the parameters: names, or types if they have no names
			if list++; list == 1 && ts[i-1].Kind == 'i' || list == 2 && ts[i-1].Kind == 'i' && !ts[i-1].is("func") {
				for j, end := i+1, skip(ts, i); j < end; j++ {
					if ts[j].Kind == '(' || ts[j].Kind == '{' || ts[j].Kind == '[' {
						j = skip(ts, j)
					} else if ts[j].Kind == 'i' && (ts[j-1].Kind == '(' || ts[j-1].Kind == ',') && ts[j+1].Kind != '{' && !ts[j].is("_") {
						g.check(sym.Not(params.has(ts[j])), "a parameter has a name of its own")
						g.check(sym.Not(goKeywords.has(ts[j])), "a parameter is no keyword")
						params.add(ts[j])
					}
				}
			}
			i = skip(ts, i)
		}
		i++
	}
	end := skip(ts, i)
	declared := &goNames{fixed: map[string]bool{}}
	used := &goNames{fixed: map[string]bool{}}
	for j := i; j < end; j++ {
		if ts[j].Kind != 'i' || ts[j-1].Kind == '.' {
			continue
		}
		if ts[j-1].is("var") {
			declared.add(ts[j])
			continue
		}
		if !assigns(ts, j) {
			used.add(ts[j])
			continue
		}
		b := j + 1
		for ts[b].Kind == ',' {
			b += 2
		}
		if ts[b].Kind == ':' && !ts[j].is("_") {
			declared.add(ts[j])
		}
	}
	for w := range declared.fixed {
		g.check(used.fixed[w], "a variable that is declared is used")
	}
}

// assigns: the name at b is on the left of = or := only.
func assigns(ts []GTok, b int) bool {
	for b++; b+1 < len(ts) && ts[b].Kind == ',' && ts[b+1].Kind == 'i'; b += 2 {
	}
	return ts[b].Kind == '=' && ts[b+1].Kind != '=' || ts[b].Kind == ':' && ts[b+1].Kind == '='
}
