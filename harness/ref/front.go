package ref

import "vh/sym"

// The grammar of gogll.md, read from a sequence of tokens whose types are
// concrete and whose texts may hold symbolic characters.

// FTok is a token of a grammar text.
type FTok struct {
	Kind string // type ID
	Text []rune
	At   int // where it starts in the input
}

// FSym is a symbol of a lexical rule.
type FSym struct {
	Kind   string // char, any, anyof, not, class, set, or the opening bracket
	Chars  []rune // char, anyof, not
	Name   string // class
	Ranges []FRange
	Alts   [][]*FSym
}

// FRange is an element of a Unicode set.
type FRange struct {
	Name    string
	Exclude bool
}

// FLex is a lexical rule; references to other rules are replaced.
type FLex struct {
	Name     []rune
	Suppress bool
	Body     []*FSym
	At       int
}

// FRef is a symbol of a syntax rule.
type FRef struct {
	Kind string // nt, tokid, string_lit
	Text []rune // of a string_lit: the characters that it denotes
	At   int
}

// FSyn is a syntax rule.
type FSyn struct {
	Name []rune
	Alts [][]FRef
	At   int
}

// Fault is a reason to reject a grammar.
type Fault struct {
	What string
	Name []rune
	At   int
}

// Front is what a grammar text says.
type Front struct {
	Lex    []*FLex
	Syn    []*FSyn
	Faults []Fault
}

// SameRunes tells whether two texts are equal.
func SameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, sym.EqRune(a[i], b[i]))
	}
	return eq
}

type reader struct {
	in []FTok
	at int
	f  *Front
	ok bool
}

// ReadFront reads a text; ok is false if it is not of the form of a grammar.
func ReadFront(in []FTok) (*Front, bool) {
	r := &reader{in: in, f: &Front{}, ok: true}
	r.want("package")
	r.want("string_lit")
	for r.ok {
		r.rule()
		if r.at == len(in) {
			break
		}
	}
	if r.ok {
		r.refs()
	}
	return r.f, r.ok
}

func (r *reader) kind() string {
	if r.at < len(r.in) {
		return r.in[r.at].Kind
	}
	return ""
}

func (r *reader) want(kind string) (t FTok) {
	if !r.ok || r.kind() != kind {
		r.ok = false
		return
	}
	t = r.in[r.at]
	r.at++
	return
}

func (r *reader) fault(what string, name []rune, at int) {
	r.f.Faults = append(r.f.Faults, Fault{what, name, at})
}

func (r *reader) rule() {
	if r.kind() == "nt" {
		r.synRule()
		return
	}
	x := &FLex{}
	if r.kind() == "!" {
		r.at++
		x.Suppress = true
	}
	t := r.want("tokid")
	x.Name, x.At = t.Text, t.At
	r.want(":")
	x.Body = r.regExp()
	r.want(";")
	for _, y := range r.f.Lex {
		if SameRunes(x.Name, y.Name) {
			r.fault("duplicate", x.Name, x.At)
		}
	}
	r.f.Lex = append(r.f.Lex, x)
}

var closing = map[string]string{"(": ")", "[": "]", "{": "}", "<": ">"}

func (r *reader) regExp() (body []*FSym) {
	for n := 0; r.ok; n++ {
		switch k := r.kind(); k {
		case "tokid":
			t := r.want(k)
			known := false
			for _, y := range r.f.Lex {
				if SameRunes(t.Text, y.Name) {
					known = true
					for _, s := range y.Body {
						body = append(body, s)
					}
					break
				}
			}
			if !known {
				r.fault("undeclared", t.Text, t.At)
			}
		case ".":
			r.at++
			body = append(body, &FSym{Kind: "any"})
		case "any", "not":
			r.at++
			t := r.want("string_lit")
			if k == "any" {
				k = "anyof"
			}
			if r.ok {
				body = append(body, &FSym{Kind: k, Chars: denoted(t.Text)})
			}
		case "char_lit":
			body = append(body, &FSym{Kind: "char", Chars: denoted(r.want(k).Text)})
		case "letter", "upcase", "lowcase", "number", "space":
			r.at++
			body = append(body, &FSym{Kind: "class", Name: k})
		case "(", "[", "{", "<":
			r.at++
			s := &FSym{Kind: k}
			s.Alts = append(s.Alts, r.regExp())
			for r.ok && r.kind() == "|" {
				r.at++
				s.Alts = append(s.Alts, r.regExp())
			}
			r.want(closing[k])
			body = append(body, s)
		case "'[":
			r.at++
			s := &FSym{Kind: "set"}
			for r.ok && (len(s.Ranges) == 0 || r.kind() != "]'") {
				x := FRange{}
				if len(s.Ranges) > 0 && r.kind() == "-" {
					r.at++
					x.Exclude = true
				}
				k := r.kind()
				if len(k) < 4 || k[:3] != "\\p{" {
					r.ok = false
					return
				}
				r.at++
				x.Name = k[3 : len(k)-1]
				s.Ranges = append(s.Ranges, x)
			}
			r.want("]'")
			body = append(body, s)
		default:
			if n == 0 {
				r.ok = false
			}
			return
		}
	}
	return
}

// denoted returns the characters that a literal stands for.
func denoted(text []rune) (cs []rune) {
	for i := 1; i < len(text)-1; i++ {
		c := text[i]
		if c == '\\' {
			i++
			c = text[i]
			switch c {
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			}
		}
		cs = append(cs, c)
	}
	return
}

func (r *reader) synRule() {
	t := r.want("nt")
	x := &FSyn{Name: t.Text, At: t.At}
	r.want(":")
	x.Alts = append(x.Alts, r.alternate())
	for r.ok && r.kind() == "|" {
		r.at++
		x.Alts = append(x.Alts, r.alternate())
	}
	r.want(";")
	for _, y := range r.f.Syn {
		if SameRunes(x.Name, y.Name) {
			r.fault("duplicate", x.Name, x.At)
		}
	}
	r.f.Syn = append(r.f.Syn, x)
}

func (r *reader) alternate() (b []FRef) {
	if r.kind() == "empty" {
		r.at++
		return
	}
	for {
		switch k := r.kind(); k {
		case "nt", "tokid":
			b = append(b, FRef{k, r.in[r.at].Text, r.in[r.at].At})
		case "string_lit":
			s := FRef{k, denoted(r.in[r.at].Text), r.in[r.at].At}
			blank := len(s.Text) == 0
			for _, c := range s.Text {
				blank = sym.Or(blank, sym.EqRune(c, ' '), sym.InRunes(c, 9, 13), sym.EqRune(c, 0x85), sym.EqRune(c, 0xa0), sym.InRunes(c, 0x2000, 0x200a), sym.EqRune(c, 0x1680), sym.InRunes(c, 0x2028, 0x2029), sym.EqRune(c, 0x202f), sym.EqRune(c, 0x205f), sym.EqRune(c, 0x3000))
			}
			if blank {
				r.fault("blank", nil, s.At)
			}
			b = append(b, s)
		default:
			if len(b) == 0 {
				r.ok = false
			}
			return
		}
		r.at++
	}
}

// refs looks for undeclared symbols in the syntax rules.
func (r *reader) refs() {
	for _, x := range r.f.Syn {
		for _, a := range x.Alts {
			for _, s := range a {
				known := s.Kind == "string_lit"
				if s.Kind == "nt" {
					for _, y := range r.f.Syn {
						known = sym.Or(known, SameRunes(s.Text, y.Name))
					}
				}
				if s.Kind == "tokid" {
					for _, y := range r.f.Lex {
						known = sym.Or(known, SameRunes(s.Text, y.Name))
					}
				}
				if !known {
					r.fault("undeclared", s.Text, s.At)
				}
			}
		}
	}
}

// Viable tells whether the brackets of the lexical rule that the tokens end in
// can still be closed, by no more than left tokens.
func Viable(in []FTok, left int) bool {
	var open []string
	n := 0 // symbols of the regular expression that the tokens end in
	lex := false
	for i, t := range in {
		switch t.Kind {
		case ":":
			lex = in[i-1].Kind == "tokid"
			open, n = nil, 0
			continue
		case ";":
			if lex && (len(open) > 0 || n == 0) {
				return false
			}
			lex = false
		}
		if !lex {
			continue
		}
		switch t.Kind {
		case "(", "[", "{", "<":
			open = append(open, closing[t.Kind])
			n = 0
		case ")", "]", "}", ">":
			if n == 0 || len(open) == 0 || open[len(open)-1] != t.Kind {
				return false
			}
			open = open[:len(open)-1]
		case "|":
			if n == 0 || len(open) == 0 {
				return false
			}
			n = 0
		default:
			n++
		}
	}
	return len(open) <= left
}
