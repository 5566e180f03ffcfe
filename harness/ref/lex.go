// Package ref holds the reference models. Results are built with the boolean
// connectives of package sym, so that the executor keeps them as one formula.
package ref

import (
	"unicode"

	"vh/sym"
)

type Kind int

const (
	Chr Kind = iota
	Any
	In
	NotIn
	Letter
	Upcase
	Lowcase
	Number
	USet
)

// Class is a set of characters as the grammar notation describes it.
type Class struct {
	K        Kind
	Set      string
	Inc, Exc []*unicode.RangeTable
}

func oneOf(r rune, set string) bool {
	var bs []bool
	for _, c := range set {
		bs = append(bs, sym.EqRune(r, c))
	}
	return sym.Or(bs...)
}

// Has tells whether r is in c.
func (c *Class) Has(r rune) bool {
	switch c.K {
	case Chr, In:
		return oneOf(r, c.Set)
	case NotIn:
		return sym.Not(oneOf(r, c.Set))
	case Letter:
		return unicode.IsLetter(r)
	case Upcase:
		return unicode.IsUpper(r)
	case Lowcase:
		return unicode.IsLower(r)
	case Number:
		return unicode.IsNumber(r)
	case USet:
		return sym.And(unicode.In(r, c.Inc...), sym.Not(unicode.In(r, c.Exc...)))
	}
	return true
}

// Pos is one character class occurrence in a rule (a Glushkov position).
type Pos struct {
	C      int
	Rule   int
	Last   bool
	Follow []int
}

type Rule struct {
	ID       string
	Literal  bool
	Suppress bool
}

type Lex struct {
	Classes []Class
	Pos     []Pos
	First   []int
	Rules   []Rule
}

// Tok is a token demanded by the rules. Accept lists the rules whose language
// contains the text (a literal alone when one does); it is nil for an error.
type Tok struct {
	L, R   int
	Accept []int
}

// start and step keep, per position, whether it is live.
func (s *Lex) has(r rune) []bool {
	h := make([]bool, len(s.Classes))
	for i := range s.Classes {
		h[i] = s.Classes[i].Has(r)
	}
	return h
}

// Begin gives the positions live after the first character.
func (s *Lex) Begin(r rune) []bool {
	h := s.has(r)
	b := make([]bool, len(s.Pos))
	for _, q := range s.First {
		b[q] = h[s.Pos[q].C]
	}
	return b
}

// Step gives the positions live after one more character.
func (s *Lex) Step(b []bool, r rune) []bool {
	h := s.has(r)
	from := make([][]bool, len(s.Pos))
	for p := range s.Pos {
		for _, q := range s.Pos[p].Follow {
			from[q] = append(from[q], b[p])
		}
	}
	n := make([]bool, len(s.Pos))
	for q := range s.Pos {
		n[q] = sym.And(h[s.Pos[q].C], sym.Or(from[q]...))
	}
	return n
}

// Accepts gives, per rule, whether the characters read are a token of it.
func (s *Lex) Accepts(b []bool) []bool {
	per := make([][]bool, len(s.Rules))
	for q := range s.Pos {
		if s.Pos[q].Last {
			per[s.Pos[q].Rule] = append(per[s.Pos[q].Rule], b[q])
		}
	}
	a := make([]bool, len(s.Rules))
	for i := range per {
		a[i] = sym.Or(per[i]...)
	}
	return a
}

// Tokens reads in as the rules demand: white space between tokens is skipped,
// suppressed tokens are left out, the end of input is not listed.
func (s *Lex) Tokens(in []rune) []Tok {
	var out []Tok
	i := 0
	for i < len(in) {
		if unicode.IsSpace(in[i]) {
			i++
			continue
		}
		b := s.Begin(in[i])
		if !sym.Or(b...) {
			out = append(out, Tok{L: i, R: i + 1})
			i++
			continue
		}
		j := i + 1
		ended := false
		for j < len(in) {
			n := s.Step(b, in[j])
			if !sym.Or(n...) {
				ended = true
				break
			}
			b = n
			j++
		}
		var acc []int
		ok := s.Accepts(b)
		for k := range s.Rules {
			if ok[k] {
				acc = append(acc, k)
				if s.Rules[k].Literal {
					acc = []int{k}
					break
				}
			}
		}
		if acc == nil && ended {
			j++
		}
		if acc == nil || !s.Rules[acc[0]].Suppress {
			out = append(out, Tok{L: i, R: j, Accept: acc})
		}
		i = j
	}
	return out
}

// Is tells whether id names the kind of token that t is.
func (s *Lex) Is(t Tok, id string) bool {
	if t.Accept == nil {
		return id == "Error"
	}
	for _, k := range t.Accept {
		if s.Rules[k].ID == id {
			return true
		}
	}
	return false
}

// Blank tells whether in[l:r] is made of white space and suppressed tokens.
func (s *Lex) Blank(in []rune, l, r int) bool {
	ok := make([]bool, r-l+1)
	ok[0] = true
	for i := l; i < r; i++ {
		sp := sym.And(ok[i-l], unicode.IsSpace(in[i]))
		ok[i-l+1] = sym.Or(ok[i-l+1], sp)
		var b []bool
		for j := i; j < r; j++ {
			if j == i {
				b = s.Begin(in[j])
			} else {
				b = s.Step(b, in[j])
			}
			a := s.Accepts(b)
			var sup []bool
			for k := range s.Rules {
				if s.Rules[k].Suppress {
					sup = append(sup, a[k])
				}
			}
			ok[j-l+1] = sym.Or(ok[j-l+1], sym.And(ok[i-l], sym.Or(sup...)))
		}
	}
	return ok[r-l]
}

// LineCol is the position of offset i by the documented rule.
func LineCol(in []rune, i int) (line, col int) {
	line, col = 1, 1
	for _, r := range in[:i] {
		nl, tab := sym.EqRune(r, '\n'), sym.EqRune(r, '\t')
		line = sym.IteInt(nl, line+1, line)
		col = sym.IteInt(nl, 1, sym.IteInt(tab, col+4, col+1))
	}
	return
}

// Md blanks what a markdown file holds outside its code blocks.
func Md(in []rune) []rune {
	out := append([]rune(nil), in...)
	keep := false
	for i := 0; i < len(in); {
		if i+3 <= len(in) && sym.And(sym.EqRune(in[i], '`'), sym.EqRune(in[i+1], '`'), sym.EqRune(in[i+2], '`')) {
			keep = !keep
			for k := 0; k < 3; k++ {
				out[i+k] = ' '
			}
			i += 3
			continue
		}
		if !keep && in[i] != '\n' {
			out[i] = ' '
		}
		i++
	}
	return out
}
