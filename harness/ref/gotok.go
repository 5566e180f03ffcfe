package ref

// GoTok is a token of Go source: an identifier or number, a literal with the
// characters that it denotes, a newline or a punctuation character.
type GoTok struct {
	Kind byte // 'i', 'l', '\n', or the character itself
	Text []rune
}

// GoTokens splits Go source without comments into tokens.
func GoTokens(src []rune) (out []GoTok, ok bool) {
	n := len(src)
	for i := 0; i < n; {
		r := src[i]
		j := i + 1
		switch {
		case r == '\n':
			out = append(out, GoTok{'\n', nil})
		case r == ' ' || r == '\t' || r == '\r':
		case r == '/' && j < n && src[j] == '/':
			for j < n && src[j] != '\n' {
				j++
			}
		case r == '/' && j < n && src[j] == '*':
			for j += 2; j < n && !(src[j-1] == '*' && src[j] == '/'); j++ {
			}
			j++
		case r == '"' || r == '\'' || r == '`':
			for j < n && src[j] != r {
				if r != '`' && src[j] == '\\' {
					j++
				}
				j++
			}
			j++
			if j > n {
				return nil, false
			}
			lit, ok := GoSource(src[i:j])
			if !ok {
				return nil, false
			}
			out = append(out, GoTok{'l', lit[1 : len(lit)-1]})
		case wordRune(r):
			for j < n && wordRune(src[j]) {
				j++
			}
			out = append(out, GoTok{'i', src[i:j]})
		default:
			out = append(out, GoTok{byte(r), nil})
		}
		i = j
	}
	return out, true
}

func wordRune(r rune) bool {
	return r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

func (t GoTok) Is(s string) bool { return t.Kind == 'i' && string(t.Text) == s }

// Consts returns the constants of the blocks that count with iota.
func Consts(ts []GoTok) map[string]int {
	m := map[string]int{"true": 1, "false": 0}
	for i := 0; i+1 < len(ts); i++ {
		if !ts[i].Is("const") || ts[i+1].Kind != '(' {
			continue
		}
		n, start, plain := 0, true, true
		for i += 2; i < len(ts) && ts[i].Kind != ')'; i++ {
			switch {
			case ts[i].Kind == '\n':
				start = true
			case start && ts[i].Kind == 'i':
				m[string(ts[i].Text)] = n
				n++
				start = false
			case ts[i].Kind == '=':
				// only "= iota" in the first line is understood
				plain = plain && n == 1 && i+2 < len(ts) && ts[i+1].Is("iota") && ts[i+2].Kind == '\n'
			}
		}
		if !plain {
			return nil
		}
	}
	return m
}

// Entry is an element of a composite literal; Key is nil if it has none.
type Entry struct{ Key, Val []GoTok }

// Table returns the elements of "var name = ...{ ... }".
func Table(ts []GoTok, name string) (es []Entry, ok bool) {
	for i := 0; i+2 < len(ts); i++ {
		if !ts[i].Is("var") || !ts[i+1].Is(name) {
			continue
		}
		for i < len(ts) && ts[i].Kind != '{' {
			i++
		}
		depth := 0
		var e Entry
		for i++; i < len(ts); i++ {
			t := ts[i]
			switch {
			case depth == 0 && (t.Kind == ',' || t.Kind == '}'):
				if e.Val != nil || e.Key != nil {
					es = append(es, e)
				}
				e = Entry{}
				if t.Kind == '}' {
					return es, true
				}
			case t.Kind == '\n':
			case depth == 0 && t.Kind == ':':
				e.Key, e.Val = e.Val, nil
			default:
				if t.Kind == '{' || t.Kind == '(' || t.Kind == '[' {
					depth++
				} else if t.Kind == '}' || t.Kind == ')' || t.Kind == ']' {
					depth--
				}
				e.Val = append(e.Val, t)
			}
		}
	}
	return nil, false
}

// Value is the number that an element denotes: a constant, perhaps qualified,
// or a number; -1 if it is neither.
func Value(v []GoTok, consts map[string]int) int {
	if len(v) == 0 || v[len(v)-1].Kind != 'i' {
		return -1
	}
	s := string(v[len(v)-1].Text)
	if n, ok := consts[s]; ok {
		return n
	}
	n := 0
	for _, r := range s {
		if r < '0' || r > '9' {
			return -1
		}
		n = n*10 + int(r-'0')
	}
	return n
}
