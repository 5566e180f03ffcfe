package ref

// Marks in the normal form of Go source: characters that no source can hold.
const (
	LitOpen  = rune(-1)
	LitClose = rune(-2)
	ChrOpen  = rune(-3)
)

// GoSource reduces Go source to what a compiler makes of it: comments and white
// space are left out, and every string and character literal is replaced by
// the characters that it denotes, between marks. The result is not ok if the
// source has a character or a literal that the language does not allow.
func GoSource(src []rune) (out []rune, ok bool) {
	n := len(src)
	for i := 0; i < n; {
		r := src[i]
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			i++
		case r == '/' && i+1 < n && src[i+1] == '/':
			for i < n && src[i] != '\n' {
				if badRune(src[i]) {
					return nil, false
				}
				i++
			}
		case r == '/' && i+1 < n && src[i+1] == '*':
			i += 2
			for i+1 < n && !(src[i] == '*' && src[i+1] == '/') {
				if badRune(src[i]) {
					return nil, false
				}
				i++
			}
			if i+1 >= n {
				return nil, false
			}
			i += 2
		case r == '`':
			out = append(out, LitOpen)
			for i++; i < n && src[i] != '`'; i++ {
				if badRune(src[i]) {
					return nil, false
				}
				if src[i] != '\r' {
					out = append(out, src[i])
				}
			}
			if i >= n {
				return nil, false
			}
			out = append(out, LitClose)
			i++
		case r == '"' || r == '\'':
			quote, from := r, len(out)
			if quote == '"' {
				out = append(out, LitOpen)
			} else {
				out = append(out, ChrOpen)
			}
			i++
			for i < n && src[i] != quote {
				if badRune(src[i]) || src[i] == '\n' {
					return nil, false
				}
				if src[i] != '\\' {
					out = append(out, src[i])
					i++
					continue
				}
				i++
				if i >= n {
					return nil, false
				}
				switch src[i] {
				case 'a':
					out = append(out, '\a')
				case 'b':
					out = append(out, '\b')
				case 'f':
					out = append(out, '\f')
				case 'n':
					out = append(out, '\n')
				case 'r':
					out = append(out, '\r')
				case 't':
					out = append(out, '\t')
				case 'v':
					out = append(out, '\v')
				case '\\':
					out = append(out, '\\')
				case 'x', 'u', 'U':
					w, v := 2, rune(0)
					if src[i] == 'u' {
						w = 4
					} else if src[i] == 'U' {
						w = 8
					}
					for ; w > 0; w-- {
						i++
						if i >= n {
							return nil, false
						}
						d := hexVal(src[i])
						if d < 0 {
							return nil, false
						}
						v = v<<4 | d
					}
					out = append(out, v)
				default:
					if src[i] != quote {
						return nil, false
					}
					out = append(out, quote)
				}
				i++
			}
			if i >= n || quote == '\'' && len(out) != from+2 {
				return nil, false
			}
			out = append(out, LitClose)
			i++
		default:
			if badRune(r) {
				return nil, false
			}
			out = append(out, r)
			i++
		}
	}
	return out, true
}

func badRune(r rune) bool { return r == 0 || r == 0xFEFF || r > 0x10FFFF }

func hexVal(r rune) rune {
	switch {
	case '0' <= r && r <= '9':
		return r - '0'
	case 'a' <= r && r <= 'f':
		return r - 'a' + 10
	case 'A' <= r && r <= 'F':
		return r - 'A' + 10
	}
	return -1
}
