// Package symfmt is the formatter that the symbolic executor runs in place of
// package fmt, so that formatting calls String methods and keeps symbolic
// characters symbolic. It is never used natively.
package symfmt

import (
	"os"
	"unicode"
	"unicode/utf8"
)

type stringer interface{ String() string }

func kindOf(a interface{}) int              { return 0 }
func intOf(a interface{}) int64             { return 0 }
func runeOf(a interface{}) rune             { return 0 }
func boolOf(a interface{}) bool             { return false }
func strOf(a interface{}) string            { return "" }
func typeName(a interface{}) string         { return "" }
func sliceLen(a interface{}) int            { return 0 }
func mapLen(a interface{}) int              { return 0 }
func elem(a interface{}, i int) interface{} { return nil }
func isNil(a interface{}) bool              { return false }
func deref(a interface{}) interface{}       { return nil }
func address(a interface{}) string          { return "" }

const (
	kBool = iota
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kStruct
	kArray
	kIface
	kFunc
	kTuple
	kOther
	kSigned = 100
)

const digits = "0123456789abcdef"

func utoa(u uint64, base uint64) string {
	if u == 0 {
		return "0"
	}
	s := ""
	for u > 0 {
		s = digits[u%base:u%base+1] + s
		u /= base
	}
	return s
}

func itoa(n int64, base uint64) string {
	if n < 0 {
		return "-" + utoa(uint64(-n), base)
	}
	return utoa(uint64(n), base)
}

func quote(s string) string {
	r := "\""
	for _, c := range s {
		switch c {
		case '"':
			r += "\\\""
		case '\\':
			r += "\\\\"
		case '\n':
			r += "\\n"
		case '\r':
			r += "\\r"
		case '\t':
			r += "\\t"
		default:
			r += string(c)
		}
	}
	return r + "\""
}

func plain(a interface{}, verb byte, plus, depth int) string {
	switch kindOf(a) {
	case -1:
		if verb == 's' {
			return "%!s(<nil>)"
		}
		return "<nil>"
	}
	if verb != 'd' && verb != 'T' && verb != 'p' && verb != 't' && verb != 'x' && verb != 'c' {
		if e, ok := a.(error); ok && !isNil(a) {
			return fin(e.Error(), verb)
		}
		if s, ok := a.(stringer); ok && !isNil(a) {
			return fin(s.String(), verb)
		}
	}
	switch kindOf(a) {
	case kBool:
		if boolOf(a) {
			return "true"
		}
		return "false"
	case kSigned, kInt:
		switch verb {
		case 'c':
			return string(runeOf(a))
		case 'q':
			return "'" + string(runeOf(a)) + "'"
		case 'x':
			return itoa(intOf(a), 16)
		case 'U':
			return "U+" + itoa(intOf(a), 16)
		}
		if kindOf(a) == kInt {
			return utoa(uint64(intOf(a)), 10)
		}
		return itoa(intOf(a), 10)
	case kString:
		return fin(strOf(a), verb)
	case kPtr:
		if isNil(a) {
			return "<nil>"
		}
		if depth == 0 && verb != 'p' {
			d := deref(a)
			if kindOf(d) == kStruct || kindOf(d) == kSlice || kindOf(d) == kArray {
				return "&" + plain(d, verb, plus, depth+1)
			}
		}
		return address(a)
	case kSlice, kArray:
		if verb == 's' || verb == 'v' || verb == 'd' || verb == 'q' {
			s := "["
			n := sliceLen(a)
			for i := 0; i < n; i++ {
				if i > 0 {
					s += " "
				}
				s += plain(elem(a, i), verb, plus, depth+1)
			}
			return s + "]"
		}
	case kStruct:
		s := "{"
		n := sliceLen(a)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += plain(elem(a, i), verb, plus, depth+1)
		}
		return s + "}"
	case kMap:
		if mapLen(a) == 0 {
			return "map[]"
		}
		return "map[...]"
	}
	return "?" + typeName(a)
}

func fin(s string, verb byte) string {
	if verb == 'q' {
		return quote(s)
	}
	return s
}

func Sprintf(format string, args ...interface{}) string {
	out := ""
	ai := 0
	i := 0
	start := 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		out += format[start:i]
		i++
		minus, zero, plus := false, false, 0
		w := 0
		for i < len(format) {
			c := format[i]
			if c == '-' {
				minus = true
			} else if c == '0' && w == 0 {
				zero = true
			} else if c == '+' || c == '#' {
				plus = 1
			} else if c >= '0' && c <= '9' {
				w = w*10 + int(c-'0')
			} else if c != ' ' && c != '.' {
				break
			}
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		i++
		start = i
		if verb == '%' {
			out += "%"
			continue
		}
		if ai >= len(args) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		s := ""
		if verb == 'T' {
			s = typeName(a)
		} else {
			s = plain(a, verb, plus, 0)
		}
		if w > 0 {
			n := 0
			for range s {
				n++
			}
			for ; n < w; n++ {
				if minus {
					s += " "
				} else if zero {
					s = "0" + s
				} else {
					s = " " + s
				}
			}
		}
		out += s
	}
	out += format[start:]
	return out
}

func isStr(a interface{}) bool { return kindOf(a) == kString }

func Sprint(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 && !isStr(a) && !isStr(args[i-1]) {
			out += " "
		}
		out += plain(a, 'v', 0, 0)
	}
	return out
}

func Sprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += plain(a, 'v', 0, 0)
	}
	return out + "\n"
}

type errString struct{ s string }

func (e *errString) Error() string { return e.s }

func Errorf(format string, args ...interface{}) error {
	return &errString{Sprintf(format, args...)}
}

type writer interface {
	Write(p []byte) (n int, err error)
}

func Fprintf(w writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}

func Fprint(w writer, args ...interface{}) (int, error) { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

// Capturing tells whether what goes to standard output is kept in Out.
var (
	Capturing bool
	Out       string
)

func out(s string) (int, error) {
	Out += s
	return len(s), nil
}

func Printf(format string, args ...interface{}) (int, error) {
	if !Capturing {
		return 0, nil
	}
	return out(Sprintf(format, args...))
}

func Print(args ...interface{}) (int, error) {
	if !Capturing {
		return 0, nil
	}
	return out(Sprint(args...))
}

func Println(args ...interface{}) (int, error) {
	if !Capturing {
		return 0, nil
	}
	return out(Sprintln(args...))
}

// ---- package flag ----

type flagDef struct {
	name string
	b    *bool
	s    *string
}

var (
	flagDefs []*flagDef
	flagRest []string
)

func FlagBool(name string, value bool, usage string) *bool {
	flagDefs = append(flagDefs, &flagDef{name: name, b: &value})
	return &value
}

func FlagString(name string, value string, usage string) *string {
	flagDefs = append(flagDefs, &flagDef{name: name, s: &value})
	return &value
}

func FlagInt(name string, value int, usage string) *int { return &value }

// FlagParse is flag.Parse of the default command line, which exits on errors.
func FlagParse() {
	args := os.Args[1:]
	for len(args) > 0 {
		s := args[0]
		if len(s) < 2 || s[0] != '-' {
			break
		}
		minus := 1
		if s[1] == '-' {
			minus++
			if len(s) == 2 {
				args = args[1:]
				break
			}
		}
		name := s[minus:]
		if len(name) == 0 || name[0] == '-' || name[0] == '=' {
			os.Exit(2)
		}
		args = args[1:]
		value, has := "", false
		for i := 1; i < len(name); i++ {
			if name[i] == '=' {
				value, has, name = name[i+1:], true, name[:i]
				break
			}
		}
		var def *flagDef
		for _, d := range flagDefs {
			if d.name == name {
				def = d
			}
		}
		switch {
		case def == nil && (name == "help" || name == "h"):
			os.Exit(0)
		case def == nil:
			os.Exit(2)
		case def.b != nil && !has:
			*def.b = true
		case def.b != nil:
			switch value {
			case "1", "t", "T", "true", "TRUE", "True":
				*def.b = true
			case "0", "f", "F", "false", "FALSE", "False":
				*def.b = false
			default:
				os.Exit(2)
			}
		default:
			if !has {
				if len(args) == 0 {
					os.Exit(2)
				}
				value, args = args[0], args[1:]
			}
			*def.s = value
		}
	}
	flagRest = args
}

func FlagNArg() int { return len(flagRest) }

func FlagArg(i int) string {
	if i < 0 || i >= len(flagRest) {
		return ""
	}
	return flagRest[i]
}

func FlagArgs() []string { return flagRest }

// DecodeRune is utf8.DecodeRuneInString, by characters.
func DecodeRune(s string) (rune, int) {
	for _, r := range s {
		if r == utf8.RuneError && s[0] != 0xEF {
			return r, 1
		}
		return r, utf8.RuneLen(r)
	}
	return utf8.RuneError, 0
}

// DecodeLastRune is utf8.DecodeLastRuneInString, by characters.
func DecodeLastRune(s string) (rune, int) {
	rs := []rune(s)
	if len(rs) == 0 {
		return utf8.RuneError, 0
	}
	r := rs[len(rs)-1]
	if r == utf8.RuneError && (len(s) < 3 || s[len(s)-3] != 0xEF) {
		return r, 1
	}
	return r, utf8.RuneLen(r)
}

// TrimSpace is strings.TrimSpace, by characters.
func TrimSpace(s string) string {
	rs := []rune(s)
	i, j := 0, len(rs)
	for i < j && unicode.IsSpace(rs[i]) {
		i++
	}
	for j > i && unicode.IsSpace(rs[j-1]) {
		j--
	}
	if i == 0 && j == len(rs) {
		return s
	}
	return string(rs[i:j])
}
