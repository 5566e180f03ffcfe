"""Grammar texts of which every token is chosen from a list and every character
of a literal or name is arbitrary, for gogll's own front end."""
import gram

# In a text of a token: \\1 any character that a literal can hold as it is,
# \\2 a character of a token name, \\3 a character of a nonterminal
TEXT = {"char_lit": "'\1'", "string_lit": '"\1"', "tokid": "a\2", "nt": "\3"}

OPTS = {
    "char": [("char_lit", "'\1'")],
    "quote": [("char_lit", "'\\''")],
    "newline": [("char_lit", "'\\n'")],
    "high": [("char_lit", "'世'")],
    "dot": [(".", ".")],
    "any": [("any", "any"), ("string_lit", '"\1\1"')],
    "not": [("not", "not"), ("string_lit", '"\1\\t"')],
    "letter": [("letter", "letter")],
    "upcase": [("upcase", "upcase")],
    "lowcase": [("lowcase", "lowcase")],
    "number": [("number", "number")],
    "set": [("'[", "'["), ("\\\\p{Lu}", "\\p{Lu}"), ("]'", "]'")],
    "set2": [("'[", "'["), ("\\\\p{L}", "\\p{L}"), ("-", "-"), ("\\\\p{Hex_Digit}", "\\p{Hex_Digit}"), ("\\\\p{Nd}", "\\p{Nd}"), ("]'", "]'")],
    "tokid": [("tokid", "a\2")],
    "nt": [("nt", "\3")],
    "str": [("string_lit", '"\1"')],
    "str2": [("string_lit", '"\1\1"')],
    "stresc": [("string_lit", '"\1\\\\"')],
    "strempty": [("string_lit", '""')],
    "strnb": [("string_lit", '"a\u00a0"')],
    "strem": [("string_lit", '"\u2003世"')],
    "strutf": [("string_lit", '"世\1"')],
    "strtab": [("string_lit", '"\1\\t"')],
    "empty": [("empty", "empty")],
    "none": [],
    "endlex": [(";", ";"), ("tokid", "a\2"), (":", ":")],
    "endsup": [(";", ";"), ("!", "!"), ("tokid", "a\2"), (":", ":")],
    "endsyn": [(";", ";"), ("nt", "\3"), (":", ":")],
}
for b in "()[]{}<>|;:!":
    OPTS[b] = [(b, b)]


def toks(spec):
    """A fixed token sequence from words: kinds of OPTS, or names and quoted texts."""
    o = []
    for w in spec.split():
        if w in OPTS:
            o += OPTS[w]
        elif w == "package":
            o += [("package", "package"), ("string_lit", '"p"')]
        elif w[0] == '"':
            o.append(("string_lit", w))
        elif w[0] == "'":
            o.append(("char_lit", w))
        elif w[0].isupper() or w[0] == "\3":
            o.append(("nt", w))
        else:
            o.append(("tokid", w))
    return o


def go_toks(ts):
    return "{" + ", ".join("{%s, %s}" % (gram.goq(k.replace("\\\\", "\\")), gram.goq(t)) for k, t in ts) + "}"


def go_prog(parts):
    """parts: a string of fixed words, or a list of OPTS keys to choose from."""
    o = []
    for p in parts:
        if isinstance(p, str):
            o.append("\t{%s}," % go_toks(toks(p)))
        else:
            o.append("\t{%s}," % ", ".join(go_toks(OPTS[x]) for x in p))
    left = [0] * len(parts)
    for i in range(len(parts) - 2, -1, -1):
        left[i] = left[i + 1] + (len(toks(parts[i + 1])) if isinstance(parts[i + 1], str) else max(len(OPTS[x]) for x in parts[i + 1]))
        if isinstance(parts[i + 1], str) and ";" in parts[i + 1].split():
            left[i] = parts[i + 1].split().index(";")
    return "var prog = [][][]TokT{\n" + "\n".join(o) + "\n}\n\nvar left = []int{" + ", ".join(map(str, left)) + "}\n"


HEAD = '''package h

import (
	"github.com/goccmack/gogll/v3/lexer"
	"github.com/goccmack/gogll/v3/token"
@IMPORTS@	"vh/ref"
	"vh/sym"
)

type TokT struct{ Kind, Text string }

@PROG@
var types map[string]token.Type

// Setup looks the token types up.
func Setup() {
	types = map[string]token.Type{}
	for t, id := range token.TypeToID {
		types[id] = token.Type(t)
	}
}

// text picks the tokens and returns the input with them.
func text() (in []rune, toks []ref.FTok) {
	for i, opts := range prog {
		o := 0
		if len(opts) > 1 {
			o = sym.Pick(sym.Int("o", 0, len(opts)-1))
		}
		for _, t := range opts[o] {
			at := len(in)
			for _, r := range t.Text {
				in = append(in, char(r))
			}
			toks = append(toks, ref.FTok{Kind: t.Kind, Text: in[at:len(in):len(in)], At: at})
			if t.Kind == ";" {
				in = append(in, '\\n')
			} else {
				in = append(in, ' ')
			}
		}
		sym.Assume(ref.Viable(toks, left[i]))
	}
	for i, t := range toks { // the input has its final place now
		toks[i].Text = in[t.At : t.At+len(t.Text)]
	}
	return
}

func char(r rune) rune {
	switch r {
	case 1:
		c := sym.Rune("c")
		sym.Assume(sym.And(sym.InRunes(c, 1, 127), sym.Not(sym.EqRune(c, '\\'')), sym.Not(sym.EqRune(c, '"')), sym.Not(sym.EqRune(c, '\\\\'))))
		return c
	case 2:
		c := sym.Rune("t")
		sym.Assume(sym.InRunes(c, '0', '9'))
		return c
	case 3:
		c := sym.Rune("n")
		sym.Assume(sym.InRunes(c, 'A', 'Z'))
		return c
	}
	return r
}

// lex returns what the lexer makes of the input.
func lex(in []rune, toks []ref.FTok) *lexer.Lexer {
	l := &lexer.Lexer{I: in}
	for _, t := range toks {
		typ, ok := types[t.Kind]
		if !ok {
			panic("no token type " + t.Kind)
		}
		l.Tokens = append(l.Tokens, token.New(typ, t.At, t.At+len(t.Text), in))
	}
	l.Tokens = append(l.Tokens, token.New(token.EOF, len(in), len(in), in))
	return l
}
'''


def harness(parts, body, imports=()):
    return HEAD.replace("@IMPORTS@", "".join('\t%s\n' % (i if " " in i or i.startswith('"') else '"github.com/goccmack/gogll/v3/%s"' % i) for i in imports)).replace("@PROG@", go_prog(parts)) + body


def show(parts):
    mark = lambda t: t.replace("\1", "?").replace("\2", "?").replace("\3", "?")
    return " ".join(mark(p) if isinstance(p, str) else "<" + "/".join(p) + ">" for p in parts)
