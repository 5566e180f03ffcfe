import json

GRAM = '''
word : letter <letter | number> ;
S : word | "`" | S word | S "`" ;
'''

# @PRE@ text, some arbitrary characters, @POST@ text
SRC = '''package h

import (
	"@LEXER@"
	"vh/ref"
	"vh/sym"
)

var layouts = [][2]string{@LAYOUTS@}

func input() []rune {
	i := sym.Pick(sym.Int("layout", 0, len(layouts)-1))
	in := []rune(layouts[i][0])
	for k := 0; k < @K@; k++ {
		r := sym.Rune("r")
		sym.Assume(@CHARS@)
		in = append(in, r)
	}
	return append(in, []rune(layouts[i][1])...)
}

func Md() {
	in := input()
	sym.SetFile("dir.d/x.@SUF@", string(in))
	l := lexer.NewFile("dir.d/x.@SUF@")
	want := @WANT@
	sym.Assert(len(l.I) == len(in), "no character moves")
	for i := range want {
		sym.Assert(sym.EqRune(l.I[i], want[i]), "@MSG@")
	}
	// what is lexed is the blanked text
	l1 := lexer.New(want)
	sym.Assert(len(l.Tokens) == len(l1.Tokens), "the tokens are those of the text that is left")
	for i, t := range l.Tokens {
		u := l1.Tokens[i]
		sym.TraceInt("l", t.Lext())
		sym.Assert(t.Lext() == u.Lext() && t.Rext() == u.Rext() && t.Type() == u.Type(), "the tokens are those of the text that is left")
	}
	sym.Reach("end")
}
'''

LAYOUTS = [("", ""), ("a\n", "\n```x"), ("ab```cd", "``\ne"), ("€`", "`\n``` é"), ("```\nx1", "\n```\ny2\n```z3"), ("`````", "`"), ("x ```y``", "`` z ```"), ("``` a", "b ``")]


def build(c):
    k = 3 if c.thorough else 2
    c.gen("md", GRAM)
    lay = ", ".join("{%s, %s}" % (json.dumps(a, ensure_ascii=False), json.dumps(b, ensure_ascii=False)) for a, b in LAYOUTS)
    for name, lexer in (("gen", "vh/g/md/lexer"), ("own", "github.com/goccmack/gogll/v3/lexer")):
        for suf, want, msg in (("md", "ref.Md(in)", "prose and fences become spaces, newlines outside stay, code is unchanged"),
                               ("txt", "append([]rune(nil), in...)", "a file without the markdown suffix is lexed as it stands"),
                               ("mdx", "append([]rune(nil), in...)", "a file without the markdown suffix is lexed as it stands")):
            if suf == "mdx" and name == "own":
                continue
            kk = k + 1 if name == "gen" and suf == "md" else k
            chars = "sym.InRunes(r, 0, 0x7f)"
            if name == "own":
                chars = "sym.Or(%s)" % ", ".join("sym.EqRune(r, %s)" % q for q in ("'`'", "'\\n'", "'x'", "'\"'", "'\\t'", "':'"))
            src = SRC.replace("@CHARS@", chars).replace("@LEXER@", lexer).replace("@K@", str(kk)).replace("@LAYOUTS@", lay).replace("@SUF@", suf).replace("@WANT@", want).replace("@MSG@", msg)
            if suf != "md":
                src = src.replace('\t"vh/ref"\n', "")
            c.write("vh/h/%s%s" % (name, suf), "h.go", src)
            c.job("%s %s" % (name, suf), "vh/h/%s%s" % (name, suf), run="Md", need=["end"])
            c.bounds.append("%s lexer, file x.%s: %d layouts of fences around %d arbitrary characters (%s)" % (name, suf, len(LAYOUTS), kk, "ASCII" if name == "gen" else "of ` newline x \" tab :"))
    c.outside.append("non-ASCII characters appear at fixed places only")
