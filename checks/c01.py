import gram
import lexg


def build(c):
    k = 3 if c.thorough else 2
    for name, text in lexg.grammars(c, 48, 150).items():
        g = c.gen(name, text)
        if not g:
            continue
        acc = gram.Auto(g).access(200)
        a, src = lexg.harness_go(g, k, acc, lexg.TOKENS)
        c.write("vh/h/" + name, "h.go", src)
        c.job("lex " + name, "vh/h/" + name, need=["end", "token"] if name.startswith("rnd") else ["end", "token", "error"])
        c.bounds.append("grammar %s: %d access strings, then %d arbitrary characters" % (name, len(acc), k))
