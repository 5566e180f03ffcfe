"""Canonical LR(1) construction, written down independently of gogll's, and
harness for the checks on LR(1) parsers."""
import gllg
import gram


def first_sets(nts, alts):
    nul = gllg.nullable(nts, alts)
    fs = [set() for _ in nts]
    while True:
        ch = False
        for x in range(len(nts)):
            for a in alts[x]:
                for s in a:
                    add = {s} if s < 0 else fs[s]
                    if not add <= fs[x]:
                        fs[x] |= add
                        ch = True
                    if s < 0 or s not in nul:
                        break
        if not ch:
            return nul, fs


EOF = "eof"


def canonical(nts, alts, limit=400):
    """States as (kernel -> closure) and the conflicts (state, terminal, actions)."""
    nul, fs = first_sets(nts, alts)

    def first(seq, la):
        out = set()
        for s in seq:
            if s < 0:
                return out | {s}
            out |= fs[s]
            if s not in nul:
                return out
        return out | {la}

    def closure(items):
        items = set(items)
        todo = list(items)
        while todo:
            x, a, p, la = todo.pop()
            body = (0,) if x == -1 else tuple(alts[x][a])
            if p < len(body) and body[p] >= 0:
                for l in first(body[p + 1:], la):
                    for i in range(len(alts[body[p]])):
                        it = (body[p], i, 0, l)
                        if it not in items:
                            items.add(it)
                            todo.append(it)
        return frozenset(items)

    def body(it):
        return (0,) if it[0] == -1 else tuple(alts[it[0]][it[1]])

    start = closure({(-1, 0, 0, EOF)})
    states, todo, conflicts = {start: 0}, [start], []
    while todo:
        st = todo.pop(0)
        acts = {}
        moves = {}
        for it in st:
            b = body(it)
            if it[2] < len(b):
                moves.setdefault(b[it[2]], set()).add((it[0], it[1], it[2] + 1, it[3]))
                if b[it[2]] < 0:
                    acts.setdefault(b[it[2]], set()).add(("shift",))
            else:
                acts.setdefault(it[3], set()).add(("reduce", it[0], it[1]))
        for t, s in acts.items():
            if len(s) > 1:
                conflicts.append((states[st], t, s))
        for s, k in moves.items():
            n = closure(k)
            if n not in states:
                states[n] = len(states)
                if len(states) > limit:
                    return None, None
                todo.append(n)
    return states, conflicts


# grammars that are LR(1)
GRAMMARS = {
    "expr": gllg.GRAMMARS["expr"],
    "list": gllg.GRAMMARS["list"],
    "paren": gllg.GRAMMARS["paren"],
    "words": gllg.GRAMMARS["words"],
    "tail": '''
S : X Y ;
X : "x" | X "x" ;
Y : "y" Y | empty | "z" ;
''',
    # LR(1) but not LALR(1): merging by core would conflict
    "nolalr": '''
S : "a" A "d" | "b" B "d" | "a" B "e" | "b" A "e" ;
A : "c" ;
B : "c" ;
''',
    # the same, where the conflict would show only further on
    "nolalr2": '''
S : "a" A "d" | "b" A "e" | "a" B "e" | "b" B "d" ;
A : "c" C ;
B : "c" D ;
C : "f" | "g" C ;
D : "f" | "g" D ;
''',
    # Pager's own example
    "pager": '''
X : "a" Y "d" | "a" Z "c" | "a" T | "b" Y "e" | "b" Z "d" | "b" T ;
Y : "t" W | "u" X ;
Z : "t" "u" ;
T : "u" X "a" ;
W : "u" V ;
V : empty ;
''',
    "empties": '''
S : A "b" B | "c" ;
A : "a" A | empty ;
B : empty | "d" B "e" ;
''',
    "nulpre": '''
S : M "x" N ;
M : P Q ;
P : "p" | empty ;
Q : "q" | empty ;
N : P "y" | "z" Q ;
''',
    "stmt": '''
S : "{" L "}" ;
L : empty | L T ";" ;
T : "v" "=" E | S ;
E : E "+" "v" | "v" ;
''',
    "lvalue": '''
S : L "=" R | R ;
L : "*" R | "i" ;
R : L ;
''',
    "state": '''
S : "a" E "c" | "a" F "d" | "b" F "c" | "b" E "d" ;
E : "e" E | "f" ;
F : "e" F | "f" ;
''',
    "deep": '''
S : "a" S "a" | "b" S "b" | "c" ;
''',
    # look-aheads that reach an item only after it was expanded
    "late": '''
S : "(" E ")" | "-" S ;
E : T | E "+" T ;
T : F | T "*" F ;
F : "i" | S ;
''',
    "late2": '''
S : "x" B ;
B : C ;
C : D ;
D : B "z" | "w" ;
''',
    "late3": '''
S : "x" B "y" | "v" D ;
B : C "p" | C ;
C : D | "q" B "q" ;
D : "w" | D "w" ;
''',
    "order": '''
B : "x" C | D ;
A : "y" B "y" ;
C : A | "z" ;
D : C "w" | "w" A ;
''',
}


def rand_lr(seed):
    """A random LR(1) grammar with at least a few states."""
    k = 0
    while True:
        text = gllg.rand_grammar(1000003 * (seed + 1) + k)
        k += 1
        g = gram.parse('package "x"\n' + text)
        nts, terms, alts = gllg.info(g)
        st, cf = canonical(nts, alts)
        if st and not cf and len(st) > 6:
            return text


def ast_go(g):
    """The constructors that a parser calls, recording what they get."""
    nts, _, alts = gllg.info(g)
    o = ['package ast', '', '// Node is what a constructor returns.', 'type Node struct {', '\tX, Alt int', '\tKids []interface{}', '}', '',
         'var Log []*Node', '', 'func rec(x, alt int, kids ...interface{}) (interface{}, error) {', '\tn := &Node{x, alt, kids}', '\tLog = append(Log, n)', '\treturn n, nil', '}', '']
    for x, nt in enumerate(nts):
        for a, b in enumerate(alts[x]):
            ps = ", ".join("p%d" % i for i in range(len(b)))
            o.append("func %s%d(%s) (interface{}, error) { return rec(%d, %d%s) }" % (nt, a, ps + (" interface{}" if b else ""), x, a, "".join(", p%d" % i for i in range(len(b)))))
    o.append("func G00(p0 interface{}) (interface{}, error) { return p0, nil }")
    return "\n".join(o) + "\n"


def gen(c, name, text, flags):
    """Generate an LR(1) parser that uses the recording constructors."""
    g = gram.parse('package "x"\n' + text)
    c.write("vh/g/%s/ast" % name, "ast.go", ast_go(g))
    return c.gen(name, text, flags)
