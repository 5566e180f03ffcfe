import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Go code (own go/ssa engine) with z3 deciding every branch and assertion"
COMMON = ("Bounded: every value of the symbolic inputs within the bounds that evidence/%s.json lists, nothing beyond them. "
          "The code is loaded from /repo (and from what gogll generates) on every run. Trusted: the Go SSA builder, the engine's translation "
          "(sampled paths are run natively on every run and compared), z3 4.8.12 (every 97th query is decided again by cvc5), the reference model in harness/. ")
NOTES = {
    "C01": "Generated lexers of a fixed set of grammars covering every construct; from every reachable set of live rule positions, arbitrary following characters.",
    "C02": "As C01, for the tiling of the input.",
    "C03": "Generated and own lexer, token and GLL parser; all characters after fixed prefixes arbitrary.",
    "C15": "ast.Build and items.New run on grammar texts whose literal and set characters are arbitrary; every next character.",
    "C07": "Generated GLL parsers of grammars by hand for every recursion, cycle, empty and ambiguity shape and of seeded random ones; tokens arbitrary.",
    "C08": "As C07, for the forest of every accepted token sequence, against the derivations themselves.",
    "C09": "As C07, for IsAmbiguous, ReportAmbiguous and the single-child accessors.",
    "C10": "As C07, for the errors of every rejected token sequence, against the viable prefixes of the grammar.",
    "C11": "As C07, for the SPPF of every accepted token sequence.",
    "C06": "frstflw.New, lr1/first on ASTs that ast.Build makes of grammar texts whose symbols are arbitrary; against the definitions worked out as formulas.",
    "C12": "Generated Knuth and Pager parsers of LR(1) grammars by hand for every merging hazard and of seeded random ones; tokens arbitrary. The tables themselves for grammars with arbitrary symbols, against the canonical automaton.",
    "C13": "action.GetActions on a state with arbitrary items, contexts and shifts; the Knuth and Pager tables and lr1.Gen for grammars with arbitrary symbols, against the canonical automaton.",
    "C14": "As C12, for the calls into the ast package and the value returned.",
    "C16": "The own parser and ast.Build on grammar texts of which each token is any of a list and every character of a literal or name is arbitrary, against a separate reader of the notation.",
    "C17": "As C16, for ast.Build and sc.Go; and the whole of the main function on texts with a fault, lexer included (the command line left out).",
    "C18": "The whole of gogll's main function, run twice on grammars by hand and on texts with arbitrary tokens; in the second run a symbolic choice of one range over a map enumerates in another order.",
    "C05": "The whole of gogll's main function on grammars in which one character or escape of a literal, any-set, not-set or string is arbitrary: every generated Go file, its literals decoded, against the file generated for a mark in its place; the literal helpers of the own and the generated token package on arbitrary literals.",
    "C20": "The token and symbols packages of generated grammars and gogll's own, executed on every type and on arbitrary token text; and the whole of gogll's main function on grammars whose rule names and literals have arbitrary characters, the tables of the generated token, lexer and parser sources read back.",
    "C19": "The own lexer, token and parser packages against those generated from gogll.md: any character after an input for every state that the grammar gives a lexer; any one token replaced, added or left out in texts of every construct.",
    "C22": "Generated Knuth and Pager parsers of LR(1) grammars by hand and of seeded random ones; every token sequence they reject, against the viable prefixes of the grammar, and the first, second, ... constructor call failing.",
    "C23": "Generated lexers, GLL and LR(1) parsers and gogll's own; every write that lexing, parsing or navigation makes on arbitrary tokens or characters, none of which may go to memory that package variables reach (a violation is replayed in two goroutines under the race detector), and arbitrary pairs of inputs one after the other.",
    "C24": "gogll's own reading of command lines on arbitrary lists of options, and its main function on every combination of parser kind, -a, -v, -resolve_conflicts and an existing ast; every file afterwards compared with what each kind of parser is generated as without further options.",
    "C25": "gogll's main function on grammars with arbitrary names and on arbitrary combinations of rule forms; every Go file that it writes is read back, characters of names still symbolic, and checked for identifiers, declarations, uses, imports, variables, cases and keys.",
    "C04": "Generated and own NewFile, the file content symbolic.",
}
NA = json.load(open(os.path.join(V, "tools", "na.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": TECH,
                       "level": "model_checking", "level_note": COMMON % p + NOTES[p]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check yet.")})
m = {"version": 1, "setup_cmd": "cd engine && HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o /dev/null .", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
