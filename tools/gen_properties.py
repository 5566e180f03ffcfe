import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
GL="gen/golang/lexer/lexer.go"
p("C01","Generated lexers tokenise every input as the lexical rules say",
 "From each token start, a generated lexer reads the longest run of characters that is still a prefix of some token of the grammar. If that run is itself a token it is emitted with exactly that extent and with the type of the rule (or string literal) that matches it, a string literal taking precedence over a lexical rule; otherwise an Error token is emitted that covers the run and the one character that ended it. This holds for every input and every kind of rule the grammar language offers (groups, options, repetition, alternation, character classes, any/not sets, unicode sets, references to other rules).",
 ["programs","inputs"],"every grammar of lexical rules and string literals, and every input string over all of Unicode",
 "Tests lex a handful of fixed strings with a few generated lexers; the claim is over every rune sequence, including runes in overlapping classes, and every combination of rules.",
 ["lex/item/item.go","lex/item/pos/pos.go","lex/items/items.go","lex/items/event/event.go",GL,"ast/lex.go"],
 [("item moves and epsilon closure build the automaton","lex/item/item.go Emoves/Move"),("subset construction over overlapping character events","lex/items/items.go, lex/items/event/event.go"),("generated transition functions, accept table and longest-match scan","gen/golang/lexer/lexer.go scan/nextState/accept")],
 ["tokens returned by the generated lexer's New"])
p("C02","Tokens tile the input: nothing lost, duplicated or out of order",
 "For every input, lexing terminates without panicking and yields tokens in strictly increasing, non-overlapping, non-empty extents inside the input, followed by exactly one end-of-file token at the input's length. Every character not covered by a token is white space or belongs to a suppressed token, suppressed tokens never appear in the result, no token starts with white space, and each token's literal is exactly the input text of its extent.",
 ["inputs","programs"],"every rune sequence, valid or not, given to every generated lexer and to gogll's own lexer",
 "The tests only lex inputs that are valid for their grammar; error tokens, trailing white space, unterminated tokens and suppressed tokens next to errors are not sampled.",
 [GL,"gen/golang/token/token.go","lexer/lexer.go","token/token.go"],
 [("white space skipping, extent advance and EOF token","gen/golang/lexer/lexer.go New/scan/add"),("suppressed-token filter","gen/golang/token/token.go Suppress"),("literal slice of the input","gen/golang/token/token.go Literal")],
 ["Lexer.Tokens"])
p("C03","Reported line and column match the input text",
 "The line reported for a token, or for any offset, is one more than the number of newlines before it, and the column is one plus the width of the characters since the last newline, a tab counting four. The lexer's offset, the lexer's token position, the token's own position and the position in a parse error all agree for the same token.",
 ["inputs"],"every input text and every offset in it",
 "No test checks positions; the property ranges over every mixture of tabs, newlines and multi-byte characters.",
 [GL,"gen/golang/token/token.go","lexer/lexer.go","token/token.go","gen/golang/gll/parser.go"],
 [("position from offset","gen/golang/lexer/lexer.go GetLineColumn; gen/golang/token/token.go GetLineColumn"),("error position","gen/golang/gll/parser.go parseError")],
 ["GetLineColumn, GetLineColumnOfToken, parse Error.Line/Column"])
p("C04","Markdown prose is blanked and code blocks are left alone",
 "When a file with the markdown suffix is lexed, every character outside triple-backtick fenced blocks, and the fences themselves, become a space, except that newlines outside the fences stay; every character inside a fenced block is unchanged, and no character moves. A file without the markdown suffix is lexed as it stands.",
 ["inputs"],"every file content, including unterminated fences, runs of backticks and fences at the very start or end",
 "Tests lex only well-formed markdown; fence boundaries at the end of the input and unbalanced fences are never sampled.",
 [GL,"lexer/lexer.go"],
 [("fence scanner","gen/golang/lexer/lexer.go NewFile/loadMd; lexer/lexer.go NewFile/loadMd")],
 ["Lexer.I after NewFile"])
p("C05","Literals and escapes denote the same characters everywhere",
 "A character or string literal in a grammar, escaped or not, denotes the same characters in the generated lexer's conditions, in set expressions, in the generated token tables and in the text helpers of tokens: stripping a literal's delimiters removes exactly the delimiters, and resolving escapes replaces each escape by the one character it names and leaves everything else alone.",
 ["inputs","programs"],"every literal that the grammar language admits, in every position where a literal may occur",
 "Tests use a few literals without unusual escapes; the claim ranges over all literals and all consumers of them.",
 ["token/token.go","gen/golang/token/token.go","gen/golang/lexer/lexer.go","ast/lex.go","util/runeset/runeset.go","gen/golang/utils/utils.go"],
 [("escape resolution","gen/golang/token/token.go LiteralStripEscape/LiteralStringStripEscape"),("printing of character conditions and rune sets","gen/golang/lexer/lexer.go getCondition; util/runeset/runeset.go String"),("string literals to character sequences","ast/lex.go StringLitToTokID")],
 ["token.Token literal methods; generated conditions; generated token tables"])
p("C06","First and Follow sets are exactly the least fixpoint",
 "For every context-free grammar the computed First set of each symbol and symbol string, and the Follow set of each nonterminal, contain exactly the terminals (with empty and end-of-input markers) given by the textbook least fixpoint definition, independent of the order of rules and alternates.",
 ["programs"],"every syntax grammar: any mix of nullable, left-recursive, mutually recursive and unreachable rules",
 "The unit tests compare a few fixed grammars; a missing or spurious member only shows for particular nullable or recursive shapes.",
 ["frstflw/frstflw.go","lr1/first/first.go"],
 [("first fixpoint","frstflw/frstflw.go genFirstSets/FirstOfString; lr1/first/first.go"),("follow fixpoint","frstflw/frstflw.go genFollow")],
 ["FF.FirstOfSymbol, FirstOfString, Follow; first.First"])
p("C07","Generated GLL parsers accept exactly the language of the grammar",
 "For every context-free grammar, including left-recursive, ambiguous, cyclic and empty-producing ones, parsing terminates for every token sequence and succeeds exactly when the sequence is derivable from the start symbol. The verdict does not depend on the iteration order of unordered containers.",
 ["programs","inputs"],"every grammar and every token sequence",
 "Tests parse a few accepted strings per grammar; rejections and the whole space of short token sequences are not covered.",
 ["gen/golang/gll/parser.go","gen/golang/gll/codex.go","gen/golang/gll/testselect.go","gen/golang/gll/slots/slots.go","gen/golang/gll/bsr/bsr.go","gslot/gslot.go","frstflw/frstflw.go","parser/parser.go"],
 [("descriptor and call-return-forest engine","gen/golang/gll/parser.go call/rtn/ntAdd/dscAdd"),("lookahead tests and follow sets","gen/golang/gll/testselect.go"),("slot code per alternate","gen/golang/gll/codex.go")],
 ["parser.Parse"])
p("C08","The parse forest holds exactly the derivations of the input",
 "After a successful parse the forest reached from the roots contains exactly the binary derivation steps that occur in some derivation of the input: every reported subtree spans the tokens its rule derives, child lookup by position or by symbol returns children whose extents abut and whose symbols are the rule's, terminal children are the tokens at that extent, and no derivable subtree is missing.",
 ["programs","inputs"],"every grammar and every accepted token sequence, ambiguous ones included",
 "Tests walk the forest for a handful of inputs and only look at the parts they print.",
 ["gen/golang/gll/bsr/bsr.go","parser/bsr/bsr.go","gen/golang/gll/parser.go"],
 [("BSR set construction","gen/golang/gll/bsr/bsr.go Add/AddEmpty/insert"),("child navigation","gen/golang/gll/bsr/bsr.go GetNTChildI/GetNTChildrenI/GetTChildI/getString"),],
 ["bsr.Set.GetRoots/GetAll, BSR navigation methods"])
p("C09","Ambiguity is reported exactly when there is more than one derivation",
 "The parse forest is reported ambiguous exactly when some part of it reached from its roots has more than one derivation, and the single-child accessors never fail on an unambiguous forest.",
 ["programs","inputs"],"every grammar and every accepted token sequence",
 "The tests contain a few ambiguous examples; exactness over all short inputs, for alternates with three or more symbols, is not sampled.",
 ["gen/golang/gll/bsr/bsr.go","parser/bsr/bsr.go"],
 [("ambiguity scan","gen/golang/gll/bsr/bsr.go IsAmbiguous/getNTChildI")],
 ["bsr.Set.IsAmbiguous, BSR.GetNTChild*"])
p("C10","A failed parse reports the farthest failure, correctly",
 "When a GLL parse fails it returns at least one error and no forest; the errors are ordered by descending input position, the first is at the farthest token that no derivation of any prefix can pass, its token, line and column are those of that position, and its expected set is non-empty and does not contain the offending token. When a parse succeeds it returns no errors.",
 ["programs","inputs"],"every grammar and every rejected token sequence",
 "Tests hardly exercise rejection; the first error's position and expected set are never checked.",
 ["gen/golang/gll/parser.go","parser/parser.go"],
 [("error collection and ordering","gen/golang/gll/parser.go parseError/sortParseErrors")],
 ["error list returned by parser.Parse"])
p("C11","The shared packed parse forest encodes exactly the derivations",
 "The SPPF made from a forest has one symbol node per nonterminal instance, whose packed alternatives are exactly the derivations of that instance and whose children abut, so that the yield of its root is the input. Building it leaves the forest and the parser tables as they were, so that doing it twice, or navigating afterwards, gives the same result.",
 ["programs","inputs"],"every grammar and every accepted token sequence",
 "The tests only print a graph for single inputs.",
 ["gen/golang/gll/sppf/sppf.go","gen/golang/gll/bsr/bsr.go","sppf/sppf.go"],
 [("BSR to SPPF","gen/golang/gll/bsr/bsr.go ToSPPF/extendedSlot")],
 ["sppf.SymbolNode tree from bsr.Set.ToSPPF"])
p("C12","LR(1) parsers accept exactly the language, whichever construction",
 "For every grammar without LR(1) conflicts, the parser generated with the Knuth construction and the one generated with Pager's practical general method both accept exactly the sentences of the grammar and reject everything else, and both terminate on every token sequence.",
 ["programs","inputs","configurations"],"every LR(1) grammar, every token sequence, both table constructions",
 "No test generates an LR(1) parser; the property needs every look-ahead of every item in every state to be right.",
 ["lr1/states/state.go","lr1/states/states.go","lr1/states/contextset.go","lr1/states/configgroupset.go","lr1/knuth/states.go","lr1/pgm/states.go","lr1/items/item.go","lr1/action/action.go","gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/actiontable.go","gen/golang/lr1/parser/gototable.go","gen/golang/lr1/parser/productionstable.go"],
 [("item closure and goto","lr1/states/state.go"),("state merging by weak compatibility","lr1/pgm/states.go, lr1/states/configgroupset.go"),("tables and shift/reduce driver","gen/golang/lr1/parser")],
 ["generated parser.Parse; lr1 tables"])
p("C13","LR(1) conflicts are reported exactly, and resolved as documented",
 "Parser generation in LR(1) mode reports a conflict exactly when some state demands two different actions on the same look-ahead, and refuses to generate unless automatic resolution is on. With it on, shift wins over reduce and the earlier production wins over the later, whatever the order in which the actions are met, and every table entry without a conflict is unaffected.",
 ["programs","configurations"],"every grammar, every pair of competing actions in every order, resolution on and off",
 "No test covers conflicts at all.",
 ["lr1/action/action.go","gen/golang/lr1/parser/actiontable.go","lr1/action/conflict.go","lr1/gen.go","lr1/states/state.go","lr1/items/item.go"],
 [("conflict test and resolution","lr1/action/action.go"),("reporting","lr1/gen.go handleConflicts")],
 ["conflicts returned with the action table"])
p("C14","LR(1) parsing builds the AST bottom-up with the right children",
 "During a successful LR(1) parse, the constructor of each production is called once per reduction, in bottom-up left-to-right order, with the attributes of exactly the symbols of that production in order, and the value returned for the start symbol is the result of the parse.",
 ["programs","inputs"],"every LR(1) grammar and every accepted token sequence, with productions of any length including empty ones",
 "No test runs a generated LR(1) parser.",
 ["gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/productionstable.go","gen/golang/lr1/ast/ast.go"],
 [("stack driver","gen/golang/lr1/parser/parser.go Parse/popN"),("productions table","gen/golang/lr1/parser/productionstable.go")],
 ["calls into the generated ast package"])
p("C15","Overlapping character classes never hide a token",
 "When the characters that two lexical rules allow next overlap, in part or wholly, the lexical automaton keeps every alternative alive that the next character can start, and no alternative that it cannot. This holds for every pairing of character literals, any-sets, not-sets, unicode classes and unicode sets and for every choice of characters in them.",
 ["programs","inputs"],"every combination of character, any, not and unicode-class events with arbitrary characters, and every next character",
 "The tests list some 20 pairs of events and judge the code's own classification of them.",
 ["lex/items/event/event.go","lex/items/items.go","util/runeset/runeset.go","lex/item/item.go"],
 [("subset relation and ordering of events","lex/items/event/event.go Subset"),("set algebra","util/runeset/runeset.go"),("next state per event","lex/items/items.go")],
 ["transitions of the generated automaton, in the order they are tested"])
p("C16","The grammar that is compiled is the grammar that was written",
 "From any well-formed grammar text the front end builds exactly the rules, alternates and symbols written, in order: the same left-hand sides, alternates, symbol names and literals, the same nullable alternates, the same nesting and operators in lexical rules, and a reference to another lexical rule standing for that rule's body without altering it or any other rule.",
 ["inputs","programs"],"every well-formed grammar text, for any choice of names, order and number of rules, alternates and symbols",
 "Tests build a few fixed grammars; aliasing between rules only shows for particular combinations of references and lengths.",
 ["ast/build.go","ast/ast.go","ast/lex.go","cfg/cfg.go","symbols/symbols.go","gslot/gslot.go"],
 [("AST build from the parse forest","ast/build.go"),("expansion of regular definitions","ast/lex.go"),("symbol and slot numbering","symbols/symbols.go, gslot/gslot.go")],
 ["ast.Build result, gslot slots"])
p("C17","Ill-formed grammars are rejected, well-formed ones are not",
 "A grammar that uses a symbol that is not declared (in a lexical rule: not declared before), that declares two rules of the same name, or that has in a syntax rule a string literal that is empty or contains white space is rejected with a diagnostic that gives the symbol or its line and column, before any code is generated; a grammar without such faults passes these checks.",
 ["inputs","programs"],"every assignment of names to the rules and uses in a grammar",
 "The tests check two fixed bad grammars.",
 ["sc/sc.go","ast/build.go","ast/lex.go","main.go"],
 [("semantic checks","sc/sc.go Go; ast/build.go")],
 ["exit status and message of gogll"])
p("C18","Generated artefacts do not depend on unordered iteration",
 "For a fixed grammar and options, the lexical automaton, the slot numbering, the look-ahead sets, the LR(1) states and tables, and the token numbering come out the same on every run, however unordered containers happen to be iterated.",
 ["programs","schedules"],"every grammar and every order in which unordered containers may be enumerated",
 "A test run sees one iteration order; a dependency shows only under another.",
 ["lex/items/items.go","symbols/symbols.go","gslot/gslot.go","frstflw/frstflw.go","lr1/states/states.go","gen/golang/lr1/parser/actiontable.go","gen/golang/gll/testselect.go"],
 [("sorting of collected elements before use","lex/items/items.go, frstflw/frstflw.go, ast/lex.go, symbols/symbols.go")],
 ["generated tables"])
p("C19","gogll's own front end is the one its grammar describes",
 "The lexer and parser that gogll itself runs on behave, on every input, as the lexer and parser gogll generates today from its own published grammar: same tokens, same types, same verdict, same forest.",
 ["inputs"],"every input text",
 "No test regenerates the front end and compares behaviour; two hand-carried copies can drift on inputs no test contains.",
 ["gogll.md","lexer/lexer.go","token/token.go","parser/parser.go","parser/bsr/bsr.go","parser/slot/slot.go","parser/symbols/symbols.go","gen/golang/lexer/lexer.go"],
 [("checked-in generated code","lexer, token, parser")],
 ["lexer.New tokens; parser.Parse result"])
p("C20","Each terminal has exactly one token type, with consistent names",
 "Every terminal of a grammar has one token type, distinct from all others and from Error and end-of-file; the name, printed form and suppression of a token and the look-up by name all refer to the same terminal, for every type.",
 ["programs","inputs"],"every set of terminals and every token type value",
 "Tests touch the few types their inputs contain.",
 ["symbols/symbols.go","gen/golang/token/token.go","token/token.go"],
 [("numbering","symbols/symbols.go"),("tables","gen/golang/token/token.go")],
 ["token.Type methods and tables"])
p("C21","Generated Rust parsers agree with the Go ones",
 "The lexer and parser generated with the Rust target give, for every grammar and input, the same tokens, verdict and forest as those generated for Go.",
 ["programs","inputs"],"every grammar and every input",
 "No test generates or runs Rust code.",
 ["gen/rust"],[("Rust templates","gen/rust")])
p("C22","A failed LR(1) parse reports the first token that cannot continue",
 "When an LR(1) parse fails it returns no result and an error that gives the line, the column and the text of the first token with which no sentence of the grammar can go on, or of the end of the input if the whole input only begins sentences. The error names what was expected: never the offending token, always something, and with the Knuth construction exactly the terminals with which a sentence could have gone on there. When a constructor of the AST returns an error, the parse ends there without a result, no further constructor is called, and the error of the parse says what the constructor's error says.",
 ["programs","inputs","faults"],"every LR(1) grammar, both constructions, every rejected token sequence, and every constructor call that may fail",
 "No test has an LR(1) parser reject anything, or a constructor fail.",
 ["gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/errors.go","gen/golang/lr1/parser/actiontable.go","gen/golang/token/token.go"],
 [("error detection and message","gen/golang/lr1/parser/parser.go Parse/Error/newError/popNonRecoveryStates"),("text of the error","gen/golang/lr1/parser/errors.go String")],
 ["error and result of the generated Parser.Parse"])
p("C23","Parses do not influence one another",
 "Any number of generated lexers and parsers may be used in one program, one after another, one inside a constructor of another, or at the same time: lexing, parsing, and everything that can be asked of tokens, errors, forest and SPPF never writes to memory that another use reaches, and gives the answer it would give alone.",
 ["programs","inputs","schedules"],"every grammar, every pair of inputs, and every interleaving of their lexing, parsing and navigation",
 "Tests parse one input after another and in one goroutine; a write to a shared table shows only in what a later or simultaneous parse makes of it.",
 ["gen/golang/gll/parser.go","gen/golang/gll/testselect.go","gen/golang/gll/bsr/bsr.go","gen/golang/gll/slots/slots.go","gen/golang/gll/symbols/symbols.go","gen/golang/lexer/lexer.go","gen/golang/token/token.go","gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/actiontable.go","gen/golang/lr1/parser/gototable.go","gen/golang/lr1/parser/productionstable.go","parser/parser.go","parser/bsr/bsr.go","lexer/lexer.go"],
 [("tables in package variables, read by every parse","gen/golang/gll/testselect.go, slots.go, lr1/parser/*table.go"),("state kept in the parser, the BSR set and the stack of one parse","gen/golang/gll/parser.go newParser; gen/golang/lr1/parser/parser.go New")],
 ["writes to package variables and what they reach; results of parses one after another"])
p("C24","A run writes exactly what its options ask for, where they ask for it",
 "A command line that gogll's use describes is read as described, and any other ends the run with an error; a run writes only below its output directory (that of -o, or else that of the source file); it writes every package of the kind of parser asked for (GLL by default, LR(1) for -knuth and -pager) and no other; an existing LR(1) ast and files that gogll does not generate are kept unless -a asks for all files (which concerns the ast only); -v adds reports and changes no generated code; an LR(1) parser is not generated with conflicts unless -resolve_conflicts is given.",
 ["configurations","inputs","histories"],"every command line and every state of the output directory",
 "Tests run gogll with one or two fixed command lines, each into a directory prepared for it; what an option does to the files of another, or to a file that exists already, is not looked at.",
 ["main.go","cfg/cfg.go","gen/golang/lr1/ast/ast.go","gen/golang/gll/parser.go","gen/golang/gll/codex.go","gen/golang/lr1/lr1.go","gen/golang/lexer/lexer.go","gen/golang/token/token.go","gen/firstfollow/firstfollow.go","gen/lexfsa/lexfsa.go","gen/slots/slots.go","lr1/gen.go"],
 [("flags read and checked","cfg/cfg.go GetParams"),("which generators run","main.go main"),("an ast that exists is kept","gen/golang/lr1/ast/ast.go Gen")],
 ["files written and kept","what options other than the kind of parser change","exit codes of command lines"])
p("C25","The code generated is Go that compiles",
 "For every well-formed grammar, with names of any letters and digits, any number of rules and alternates, with or without lexical and syntax rules, the Go code generated compiles: its names are Go identifiers, no package declares a name twice, every name used is declared, no import or variable is unused, no map key or case is there twice.",
 ["programs","configurations"],"every well-formed grammar, in its names, its rules and the kind of parser",
 "Tests compile what is generated for a few grammars of ordinary names; a clash of two derived names, or code left out or left unused for a rare form of grammar, needs the very grammar.",
 ["main.go","gen/golang/gll/codex.go","gen/golang/gll/parser.go","gen/golang/gll/testselect.go","gen/golang/gll/slots/slots.go","gen/golang/gll/symbols/symbols.go","gen/golang/gll/bsr/bsr.go","gen/golang/lexer/lexer.go","gen/golang/token/token.go","gen/golang/lr1/ast/ast.go","gen/golang/lr1/parser/productionstable.go","gen/golang/lr1/parser/actiontable.go","gen/golang/lr1/parser/gototable.go","gslot/gslot.go","lr1/basicprod/basicprod.go"],
 [("names derived from the grammar's","gslot/gslot.go Label; lr1/basicprod; gen/golang/lr1/ast/ast.go"),("templates of code","gen/golang")],
 ["package-level names, imports, variables, cases and keys of all files generated"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
