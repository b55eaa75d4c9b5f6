import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A parser accepts exactly the language its grammar description denotes",
"For every grammar description that is accepted, a parser built from it never accepts a token sequence outside the language denoted by the EBNF rules, and the syntax tree reported through node hooks is always a valid derivation of exactly the consumed tokens. Every sentence with a unique derivation is accepted with that derivation, provided that no choice has to be revised after a node or nested group has ended.",
["programs","inputs"],"all grammar descriptions (nesting of sequences, variants, optional and repeated groups, recursive nodes, literals, token types, end-of-input items; a referenced node always consumes at least one token) and all token sequences",
"Existing tests compare about thirty fixed grammars with hand-written state tables and a few dozen fixed inputs; the space of group nestings and their interaction (shared loop states, skip rules, copied rules) is infinite.",
["langdef/chunks.go","langdef/result.go","langdef/parser.go","parser/parser.go"],
[("state machine construction","langdef/chunks.go BuildStates, langdef/result.go"),("rule lookup and stack machine","parser/parser.go findRules/applyRule/popNode")],
["result and error of Parser.Parse","node hook events"])
p("C02","Lookahead picks the variant that survives longest and leaves no trace",
"When several variants start with the same tokens, the parser follows the one that matches the input however long the common prefix is, at any number of nested or successive conflicts. Node hooks see only the chosen variant, every fetched token reaches token hooks exactly once and node hooks at most once, in source order, and nothing of the abandoned variants is observable.",
["programs","inputs"],"all grammars with conflicting variants (common prefixes of any length, splits inside splits, conflicts inside nested nodes and loops, side tokens within the lookahead, several lexer groups) and all inputs",
"Tests contain a handful of two-way conflicts with short prefixes; branch bookkeeping errors need particular orders of splits, deaths and ends of branches.",
["parser/parser.go","parser/misc.go"],
[("parallel branch tracing and replay","parser/parser.go resolveConflict/nextRule, parser/misc.go")],
["node hook events","token hook calls","result of Parser.Parse"])
p("C03","Node hook events are well nested, complete, and carry exact results",
"For each parse the hook of every node sees: creation with the first token of the node (an empty starting token for the root), then child announcements, child results and own tokens in source order, then one end event; events of different nodes nest like the nodes do, and the reported open-node stack is the true one. Each child result delivered is exactly the value returned by that child's end event (or that of the nearest hooked descendant), and the value returned for the root is the parse result; every consumed token is delivered to exactly one node.",
["programs","inputs"],"all grammars, inputs, and combinations of per-node, fallback and absent hooks",
"Tests check a few fixed trees; ordering/result plumbing across arbitrary depth, simultaneous node ends and partially hooked grammars is not covered.",
["parser/parser.go","parser/hooks.go","parser/misc.go"],
[("node stack and hook dispatch","parser/parser.go pushNode/popNode/handleNodeToken"),("default pass-through hook","parser/hooks.go defaultNodeHook")],
["NodeHook and NodeHookInstance calls","NodeContext.NodeStack"])
p("C04","Side tokens never influence syntax and are delivered exactly once",
"Inserting or removing side tokens (spaces, comments) between tokens changes neither acceptance nor the syntax tree of non-side tokens, and side tokens reach node hooks only when explicitly requested. When requested, all tokens (side ones included) are delivered exactly once, in exact source order, so that concatenating delivered tokens reproduces all tokens of the parsed text; side tokens after the last token of a node are delivered to an ancestor that is still open, not to the finished node.",
["programs","inputs"],"all grammars with side tokens, all placements of side tokens, with and without the option",
"Tests have three or four fixed placements; postponed delivery depends on which nodes end simultaneously and where conflicts are resolved.",
["parser/parser.go","parser/misc.go"],
[("postponed side tokens","parser/parser.go handleNodeSides/handleNodeToken/popNode")],
["node hook token events"])
p("C05","Tokens tile the source: content, type and position are faithful",
"Scanning any source yields tokens whose content is exactly the source text at their recorded position, in increasing order without overlaps, and the text between tokens is only text the grammar defines as ignorable; every byte is accounted for up to the end or to the reported lexical error. At each position the token is the first defined type (in definition order, within a group) whose expression matches there, and the match is the one that expression itself would find.",
["programs","inputs"],"all token definitions (incl. several groups, side and error tokens) and all byte sequences incl. invalid UTF-8",
"Lexer tests use one regular expression and a few strings.",
["lexer/lexer.go","lexer/token.go","parser/parser.go","source/source.go"],
[("combined regular expression and group index mapping","lexer/lexer.go matchToken, parser/parser.go New")],
["token hook calls","lexer.Next results"])
p("C06","Line/column and byte offset conversions are exact and order independent",
"For any source text, the line and column reported for an offset are the 1-based number of the line and the 1-based number of the rune in that line, for every offset and regardless of the order in which positions were queried before; converting line and column back gives the offset of that rune, and out-of-range arguments are clamped as documented.",
["inputs","histories"],"all texts (empty lines, no trailing newline, multi-byte and invalid UTF-8) and all sequences of queries",
"Tests query a few positions of one small text in ascending order; a cached last position makes the answer history dependent.",
["source/source.go"],
[("line start table and last line cache","source/source.go LineCol/findLineIndex/Pos")],
["Source.LineCol, Source.Pos, Pos.LineCol, Queue.LineCol"],[("last line hint","index of the line found by the previous query","source/source.go Source")])
p("C07","A source queue behaves like a list of (source, position) pairs",
"After any sequence of operations (append, prepend, next, skip, rewind, seek, snapshot, restore) the current source, its position, the remaining sources and their saved positions are those of a simple list model with the documented treatment of nil and empty sources; positions always stay within the current content. Restoring a snapshot brings back exactly the state at the time it was taken, any number of times, whatever happened in between.",
["histories"],"all operation sequences over all source lengths incl. empty ones and extreme arguments",
"Tests run a few scripted sequences without snapshots of mutated queues.",
["source/source.go","internal/queue/queue.go"],
[("queue operations","source/source.go Queue"),("ring buffer","internal/queue/queue.go")],
["Queue.Source/Pos/SourcePos/ContentPos/Eof/IsEmpty/NextSource"])
p("C08","Newline normalisation converts every CR and CRLF and nothing else",
"Normalising any byte sequence gives exactly the text with each CR LF pair and each lone CR replaced by a single LF; no other byte is added, lost or changed, and normalising again changes nothing.",
["inputs"],"all byte sequences",
"Tests have a dozen strings; the in-place shifting has state carried across arbitrary runs.",
["source/source.go"],[("in-place compaction","source/source.go NormalizeNls")],["NormalizeNls result"])
p("C09","Fetching a token of given types obeys the lexer contract",
"A request for given token types returns either a token of one of these types found at the current position after ignorable text, or nothing with the queue left where the attempt failed without consuming any token text, or a lexical error with the position unchanged at the offending text. At the end of a source exactly one end-of-file token for it is returned and the queue moves to the next source, and an empty queue yields end-of-input every time; an unrestricted request never returns nothing.",
["inputs","histories","configurations"],"all expressions/type maps, all type sets, all texts and all interleavings of calls and queue operations",
"Tests use one lexer and fixed masks.",
["lexer/lexer.go"],[("fetch/matchToken/NextOf","lexer/lexer.go")],["Lexer.Next, Lexer.NextOf results and queue position"])
p("C10","Any grammar description is either compiled or rejected with a located error",
"For every byte sequence, compiling it as a grammar description terminates in time and memory polynomial in its size (with templates expanded) and returns either a grammar or an error of the language-definition/lexical class, never both, never neither, and never crashes. Errors tied to a piece of the text carry its source name and a line and column inside the text.",
["inputs"],"all byte sequences: random, mutated and truncated descriptions, pathological nesting and reference structures",
"Tests list about fifty malformed descriptions; truncation at arbitrary points and pathological reference graphs are not explored.",
["langdef/parser.go","langdef/chunks.go","langdef/result.go"],
[("recursive descent over tokens","langdef/parser.go"),("dependency resolution and recursion check","langdef/parser.go resolveDependencies/findRecursions")],
["langdef.ParseString result, error, CPU time and heap of the call"])
p("C11","Parsing always terminates with a result or a located error",
"For every accepted grammar and every input, parsing terminates without crashing, with either success or an error of the library's own type; it never returns both and never loops without consuming input. Lexical errors and errors about a wrong token name its source and the line and column of an existing position.",
["programs","inputs"],"all accepted grammars incl. ones with fully optional loops and end-of-input-only states, and all inputs incl. invalid UTF-8 and truncated ones",
"Tests only run inputs meant to succeed or fail in one known way.",
["parser/parser.go","lexer/lexer.go"],
[("main loop","parser/parser.go parse"),("error construction","parser/parser.go getExpectedToken, parser/errors.go")],
["result, error and CPU time of Parser.Parse"])
p("C12","A syntax error points at the first token that cannot continue the input",
"When input is rejected in a grammar needing no revision of finished nodes, the error position is that of the first token after which no sentence of the language can follow; the error kind tells apart an unexpected token, premature end of input, text that is no token at all, and an error token, and the named expected item is one that could indeed have come next.",
["programs","inputs"],"all grammars (single lexer group) and all erroneous inputs",
"Tests check error codes for a few inputs but not positions or expected items across grammars.",
["parser/parser.go","parser/errors.go","lexer/lexer.go"],
[("error reporting","parser/parser.go parse/getExpectedToken")],["llx.Error code, line, column, message"])
p("C13","Token hooks are selected, ordered and applied as documented",
"Each token passes hook layers from the innermost grammar layer to the user's hooks; in each layer the most specific hook (text, then type, then fallback; special end tokens only by name) is called exactly once per token, and tokens it emits continue only to outer layers, in order, after or instead of the hooked one. End-of-file and end-of-input tokens are never lost, and emitting a token of unknown type is an error.",
["programs","inputs","configurations"],"all assignments of hooks to layers and all emit/drop/insert decisions",
"Tests exercise one or two layers with one fixed behaviour each.",
["parser/parser.go","parser/hooks.go"],
[("layered pull pipeline","parser/parser.go pullToken/handleToken/newHookLayer")],
["token hook calls and the token stream seen by node hooks"])
p("C14","Peeking ahead from a token hook has no effect on parsing",
"Peeked tokens are exactly the pending tokens of inner layers followed by the raw tokens of the remaining sources, one further per call, however many sources this spans; after the hook returns, parsing proceeds as if nothing had been peeked, whether or not peeking hit an error or the end of input.",
["programs","inputs","histories"],"all numbers of peeks at all tokens in all layers over all source splits",
"One fixed test peeks a fixed number of tokens.",
["parser/hooks.go","source/source.go"],
[("peek with queue snapshot","parser/hooks.go PeekToken/restore")],["PeekToken results","parse events with and without peeking"])
p("C15","Several queued sources form one token stream",
"Parsing a text cut at token boundaries into several queued sources gives the same syntax tree as parsing it whole, each token referring to its own source and position, with one end-of-file event per non-empty source in order and one end-of-input event. Sources inserted by hooks while parsing are read completely before the interrupted one continues exactly where it stopped.",
["inputs","histories"],"all cuts of all inputs and all insertions of sources by hooks",
"Tests use two fixed sources.",
["source/source.go","parser/parser.go","lexer/lexer.go"],
[("queue switching on end of source","lexer/lexer.go fetch, source/source.go Queue")],["token hook calls, node hook events"])
p("C16","Parsing stops right after the root node and leaves the rest in the queue",
"Without the full-source option, after a successful parse the queue is positioned between the end of the last consumed token and the start of the next non-side token, so parsing the remainder with the same or another parser continues without losing or repeating any token. With the option, parsing succeeds if and only if nothing but side tokens remains, and the error otherwise points at the first remaining token.",
["programs","inputs"],"all grammars whose root can end before the input does, incl. after multi-token lookahead, one or several sources",
"Tests check one case without conflict resolution.",
["parser/parser.go","source/source.go"],
[("rewinding to unused tokens","parser/parser.go parse")],["Queue position after Parse","results of chained parses"])
p("C17","Directives change matching exactly as documented",
"Caseless types match upper-case literals regardless of letter case, reserved literals never match a token type, whitelisted literals or literal types are the only ones usable or matched, token types in separate groups are matched only where expected, external types appear only through hooks, and error types make the parse fail with an error containing the captured text. The order of directives relative to token definitions makes no difference.",
["programs","inputs"],"all combinations and orders of directives, literals and token types",
"Tests check each directive in isolation on one grammar.",
["langdef/parser.go","parser/parser.go"],
[("flags and literal tables","langdef/parser.go parseDir/assignTokenGroups"),("rule key order","parser/parser.go possibleRuleKeys")],["langdef result, parse result"])
p("C18","Literals, escapes and templates mean what the description language says",
"Every string literal denotes exactly the bytes documented for its quoting style and escapes, and a literal in a rule matches a token if and only if the token text equals it; invalid escapes are rejected. A token expression assembled from templates and pieces is exactly the concatenation of their texts.",
["inputs","programs"],"all literals (both quote styles, all escapes, any bytes) and all template compositions",
"Tests check one literal per escape.",
["langdef/parser.go"],[("string decoding","langdef/parser.go processStringToken"),("templates","langdef/parser.go fetchRegexp")],["names and expressions of tokens in the compiled grammar"])
p("C19","Generated grammar files reproduce the compiled grammar exactly",
"For every accepted description the generator's JSON output decodes, and its Go output compiles and evaluates, to a grammar equal to the one compiled in memory, under the requested package and variable names; rejected descriptions, unusable names and texts the format cannot represent make it fail with a message and non-zero status without leaving an output file.",
["programs","configurations"],"all grammars (layers with arguments, any characters in names, expressions and arguments) and command-line options",
"The generator has no tests at all.",
["cmd/llxgen/llxgen.go","grammar/grammar.go"],[("printers","cmd/llxgen/llxgen.go makeGo/makeJson")],["output files and exit status of the built command"])
p("C20","Compiled grammars are well formed and reproducible",
"Compiling the same description any number of times, or with different layout and comments, gives equal grammars. In every compiled grammar all cross references are in range, rules and ambiguous rules are grouped by state and sorted by key with no key in both, every state's token set covers its rules and all side tokens, and every state is reachable.",
["programs","histories"],"all accepted descriptions and repeated compilations",
"Tests compare state tables of fixed grammars once; map iteration order varies between runs.",
["langdef/result.go","langdef/parser.go","grammar/grammar.go"],
[("state numbering and rule ordering","langdef/result.go BuildGrammar/rmKeys, langdef/parser.go assignStateTokenTypes")],["grammar.Grammar values"])
p("C21","Indentation tokens are balanced and match the indentation of the text",
"For every text, the indent layer emits one indent token before the first token of each deeper line and one dedent token per level left before the first token of a shallower line, closes all open levels at end of input, and otherwise passes all tokens unchanged in order without altering their text. Lines without non-side tokens have no effect, and inconsistent indentation is reported as an error at that place.",
["inputs","configurations"],"all texts over tabs, spaces, newlines, comments and words; all layer configurations",
"Tests contain about a dozen texts.",
["parser/layers/indent/indent.go"],[("indent stack","parser/layers/indent/indent.go layerState")],["token stream behind the layer"])
p("C22","The convert layer replaces exactly the configured tokens",
"Tokens of the configured type (or any) whose text is listed are replaced one for one by a token with the configured text and type, with the original position if requested and none otherwise; all other tokens pass untouched and order is kept. Invalid configurations are rejected when the parser is created.",
["inputs","configurations"],"all conversion tables, type settings and inputs",
"Tests check one configuration.",
["parser/layers/convert/convert.go"],[("replacement hook","parser/layers/convert/convert.go")],["token stream behind the layer, parser.New errors"])
p("C23","The restrict layer rejects exactly nodes whose nearest ruling ancestor forbids",
"A restricted node is rejected, at its first token, if and only if its closest ancestor mentioned in an allowing or forbidding list is a forbidding one; all other inputs parse as without the layer. Invalid configurations, including references to unknown restricted nodes, are reported rather than ignored.",
["programs","inputs","configurations"],"all node nestings and all layer configurations",
"Tests check one grammar with four inputs.",
["parser/layers/restrict/restrict.go","parser/parser.go"],[("ancestor search","parser/layers/restrict/restrict.go")],["parse result and error position"])
p("C24","One parser can serve any number of concurrent parses",
"Parses running concurrently with the same parser, also sharing source objects and tokens, behave exactly as if run one after another: same results, same errors, same events, and no data race. The compiled grammar, the parser and its layers are never modified by parsing.",
["schedules","inputs"],"all interleavings of concurrent parses, compilations and layer registrations",
"No test runs anything concurrently.",
["parser/parser.go","parser/hooks.go","source/source.go","parser/layers/indent/indent.go","lexer/lexer.go"],
[("immutability of Parser and Lexer, per-parse context","parser/parser.go newParseContext"),("layer registry lock","parser/hooks.go RegisterHookLayer")],["race detector reports, results compared with sequential runs"],
[("last line hint","index of the line found by the previous query","source/source.go Source")])
p("C25","Tree edits keep the tree consistent and do exactly what they say",
"After any sequence of insert, append, prepend, replace and detach operations, parent, sibling and child links agree with each other, no element appears twice or disappears, and the resulting order of children is the one a plain list model gives. Elements not involved keep their places.",
["histories"],"all edit sequences on all trees, incl. moves within one parent and replacement by neighbours",
"Tests run each operation once on one small tree.",
["tree/tree.go"],[("link maintenance","tree/tree.go AddChild/RemoveChild/Replace/AppendSibling/PrependSibling")],["tree links after each operation"])
p("C26","Tree traversal and queries visit exactly the specified elements in order",
"Walking a subtree in either direction visits precisely the elements not excluded by stop/skip answers, parents first, with correct nesting levels, and never leaves the subtree; first/last/next/previous token queries, ancestor and sibling lists, and selectors built from searches, filters and combinators return exactly the elements a direct recursive definition gives, in the documented order, duplicates removed only on request.",
["inputs","programs"],"all trees, start elements, skip decisions, and selector compositions",
"Tests use one tree and a few selectors.",
["tree/tree.go"],[("walker","tree/tree.go Walker.Step"),("selectors","tree/tree.go Selector")],["visited elements and selector results"])
p("C27","A syntax tree built with side tokens is a lossless copy of the text",
"For every accepted text whose every character belongs to some token, building a tree with side tokens and concatenating its token texts from left to right gives back the parsed part of the text byte for byte (the whole text if the root node lasts until the end of input), the initial token of each node below the root is its first non-side descendant, and without side tokens the tree contains exactly the non-side tokens in order.",
["programs","inputs"],"all grammars and accepted texts",
"Tests check a couple of fixed texts.",
["tree/tree.go","parser/parser.go"],[("tree building hook","tree/tree.go HookInstance")],["tree contents"])
p("C28","Errors and cancellation stop parsing at once and come back unchanged",
"When any hook returns an error at any event, parsing stops, no further hook is called, and the caller gets exactly that error and no result. When the context is cancelled at any moment, no further token is processed or passed to hooks, and the caller gets exactly the context's error and no result, unless parsing is finished without processing another token.",
["fault_sequences","programs","inputs"],"a failure injected at every single hook event of every parse, and cancellation at every event",
"Tests inject an error at one or two places.",
["parser/parser.go"],[("error propagation","parser/parser.go pushNode/popNode/handleToken"),("context checks","parser/parser.go parse/handleToken")],["error returned, hook calls after the fault"])
p("C29","The calculator evaluates every expression like arithmetic does",
"For every input the calculator example either prints the value a direct evaluation of the expression gives (precedence, associativity, unary operators, variables, user functions) or reports an error exactly when that evaluation is undefined (unknown names, wrong number of arguments, endless recursion; IEEE infinities are values) or the text is malformed.",
["inputs","histories"],"all sequences of expressions, assignments and function definitions",
"Tests evaluate a fixed list of expressions.",
["examples/calc/internal/lib.go","examples/calc/internal/grammar.go"],[("node hooks building an evaluator","examples/calc/internal/lib.go")],["values and errors per input"])
p("C30","Editing a configuration file changes only what was asked",
"For every configuration text, loading and saving without edits reproduces the (newline-normalised) text (entries overridden later in the same section may be dropped), invalid text is rejected rather than truncated, and after any sequence of set/remove entry and add/remove section commands the saved text, loaded again, contains exactly the entries and sections a key-value model predicts; comments and lines not touched by commands are preserved (except that a removed section takes everything up to the next header, and white space next to edited lines may change).",
["inputs","histories"],"all configuration texts and edit sequences",
"Tests check a few scripted edits.",
["examples/conf-edit/internal/lib.go","tree/tree.go"],[("tree edits","examples/conf-edit/internal/lib.go")],["serialised text, reloaded model"])
p("C31","Grammar mistakes are diagnosed precisely",
"A description is rejected exactly when it refers to an undefined node or token, leaves a node unused, redefines a node, token or template, is left-recursive or unresolvable, uses a side, error or non-whitelisted item in a rule, uses a literal no token type can produce, or defines too many token types; the error kind names the mistake actually present, its message names the offending node, token, template, directive or literal, and its position (where the mistake is at a definite place) is the place of the mistake; correct descriptions are always accepted.",
["programs"],"all descriptions assembled from valid ones by adding any one of these mistakes, and all valid ones",
"Tests have a small fixed list of mistakes each in a minimal grammar; definition order, indirect recursion and boundary counts vary without limit.",
["langdef/parser.go"],[("validation passes","langdef/parser.go findUndefinedNodes/findUnusedNodes/resolveDependencies/findRecursions")],["error code of langdef.ParseString"])
p("C32","The internal double-ended queue behaves like a sequence",
"After any sequence of append, prepend, take-first, take-last, peek, fill, clear operations the contents, their order, the length and every returned item equal those of a plain list, whatever growth and shrinking happened in between; returned snapshots of the contents are independent of later changes.",
["histories"],"all operation sequences and sizes",
"Tests run scripted sequences of small size; growth/shrink boundaries combined with wrap-around are many.",
["internal/queue/queue.go"],[("ring buffer with power-of-two growth","internal/queue/queue.go")],["all exported operations"])
p("C33","Internal integer sets implement set algebra",
"Every set operation (add, remove, contains, union, intersection, subtraction, copy, comparison, listing) gives the mathematically correct result for any members, including negative and widely spread ones, never changes its other argument, and listings are sorted without duplicates.",
["histories","inputs"],"all sets of integers and operation sequences",
"Tests use a few sets near chunk boundaries.",
["internal/ints/intset.go"],[("chunked bit sets","internal/ints/intset.go")],["all exported operations"])
p("C34","Hook layers are resolved, configured and initialised exactly as declared",
"Each layer a grammar declares is configured once per parser with exactly its declared commands and arguments in order and initialised once per parse, explicitly supplied templates take precedence over registered ones, and unknown layer types, repeated registrations, configuration errors and hooks for unknown tokens or nodes are reported as errors of the documented kind naming what is wrong instead of being ignored.",
["programs","configurations"],"all layer declarations, registries and option sets",
"Tests register one or two layers.",
["parser/parser.go","parser/hooks.go"],[("layer setup","parser/parser.go New/newParseContext/newHookLayer"),("registry","parser/hooks.go RegisterHookLayer")],["template and layer calls, parser.New and Parse errors"])
p("C35","Errors state their kind, subject and place truthfully",
"Every mistake in a description, a layer configuration, a set of hooks or an input is reported as an llx.Error having a code of the class documented for the reporting part and a complete message: arguments are filled in, texts taken from the user (source names, names, literals, tokens, layer arguments) appear in it as data and never as formatting instructions. A reported line and column are given together and exist in the blamed source, and the message names the source, line and column exactly when all of them are known. The exported error constructors follow their documentation for all arguments.",
["inputs","configurations"],"all erroneous descriptions, configurations and inputs, all source names and texts (including empty ones and ones looking like formatting verbs), all constructor arguments",
"Tests compare error codes of fixed inputs and never look at messages.",
["llx.go","langdef/errors.go","parser/errors.go","lexer/lexer.go","parser/layers/common/errors.go"],[("constructors","llx.go NewError/FormatError/FormatErrorPos"),("error texts","langdef/errors.go, parser/errors.go, parser/layers/common/errors.go")],["llx.Error fields and messages of errors returned by langdef, parser.New and Parse"])
p("C36","Parser queries and hook contexts tell the truth about grammar, run and tokens",
"For every grammar the parser's queries answer according to the description: each token type name, and no other name, gives its type and lets a token be made; side, special and valid types are exactly the declared ones for any number asked, and a hook may emit a token exactly if its type is valid (literals and error types are not). During a run every hook and layer gets the caller's context and the same parse context referring to this parser and this source queue, whose current position is right behind the token being handled, and the node stack always lists exactly the open nodes, innermost first. Every token seen there (also a peeked one) has the type, type name, text, source, offset, line and column of the place it was taken from, and end tokens and made tokens are what they are documented to be.",
["programs","inputs","histories"],"all grammars (side, error, extern, caseless types, literals named like types), all numbers and names asked, all inputs in one or more sources, hooks in any layer",
"Tests ask these questions for a few known types only, or not at all.",
["parser/parser.go","parser/hooks.go","parser/misc.go","lexer/token.go"],[("type queries","parser/parser.go TokenType/IsValidType/IsSideType/IsSpecialType/MakeToken"),("contexts","parser/hooks.go TokenContext/NodeContext")],["results of parser queries","token and node hook calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
