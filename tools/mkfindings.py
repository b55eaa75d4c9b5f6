#!/usr/bin/env python3
# Writes known_findings.jsonl. "fixed" entries suppress nothing.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = "$space = /[ \\n]+/;\n$name = /[a-z]+/;\n!side $space;\n"
out = [{
 "property": "C01", "status": "known", "id": "KF1",
 "what": "optional group sharing its entry state with a repeated group it starts with accepts text outside the language",
 "why_not_fixed": "the wrong state table is pinned by the case g = [{$d}, $l] of langdef/grammar_test.go, a repair needs that test edited",
 "class": "an optional group (or a repeated group made of a single item) G, such that following first items of groups down from G leads to a repeated group and some group on the way has more than one item",
 "inputs": [
  {"grammar": TOK + "g = [{'a'}, 'b'], 'c';", "input": "a c"},
  {"grammar": TOK + "g = {[{'a'}, 'b'], 'x'}, 'c';", "input": "a x c"},
  {"grammar": TOK + "g = [({'a'}, 'b'), 'c'], 'd';", "input": "a d"},
  {"grammar": TOK + "g = {({'a'}, 'b')}, 'c';", "input": "a c"},
 ]},
{"property": "C29", "status": "known", "id": "KF2",
 "what": "a function or an argument of the calculator cannot be named func",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "sessions defining a function or an argument named func",
 "inputs": [{"input": "func(x) = x\nfunc(2)\n", "expected": " : 2"}, {"input": "f(func) = func\nf(2)\n", "expected": " : 2"}]},
{"property": "C29", "status": "known", "id": "KF3",
 "what": "a recursive user function is evaluated forever (until the stack is exhausted) instead of being reported",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "evaluating a function which calls itself, directly or not",
 "inputs": [{"input": "f(x) = f(x)\nf(1)\n", "expected": " ! "}]},
{"property": "C30", "status": "known", "id": "KF4",
 "what": "text which cannot start an entry or a section is dropped with everything below it instead of being reported",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "invalid texts which have a valid prefix followed by a token no entry or section may start with",
 "inputs": [{"input": "a=1\n]\nb=2\n", "expected": "error"}]},
{"property": "C30", "status": "known", "id": "KF5",
 "what": "only the first of repeated section headers is removed",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "editing texts with repeated section headers",
 "inputs": [{"input": "[a]\nx=1\n[b]\n[a]\ny=2\n", "commands": "remove a", "expected": "[b]\n"}]},
{"property": "C30", "status": "known", "id": "KF6",
 "what": "the value set to an entry overridden by an entry without a value is lost",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "editing texts with repeated entries",
 "inputs": [{"input": "a=1\na=\n", "commands": "set a=2", "expected": "a=2\n"}]},
{"property": "C30", "status": "known", "id": "KF7",
 "what": "adding a section crashes when the default section is empty",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "adding a section while the default section has no entries",
 "inputs": [{"input": "a=1\n", "commands": "unset a\nadd b", "expected": "[b]\n"}]},
{"property": "C30", "status": "known", "id": "KF8",
 "what": "removing a section following a comment or a space crashes",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "editing texts with comments, or with spaces before section headers",
 "inputs": [{"input": "# c\n[a]\nx=1\n", "commands": "remove a", "expected": "# c\n"}]},
{"property": "C30", "status": "known", "id": "KF10",
 "what": "values containing # or line feeds are stored although they read back as something else",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "values containing # or line feeds",
 "inputs": [{"input": "", "commands": "set a=1 # c", "expected": "error"}]},
{"property": "C30", "status": "known", "id": "KF9",
 "what": "comments include line feeds: headers with comments are rejected, entries lose lines next to comments",
 "why_not_fixed": "examples/ counts as a test directory here, no commit may change it",
 "class": "texts with comments at the ends of entries and headers; editing texts with comments",
 "inputs": [{"input": "foo=1 # c\n", "commands": "set bar=2", "expected": "foo=1 # c\nbar=2\n"}, {"input": "foo= # c\nbar=1\n", "commands": "set foo=2", "expected": "foo=2 # c\nbar=1\n"}, {"input": "[a] # c\n", "expected": "[a] # c\n"}]},
]
fixed = [
("C02","34a9ebe","pending branches were overwritten while a conflict was being resolved, so a variant could be lost"),
("C02","736b341","lookahead attempts which fetched no token were replayed as real tokens after a conflict was resolved"),
("C01","9465300","states shared one fallback rule slice, so renumbering states corrupted rules"),
("C01","3f463cb","a repeated variant could continue with another variant: ({'a'}|'c'),'d' accepted \"a c d\"; an optional repeated group fell back to itself forever"),
("C10","339d8d5","fetching directive or regexp items never ended at the end of input"),
("C10","0af734d","left recursion check took exponential time"),
("C10","20a79d0","a regexp like /\\Qa/ made the lexer regexp invalid and panicked"),
("C11","2d0a7b2","a state expecting nothing but $ failed or panicked"),
("C12","e14541e","tokens of !error types were reported as wrong characters"),
("C16","d5cf1ea","after a conflict with lookahead the queue was left behind the first unused token"),
("C34","cc39bc6","invalid hooks requested by hook layers were ignored"),
("C31","107fb59","token types mentioned in directives before their definition were counted twice"),
("C17","85fed94","!literal dropped the reserved flag of a literal"),
("C31","bb2bca5","a token type put into two groups before its definition was not reported"),
("C31","5d11841","names equal to internal token class names were misread (e.g. a node called \"op\")"),
("C18","bd22bab","\\x80 and above did not produce a single byte"),
("C19","1434eae","Go files generated for grammars with layers did not compile"),
("C25","9ecc29e","Replace lost the new element when it was the previous sibling, and damaged a tree root"),
("C26","66206f1","next/previous token search stopped at empty nodes"),
("C21","0c17d38","indent layer overwrote the source text"),
("C21","05e9507","dedent tokens were emitted again on each repeated end of input"),
("C07","77a7194","Queue.Skip overflowed with huge arguments"),
("C09","afe733f","EofToken(nil) panicked"),
("C34","f5325bd","an error message lacked the layer name"),
("C21","aac9160","indent layer panicked when configured with a special token type as a space"),
("C34","ba9e65f","unknown commands of the indent layer were ignored"),
("C24","7c51d08","data race on the line cache of a source shared by concurrent parses"),
("C02","4f712f9","a finished branch was dropped in favour of one which only survived because no token was fetched"),
("C12","204018c","the first defined token was named as expected in states with ambiguous rules only"),
]
import glob
extra = here + '/tools/fixed_extra.json'
if os.path.exists(extra):
    fixed += [tuple(x) for x in json.load(open(extra))]
with open(here + '/known_findings.jsonl', 'w') as f:
    for k in out:
        f.write(json.dumps(k) + '\n')
    for p, c, w in fixed:
        f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "entry": f"fixed: property={p} {c} {w}"}) + '\n')
