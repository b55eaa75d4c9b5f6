package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C10",
		Rule: "random bytes, random sequences of description tokens, valid descriptions with random byte and token changes, and scaled families of large or deep descriptions are compiled; " +
			"CPU and heap watchdogs per description; non-trivial: distinct texts with at least 5 tokens",
		Quick: 300000, Thorough: 8000000,
		Need:        []string{"compiled", "rejected", "located", "not_located", "bytes", "soup", "mutated", "families", "cut_escapes", "wrapped"},
		Run:         runC10,
		Assumptions: []string{"polynomial growth is judged by fixed CPU and heap limits on families of descriptions of up to some thousands of tokens", "size of a description is measured with templates expanded"},
	})
	register(&mon.Check{
		ID: "C11",
		Rule: "grammars with random structure and random token expressions, inputs from sentences, mutations, random bytes and large nested or repeated texts, hooks dropping, replacing and adding tokens, several sources; " +
			"CPU and heap watchdogs per parse; non-trivial: distinct (grammar, input) of at least 4 bytes",
		Quick: 20000, Thorough: 500000,
		Need: []string{"accepted", "lexical", "syntax", "eoi", "remaining", "hooked", "multi_source", "large", "random_types", "wild_types", "eoi_grammars", "end_grammars", "end_hooked"},
		Run:  runC11,
	})
	register(&mon.Check{
		ID: "C12",
		Rule: "random LL(1) grammars, partly rewritten to need lookahead, inputs from mutated sentences with optional junk or error tokens; the error is compared with the first token which is not viable according to an independent recogniser; " +
			"non-trivial: distinct (grammar, input) rejected after at least 2 tokens",
		Quick: 10000, Thorough: 250000,
		Need:        []string{"big_parses", "wide_grammars", "wrong_token", "remaining", "eoi", "junk", "error_token", "lookahead_grammars", "expected_checked", "wrong_token_groups", "junk_groups"},
		Run:         runC12,
		Assumptions: []string{"grammars are LL(1) before common prefixes are expanded, without nullable nested nodes"},
	})
}

// positioned lists codes of grammar errors caused by a piece of text.
var positioned = map[int]bool{
	langdef.UnexpectedEofError: true, langdef.UnexpectedTokenError: true, langdef.UnknownTokenError: true, langdef.WrongTokenError: true,
	langdef.TokenDefinedError: true, langdef.NodeDefinedError: true, langdef.WrongRegexpError: true, langdef.InvalidEscapeError: true, langdef.InvalidRuneError: true,
	langdef.TemplateDefinedError: true, langdef.UnknownTemplateError: true, langdef.UnknownDirectiveError: true, lexer.WrongCharError: true, lexer.BadTokenError: true,
}

var soup = []string{"$a", "$b", "$space", "$", "$$t", "$$u", "t", "u", "root", "n", "m", "/a/", "/[a-z]+/", "/(/", "/\\//", "/ +/", "//", "'a'", "'b'", "\"a\"", "\"\\n\"", "\"\\q\"", "'",
	"\"", "!side", "!error", "!extern", "!group", "!caseless", "!literal", "!reserved", "!foo", "!", "@", "@layer", "cmd", "(", ")", "[", "]", "{", "}", "=", "=", ";", ";", ";", ",", "|", "# c\n", "#", "\n", " ", "\\", "^", "\xff", "/", "$1", "-", "''", "\"\\x\"", "\"\\x4\"", "\"\\x41\"", "\"\\u\"", "\"\\u12\"", "\"\\u0041\"", "\"\\U0001F60\"", "\"\\U0001F600\"", "\"\\U00110000\"", "\"\\"}

func runC10(c *mon.Ctx) {
	var text string
	kind := c.IntN(10)
	switch {
	case c.Idx < len(c10Families)*4:
		c10Family(c, c.Idx/4, 8<<(3*(c.Idx%4)))
		return
	case c.Idx%100 == 7:
		c.Count("wrapped", 1)
		c10One(c, c10Wrapped(c))
		return
	case kind == 0:
		c.Count("bytes", 1)
		text = string(randBytes(c.Rand, c.IntN(200)))
	case kind <= 4:
		c.Count("soup", 1)
		text = c10Soup(c)
	default:
		c.Count("mutated", 1)
		text = c10Valid(c)
		for range c.IntN(4) {
			text = mutateText(c, text)
		}
	}
	if c.Idx < 100 && c.Idx%10 == 0 {
		c.Sample("%q", text)
	}
	if c.Chance(20) {
		// a string ending within an escape
		esc := pick(c.Rand, []string{"\\x41", "\\u0041", "\\U0001F600", "\\n", "\\\\", "\\xzz", "\\u00zz"})
		str := "\"" + pick(c.Rand, []string{"", "a", "ab", "\\n"}) + esc[:1+c.IntN(len(esc))] + "\""
		if c.Chance(50) {
			str = str[:len(str)-1]
		}
		c.Count("cut_escapes", 1)
		if c.Chance(30) {
			text = "$a = /a/; root = " + str + pick(c.Rand, []string{"", ";", " ;", "\n"})
		} else if i := strings.IndexAny(text, "'\""); i >= 0 {
			text = text[:i] + str + pick(c.Rand, []string{"", text[i:]})
		}
	}
	c10One(c, text)
	if len(text) > 20 {
		c.Distinct(text)
	}
}

func c10Soup(c *mon.Ctx) string {
	var b strings.Builder
	sep := pick(c.Rand, []string{" ", " ", "", "\n"})
	if c.Chance(60) {
		b.WriteString("$space = / +/; $a = /[a-z]+/;" + sep)
	}
	for range 1 + c.IntN(40) {
		if c.Chance(30) {
			b.WriteString(pick(c.Rand, []string{"root = $a;", "n = 'a' | $a;", "$b = /b/;", "!side $space;", "!group $a;", "@l c(x);", "m = n, [$a];", "!literal 'a';", "!literal $a;", "$$t = /x/;", "!extern $x;", "root = {'a'}, m;"}))
		} else {
			b.WriteString(pick(c.Rand, soup))
		}
		b.WriteString(sep)
	}
	return b.String()
}

func c10Valid(c *mon.Ctx) string {
	g, _ := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 6, Groups: c.Chance(30), Overlap: true}, gen.Opts{MaxNodes: 1 + c.IntN(5), Depth: 1 + c.IntN(4), Width: 1 + c.IntN(4), Eoi: true, Conf: c.Chance(40)}, nil)
	return g.Text()
}

func mutateText(c *mon.Ctx, s string) string {
	if s == "" {
		return pick(c.Rand, soup)
	}
	i := c.IntN(len(s))
	j := min(len(s), i+1+c.IntN(12))
	switch c.IntN(6) {
	case 0:
		return s[:i] + s[j:]
	case 1:
		return s[:i] + pick(c.Rand, soup) + s[i:]
	case 2:
		return s[:i] + pick(c.Rand, soup) + s[j:]
	case 3:
		k := c.IntN(len(s))
		return s[:k] + s[i:j] + s[k:]
	case 4:
		return s[:i]
	default:
		// swap two records
		r := strings.Split(s, ";\n")
		if len(r) > 2 {
			x, y := c.IntN(len(r)-1), c.IntN(len(r)-1)
			r[x], r[y] = r[y], r[x]
		}
		return strings.Join(r, ";\n")
	}
}

func c10One(c *mon.Ctx, text string) {
	c.Eval()
	c.Put("description", text)
	if len(text) < 5000 {
		c.Crumb()
	}
	name := pick(c.Rand, []string{"g", "", "some file"})
	// reading past the end of the text must be visible
	content := make([]byte, len(text))
	copy(content, text)
	src := source.New(name, content[:len(text):len(text)])
	g, e := langdef.Parse(src)
	if !bytes.Equal(content, []byte(text)) {
		c.Put("changed", string(content))
		c.Fatal("compilation changes the description")
	}
	fail := func(format string, args ...any) {
		if len(text) > 2000 {
			text = text[:2000] + "..."
		}
		c.Fatal(format+"; description %q", append(args, text)...)
	}
	if (g == nil) == (e == nil) {
		fail("both or neither of grammar and error are returned: %v, %v", g != nil, e)
	}
	if e == nil {
		c.Count("compiled", 1)
		// an accepted grammar is usable
		if _, e := parser.New(g, parser.WithLayerTemplates(nil)); e != nil && len(g.Layers) == 0 {
			fail("cannot create a parser: %v", e)
		}
		return
	}
	c.Count("rejected", 1)
	checkLangError(c, e, src, text, fail)
}

func checkLangError(c *mon.Ctx, e error, src *source.Source, text string, fail func(format string, args ...any)) {
	le := hx.LLX(e)
	if le == nil {
		fail("not an error of the library: %v", e)
		return
	}
	if !(le.Code >= langdef.UnexpectedEofError && le.Code <= langdef.UnknownDirectiveError || le.Code == lexer.WrongCharError || le.Code == lexer.BadTokenError) {
		fail("error code %d is neither of language definition nor lexical class: %v", le.Code, e)
	}
	if le.Message == "" || le.Error() == "" {
		fail("empty error message, code %d", le.Code)
	}
	if !positioned[le.Code] && le.Line == 0 && le.Col == 0 {
		c.Count("not_located", 1)
		return
	}
	c.Count("located", 1)
	if le.SourceName != src.Name() {
		fail("error %v names source %q", e, le.SourceName)
	}
	if !lineColInside(text, le.Line, le.Col) {
		fail("error %v is located at %d:%d outside of the text", e, le.Line, le.Col)
	}
}

// lineColInside tells if the position is that of some rune of the text or its end.
func lineColInside(text string, line, col int) bool {
	lines := strings.Split(text, "\n")
	if line < 1 || line > len(lines) || col < 1 {
		return false
	}
	// the line feed belongs to its line
	return col <= utf8.RuneCountInString(lines[line-1])+1
}

const famHead = "$space = /[ \\n]+/; $name = /[a-z]+/; $num = /\\d+/; $op = /[-+]/; !side $space;\n"

func rep(s string, n int) string { return strings.Repeat(s, n) }

func famLit(i int) string {
	s := ""
	for {
		s += string(rune('a' + i%26))
		i /= 26
		if i == 0 {
			return "'" + s + "'"
		}
	}
}

func famJoin(n int, sep string, f func(i int) string) string {
	s := make([]string, n)
	for i := range s {
		s[i] = f(i)
	}
	return strings.Join(s, sep)
}

// families of large descriptions: size parameter and limit for it
var c10Families = []struct {
	name string
	max  int
	f    func(n int) string
}{
	{"groups", 512, func(n int) string { return famHead + "root = " + rep("(", n) + "$name" + rep(")", n) + ";" }},
	{"optionals", 512, func(n int) string { return famHead + "root = " + rep("[", n) + "$name" + rep("]", n) + ";" }},
	{"repeats", 128, func(n int) string { return famHead + "root = " + rep("{", n) + "$name" + rep("}", n) + ";" }},
	{"mixed", 128, func(n int) string { return famHead + "root = " + rep("{[($num|", n) + "$name" + rep(")]}", n) + ";" }},
	{"mixed tails", 128, func(n int) string { return famHead + "root = " + rep("{[$op,[", n) + "$name" + rep("],'a']}", n) + ";" }},
	{"options in a row", 128, func(n int) string {
		return famHead + "root = " + famJoin(n, ",", func(int) string { return "[$name]" }) + ";"
	}},
	{"distinct options in a row", 512, func(n int) string {
		return famHead + "root = " + famJoin(n, ",", func(i int) string { return "[" + famLit(i) + "]" }) + ";"
	}},
	{"repeats in a row", 128, func(n int) string {
		return famHead + "root = " + famJoin(n, ",", func(int) string { return "{$name}" }) + ";"
	}},
	{"repeated sequences in a row", 128, func(n int) string {
		return famHead + "root = " + famJoin(n, ",", func(int) string { return "{$name,$num}" }) + ";"
	}},
	{"variants", 512, func(n int) string { return famHead + "root = " + famJoin(n, "|", famLit) + ";" }},
	{"equal variants", 512, func(n int) string {
		return famHead + "root = " + famJoin(n, "|", func(int) string { return "$name" }) + ";"
	}},
	{"conflicting variants", 512, func(n int) string {
		return famHead + "root = " + famJoin(n, "|", func(i int) string { return "($name,$num," + famLit(i) + ")" }) + ";"
	}},
	{"chain of nodes", 512, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string { return fmt.Sprintf("n%d = n%d, $name;", i, i+1) }) + fmt.Sprintf("n%d = $num;", n)
	}},
	{"recursive nodes", 128, func(n int) string {
		return famHead + "root = n0;" + famJoin(n, "\n", func(i int) string { return fmt.Sprintf("n%d = $op, [n%d] | n%d | %s;", i, (i*7+1)%n, i+1, famLit(i)) }) + fmt.Sprintf("n%d = $num, [n0];", n)
	}},
	{"circular nodes", 512, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string { return fmt.Sprintf("n%d = n%d;", i, (i+1)%n) })
	}},
	{"left recursion", 512, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string { return fmt.Sprintf("n%d = n%d | $name;", i, (i+1)%n) })
	}},
	{"complete reference graph", 32, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string {
			return fmt.Sprintf("n%d = $num | ($op, (%s));", i, famJoin(n, "|", func(j int) string { return fmt.Sprintf("n%d", j) }))
		})
	}},
	{"binary tree of nodes", 512, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string {
			if 2*i+2 < n {
				return fmt.Sprintf("n%d = n%d | n%d;", i, 2*i+1, 2*i+2)
			} else if 2*i+1 < n {
				return fmt.Sprintf("n%d = n%d | $num;", i, 2*i+1)
			}
			return fmt.Sprintf("n%d = %s;", i, famLit(i))
		})
	}},
	{"doubled nodes", 512, func(n int) string {
		return famHead + famJoin(n, "\n", func(i int) string { return fmt.Sprintf("n%d = n%d, n%d;", i, i+1, i+1) }) + fmt.Sprintf("n%d = $name;", n)
	}},
	{"literals", 2048, func(n int) string { return famHead + "root = " + famJoin(n, ",", famLit) + ";" }},
	{"directives", 2048, func(n int) string { return famHead + rep("!caseless $name;", n) + "root = $name;" }},
	{"layers", 512, func(n int) string { return famHead + rep("@l c(a, 'b') d();", n) + "root = $name;" }},
	{"token types", 48, func(n int) string {
		return famJoin(n, "\n", func(i int) string { return fmt.Sprintf("$t%d = /%d/;", i, i) }) + "root = $t0;"
	}},
	{"templates", 512, func(n int) string {
		return famJoin(n, "\n", func(i int) string { return fmt.Sprintf("$$t%d = /%d/;", i, i) }) + "$x = " + famJoin(n, " ", func(i int) string { return fmt.Sprintf("t%d", i) }) + "; root = $x;"
	}},
	{"comments", 2048, func(n int) string { return rep("# comment\n\n", n) + famHead + "root = $name;" }},
	{"unclosed", 2048, func(n int) string { return famHead + "root = " + rep("(", n) }},
	{"long string", 2048, func(n int) string { return famHead + "root = \"" + rep("a\\\\", n) + "\";" }},
	{"long regexp", 2048, func(n int) string { return "$a = /" + rep("(?:a|", n/20) + "b" + rep(")", n/20) + "/; root = $a;" }},
}

// c10Wrapped makes a deeply nested expression of a few random constructs, each item may be wrapped several times.
func c10Wrapped(c *mon.Ctx) string {
	wraps := []string{"(X)", "[X]", "{X}", "(X), 'b'", "'a', (X)", "['a'], X", "X, ['a']", "(X) | 'c'", "'c' | [X]", "[X], {'d'}", "{'a'}, (X)", "{X, 'b'}", "('a' | X), 'c'", "$num | (X)", "(X), ['e']", "(X), {'a'}"}
	var cycle []string
	for range 1 + c.IntN(3) {
		cycle = append(cycle, pick(c.Rand, wraps))
	}
	text := pick(c.Rand, []string{"$name", "['a']", "{'a'}", "$name, ['a']", "['a'], {'b'}", "('a' | ['b'])", "root"})
	for i := range 10 + c.IntN(50) {
		w := cycle[i%len(cycle)]
		inner := text
		if !strings.Contains(w, "(X)") && !strings.Contains(w, "[X") && !strings.Contains(w, "{X") {
			inner = "(" + text + ")"
		}
		text = strings.Replace(w, "X", inner, 1)
	}
	return famHead + "root = $num, " + text + ";"
}

func c10Family(c *mon.Ctx, i, n int) {
	f := c10Families[i]
	n = min(n, f.max*famScale(c))
	c.Count("families", 1)
	c.Put("family", f.name)
	c.Put("size", fmt.Sprint(n))
	c.Crumb()
	c10One(c, f.f(n))
}

// --- C11

func runC11(c *mon.Ctx) {
	var p *parser.Parser
	var g *gen.Grammar
	var a gen.Alphabet
	ll1 := true
	types := []string{"space", "name", "num"}
	mode := c.IntN(10)
	eoi := 0
	if c.Chance(30) {
		eoi = pick(c.Rand, []int{5, 15, 30, 45, 60})
		c.Count("eoi_grammars", 1)
	}
	switch {
	case c.Idx < 40:
		c11Large(c, c.Idx)
		return
	case c.Idx%12 == 7:
		c11Ends(c)
		return
	case mode < 4:
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 6, Groups: c.Chance(30)}, gen.Opts{MaxNodes: 4, Depth: 3, Width: 3, Eoi: true, EoiAny: eoi}, func(g *gen.Grammar) bool { return g.LL1() && !g.SharedEntry() })
	case mode < 7:
		ll1 = false
		o := randOpts(c)
		o.EoiAny = eoi
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30), Overlap: true}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
	default:
		// random token types
		c.Count("random_types", 1)
		g = &gen.Grammar{}
		used := map[string]bool{}
		for i := range 2 + c.IntN(6) {
			re := pick(c.Rand, append(rePool, `a*`, `x?`, `[0-9]*`, `b*?`, `^a`, `(?:)`, `$`, `(?m)^b`, `\b`, `a|`, `|b`, `(?:foo)*`))
			if used[re] {
				continue
			}
			used[re] = true
			t := gen.TokDef{Name: fmt.Sprintf("t%d", i), Re: re}
			if i > 1 {
				t.Side = c.Chance(25)
				t.Error = !t.Side && c.Chance(15)
			}
			g.Toks = append(g.Toks, t)
			if !t.Side && !t.Error {
				a.Terms = append(a.Terms, &gen.Expr{K: gen.KTok, Name: t.Name})
			}
		}
		types = []string{g.Toks[0].Name}
		if !g.RandomNodes(c.Rand, gen.Opts{Terms: a.Terms, MaxNodes: 3, Depth: 3, Width: 3, Eoi: true}, func(g *gen.Grammar) bool { return g.LL1() && !g.SharedEntry() }) {
			c.Abort()
		}
	}
	if eoi > 0 && g.RepeatsEoi() {
		// it may be impossible to tell what some node starts with
		if _, e := hx.Compile(g.Text()); e != nil && hx.LLX(e) != nil && hx.LLX(e).Code == langdef.UnresolvedError {
			c.Abort()
		}
	}
	if eoi > 0 && eoiPaths(g, nil) > 500 {
		c.Count("skipped_exponential", 1)
		c.Abort()
	}
	p = compileOrFail(c, g.Text())
	for i := range 8 {
		if c.Failed() {
			return
		}
		var text string
		switch x := c.IntN(10); {
		case eoi > 0 && i == 0:
			text = ""
		case mode < 7 && (x < 6 || !ll1 || eoi > 0):
			seq := g.Sentence(c.Rand, a, 1+c.IntN(25))
			if c.Chance(60) {
				seq = mutate(c.Rand, a, seq)
			}
			if len(seq) > 60 || eoi > 0 && len(seq) > 20 {
				continue
			}
			if !ll1 && g.NewMatcher(seq).Paths() > 2000 || eoi > 0 && eoiPaths(g, seq) > 2000 {
				c.Count("skipped_exponential", 1)
				continue
			}
			text, _ = gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(50)})
			if ll1 && eoi == 0 && c.Chance(30) {
				i := c.IntN(len(text) + 1)
				text = text[:i] + pick(c.Rand, textPool) + text[i:]
			}
		case x < 8:
			text = randText(c, c.IntN(20))
		default:
			text = string(randBytes(c.Rand, c.IntN(100)))
		}
		c11One(c, p, text, types, ll1)
	}
}

// eoiPaths estimates the number of parallel variants for a sequence whose end is matched several times.
func eoiPaths(g *gen.Grammar, seq []gen.Tok) float64 {
	seq = seq[:len(seq):len(seq)]
	// every level of nested nodes may match the end more than once
	for range len(seq) + 6 {
		seq = append(seq, gen.EoiTok)
	}
	return g.NewMatcher(seq).Paths()
}

// c11Ends has small recursive grammars with a lot of $ in them, end of input may be matched again and again.
func c11Ends(c *mon.Ctx) {
	pool := []string{"$", "$", "$name", "$num", "n1", "n2", "[n1]", "[n2]", "[$]", "{$name}", "[$name]", "{$name, $}", "{$}", "{n2}",
		"($name | $)", "($ | $)", "($num | $name | $)", "($ | n1)", "($ | n1 | $)", "(n2 | $ | $)", "($ | [n2])", "($, n1 | $)", "($, [n1] | $, n2)", "($name, [n1] | $, n2 | $)"}
	items := func() string {
		var res []string
		for range 1 + c.IntN(4) {
			res = append(res, pick(c.Rand, pool))
		}
		return strings.Join(res, ", ")
	}
	var p *parser.Parser
	for range 20 {
		text := famHead + "root = " + items() + ";\n"
		if strings.Contains(text, "n1") || strings.Contains(text, "n2") {
			text += "n1 = " + items() + ";\n"
		}
		if strings.Contains(text, "n2") {
			text += "n2 = " + items() + ";\n"
			if !strings.Contains(text, "n1 =") {
				text += "n1 = " + items() + ";\n"
			}
		}
		g, e := langdef.ParseString("grammar", text)
		if e != nil {
			c.Eval()
			le := hx.LLX(e)
			if le == nil || le.Code != langdef.UnresolvedError && le.Code != langdef.RecursionError && le.Code != langdef.UnusedNodeError && le.Code != langdef.UnknownNodeError {
				c.Fatal("valid grammar is rejected: %v\n%s", e, text)
			}
			continue
		}
		p, e = parser.New(g)
		if e != nil {
			c.Fatal("no parser: %v", e)
		}
		c.Put("grammar", text)
		c.Count("end_grammars", 1)
		for _, in := range []string{"", "a", "1", "a a", "a 1 a", "a a a a"} {
			c11One(c, p, in, nil, false)
			if c.Failed() {
				return
			}
		}
	}
}

func c11One(c *mon.Ctx, p *parser.Parser, text string, types []string, ll1 bool) {
	c.Put("input", text)
	if c.Chance(10) {
		c.Crumb()
	}
	rec := &hx.Recorder{}
	hooks := parser.Hooks{}
	wild := 0
	if c.Chance(70) {
		hooks = rec.Hooks()
	}
	if ll1 && c.Chance(40) {
		// a hook doing random things
		c.Count("hooked", 1)
		seed := c.IntN(1000)
		fixed := c.Chance(30) // does the same each time
		if fixed {
			seed = c.IntN(1 << 30)
		}
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			x := seed >> 8
			if !fixed {
				seed = (seed*1103515245 + 12345) & 0x7fffffff
				x = seed >> 8
			}
			for range x >> 4 % 3 {
				_, _ = tc.PeekToken()
			}
			switch x % 8 {
			case 0:
				return false, nil, nil
			case 1:
				if len(types) == 0 {
					return true, nil, nil
				}
				nt, e := tc.ParseContext().Parser().MakeToken(types[x>>6%len(types)], []byte("x"))
				return x>>12%2 == 0, []*lexer.Token{nt}, e
			case 2:
				return true, []*lexer.Token{t}, nil
			case 3:
				if x>>5%8 != 0 {
					break
				}
				// a token which cannot be emitted
				n := len(p.Tokens())
				wild++
				typ := []int{n, n + 1, n + 1000, 1 << 40, math.MaxInt, -1, -2, -3, -4, -100, math.MinInt}[x>>9%11]
				return x>>12%2 == 0, []*lexer.Token{lexer.NewToken(typ, "wild", []byte("x"), t.Pos())}, nil
			}
			return true, nil, nil
		}
		hooks.Tokens = parser.TokenHooks{parser.AnyToken: hook}
		if c.Chance(30) {
			hooks.Tokens[parser.EofToken] = hook
		}
		if c.Chance(30) {
			c.Count("end_hooked", 1)
			hooks.Tokens[parser.EoiToken] = hook
		}
	}
	var opts []parser.ParseOption
	if c.Chance(50) {
		opts = append(opts, parser.WithFullSource())
	}
	if c.Chance(30) {
		opts = append(opts, parser.WithSides())
	}
	q := source.NewQueue()
	srcs := map[string]string{}
	sources := map[*source.Source]string{}
	var add func(t string)
	add = func(t string) {
		name := fmt.Sprintf("s%d", len(srcs))
		srcs[name] = t
		s := source.New(name, []byte(t))
		sources[s] = t
		q.Append(s)
	}
	if c.Chance(20) {
		c.Count("multi_source", 1)
		i := c.IntN(len(text) + 1)
		add(text[:i])
		add(text[i:])
	} else {
		add(text)
	}
	c.Eval()
	if len(text) > 3 {
		c.Distinct(c.Recall("grammar"), text)
	}
	res, e := p.Parse(bg, q, hooks, opts...)
	for s, t := range sources {
		if string(s.Content()) != t {
			c.Put("changed", string(s.Content()))
			c.Fatal("parsing changes the text %q", t)
		}
	}
	fail := func(format string, args ...any) {
		t := text
		if len(t) > 2000 {
			t = t[:2000] + "..."
		}
		c.Fatal(format+"; input %q", append(args, t)...)
	}
	if e == nil {
		c.Count("accepted", 1)
		return
	}
	c.Count("wild_types", wild)
	if res != nil {
		fail("both result and error are returned: %v", e)
	}
	var le *llx.Error
	if !errors.As(e, &le) {
		fail("not an error of the library: %v (%T)", e, e)
		return
	}
	switch le.Code {
	case parser.UnexpectedEoiError:
		c.Count("eoi", 1)
		return
	case lexer.WrongCharError, lexer.BadTokenError:
		c.Count("lexical", 1)
	case parser.UnexpectedTokenError:
		c.Count("syntax", 1)
	case parser.RemainingSourceError:
		c.Count("remaining", 1)
	case parser.EmitWrongTokenError:
		if wild == 0 {
			fail("no wrong token was emitted: %v", e)
		}
	default:
		fail("unexpected error code %d: %v", le.Code, e)
	}
	if le.SourceName == "" && hooks.Tokens != nil && le.Line == 0 {
		// a token made by a hook
		return
	}
	t, has := srcs[le.SourceName]
	if !has {
		fail("error %v names unknown source %q", e, le.SourceName)
	}
	if !lineColInside(t, le.Line, le.Col) {
		fail("error %v is located at %d:%d outside of the source", e, le.Line, le.Col)
	}
}

func c11Large(c *mon.Ctx, i int) {
	fams := []struct {
		grammar string
		input   func(n int) string
	}{
		{famHead + "root = {$name | $num};", func(n int) string { return rep("a 1 ", n) }},
		{famHead + "root = $name, [root];", func(n int) string { return rep("a ", n) }},
		{"$space = / +/; $b = /[()]/; !side $space; root = '(', {root}, ')';", func(n int) string { return rep("(", n) + rep(")", n) }},
		{"$space = / +/; $b = /[()]/; !side $space; root = '(', {root}, ')';", func(n int) string { return rep("(", n) + rep(") ", n/2) }},
		{"$space = / +/; $b = /[()]/; !side $space; root = {p}; p = '(', {p}, ')';", func(n int) string { return rep("()", n) }},
		{famHead + "root = e; e = t, {'+', t}; t = $num | $name;", func(n int) string { return "1" + rep("+ 1 + a", n) }},
		{famHead + "root = ({$name}, '+') | ({$name}, '-');", func(n int) string { return rep("a ", n) + "-" }},
		{famHead + "root = {('+', $num) | ('+', $name)};", func(n int) string { return rep("+ 1 + a ", n) }},
		{famHead + "root = {$name};", func(n int) string { return rep(" ", n) + rep("a", n) + rep("\n", n) }},
		{famHead + "root = {$name}, '+';", func(n int) string { return rep("a ", n) }},
	}
	f := fams[i%len(fams)]
	n := []int{64, 512, 4096, 16384}[i/len(fams)]
	c.Count("large", 1)
	c.Put("size", fmt.Sprint(n))
	p := compileOrFail(c, f.grammar)
	text := f.input(n)
	p.ParseString(bg, "input", text, parser.Hooks{})
	c11One(c, p, text, nil, true)
}

// --- C12

func runC12(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	noSides := c.Chance(20)
	g, a := genGrammar(c, gen.AlphaOpts{Min: 3, Max: 6, Groups: c.Chance(45), NoSides: noSides}, gen.Opts{MaxNodes: 1 + c.IntN(4), Depth: 1 + c.IntN(3), Width: 1 + c.IntN(4), Eoi: true}, func(g *gen.Grammar) bool { return g.LL1() && !g.NullableNode() && !g.SharedEntry() })
	if c.Chance(65) {
		n := 0
		for range 3 {
			n += g.Unfactor(c.Rand)
		}
		if g.SharedEntry() {
			c.Abort()
		}
		if n > 0 {
			c.Count("lookahead_grammars", 1)
		}
	}
	g.Extra = "$err = /%[^;]*;/;\n!error $err;\n"
	groups := false
	for _, t := range g.Toks {
		groups = groups || t.Group > 0
	}
	p := compileOrFail(c, g.Text())
	for range 16 {
		if c.Failed() {
			return
		}
		seq := g.Sentence(c.Rand, a, 1+c.IntN(18))
		if c.Chance(85) {
			seq = mutate(c.Rand, a, seq)
		}
		if len(seq) > 40 {
			continue
		}
		m := g.NewMatcher(seq)
		if m.Paths() > 2000 {
			continue
		}
		// junk replaces the text from some token on
		junkAt, junk := -1, ""
		if c.Chance(30) {
			junkAt = c.IntN(len(seq) + 1)
			junk = pick(c.Rand, []string{"?", "%x y;", "%;", "%long long text with ж;", "`", "ж", "\"unclosed", "\xff", "\x00 a"})
			if junk[0] == '"' {
				seq = seq[:junkAt]
				m = g.NewMatcher(seq)
			}
		}
		full := c.Chance(70)
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(40), None: noSides})
		l := newLayout(text, spans)
		junkPos := -1
		if junkAt >= 0 {
			junkPos = l.posOf(junkAt)
			text = text[:junkPos] + junk + text[junkPos:]
		}
		var opts []parser.ParseOption
		if full {
			opts = append(opts, parser.WithFullSource())
		}
		if c.Chance(20) {
			opts = append(opts, parser.WithSides())
		}
		c.Eval()
		_, e := p.ParseString(bg, "input", text, parser.Hooks{}, opts...)
		if e == nil {
			c.Count("accepted", 1)
			continue
		}
		fail := func(format string, args ...any) {
			c.Put("input", text)
			c.Fail(format+"; got %v, input %q, grammar:\n%s", append(args, e, text, strings.TrimSpace(g.NodePart()))...)
		}
		le := hx.LLX(e)
		if le == nil {
			fail("not an error of the library")
			return
		}
		// the first token which cannot continue the input
		k := 0
		for k < len(seq) && m.RootViable(k+1) {
			k++
		}
		want := []int{parser.UnexpectedTokenError}
		pos := l.posOf(k)
		kind := "wrong_token"
		switch {
		case junkAt >= 0 && junkAt <= k:
			pos = junkPos
			want = []int{lexer.WrongCharError}
			kind = "junk"
			if junk[0] == '%' {
				want = []int{lexer.BadTokenError}
				kind = "error_token"
			}
		case k == len(seq):
			if m.RootCount(k) > 0 && !(junkAt > k) {
				fail("a sentence is rejected")
				return
			}
			pos = -1
			want = []int{parser.UnexpectedEoiError}
			kind = "eoi"
		default:
			if m.RootCount(k) > 0 && full {
				want = append(want, parser.RemainingSourceError)
			}
			if junkAt > k && junkPos >= 0 {
				// the junk follows
				_ = junkPos
			}
		}
		if le.Code != want[0] && (len(want) < 2 || le.Code != want[1]) {
			fail("error code is %d instead of %v after %d viable token(s)", le.Code, want, k)
			return
		}
		if le.Code == parser.RemainingSourceError {
			kind = "remaining"
		}
		c.Count(kind, 1)
		if groups {
			c.Count(kind+"_groups", 1)
		}
		if pos >= 0 {
			ln, cl := refLineCol(text, pos)
			if le.Line != ln || le.Col != cl || le.SourceName != "input" {
				fail("error is located at %q %d:%d instead of %d:%d", le.SourceName, le.Line, le.Col, ln, cl)
				return
			}
		}
		if k >= 2 || junkAt >= 2 {
			c.Distinct(g.NodePart(), text)
		}
		if kind == "error_token" && !strings.Contains(le.Message, strings.Trim(fmt.Sprintf("%q", junk), `"`)) {
			fail("error does not contain captured text %q", junk)
			return
		}
		if i := strings.LastIndex(le.Message, "expecting "); (kind == "wrong_token" || kind == "eoi") && i < 0 {
			fail("no expected item is named")
			return
		} else if i >= 0 {
			item := le.Message[i+len("expecting "):]
			if j := strings.Index(item, " in input at line"); j >= 0 {
				item = item[:j]
			}
			if msg := c12Expected(c, g, a, seq[:k], item); msg != "" {
				fail("%s", msg)
				return
			}
			c.Count("expected_checked", 1)
		}
		if c.Idx < 50 {
			c.Sample("%s\ninput %q: %v", g.NodePart(), text, e)
		}
	}
}

// c12Expected checks that the named item may follow the prefix.
func c12Expected(c *mon.Ctx, g *gen.Grammar, a gen.Alphabet, prefix []gen.Tok, item string) string {
	m := g.NewMatcher(prefix)
	if item == lexer.EoiTokenName {
		if m.RootCount(len(prefix)) == 0 {
			return "end of input is expected, but the input is not complete"
		}
		return ""
	}
	for _, t := range g.Exprs() {
		if t.K != gen.KLit && t.K != gen.KTok || t.K == gen.KLit && t.Name != item || t.K == gen.KTok && "$"+t.Name != item {
			continue
		}
		s := append(append([]gen.Tok{}, prefix...), a.TokFor(c.Rand, t))
		if g.NewMatcher(s).RootViable(len(s)) {
			return ""
		}
	}
	return fmt.Sprintf("item %q is said to be expected, but it cannot follow", item)
}

// famScale makes families larger in the thorough tier.
func famScale(c *mon.Ctx) int {
	if c.Tier == "thorough" {
		return 4
	}
	return 1
}
