package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C35",
		Rule: "error constructors with random arguments (formatting verbs in texts, missing parts of positions); errors produced by damaged descriptions, wrong layer configurations, wrong hook keys and wrong texts in 1-3 sources whose names and contents are full of formatting verbs; " +
			"each error is checked for type, class, complete message, and a place which exists in its source and is named by the message; non-trivial: distinct messages",
		Quick: 12000, Thorough: 300000,
		Need:        []string{"constructors", "layer_constructors", "description_errors", "layer_errors", "parse_errors", "hook_errors", "lexical", "syntax", "remaining", "indent_errors", "with_place", "without_place", "unnamed", "several_sources", "codes", "named_tokens", "named_chars", "named_lexemes", "long_texts"},
		Run:         runC35,
		Assumptions: []string{"a text is quoted the way Go does it or given as is, a long one may be shortened; wording is free"},
	})
}

var verbs = []string{"%d", "%s", "%q", "%v", "%", "%%", "100%", "%T", "%n", "a", "foo", "жук", " ", "\"", "'", "\\", "(", "%[1]d", "%*d"}

func verbText(c *mon.Ctx, n int) string {
	s := ""
	for range c.IntN(n + 1) {
		s += pick(c.Rand, verbs)
	}
	return s
}

// longText makes a text which is very long sometimes.
func longText(c *mon.Ctx, n int) string {
	s := verbText(c, n)
	for k := 0; c.Chance(10) && k < 3 || s != "" && k > 0 && len(s) < 300; k++ {
		s += strings.Repeat(pick(c.Rand, verbs), logInt(c, 1, 2000))
	}
	if len(s) > 255 {
		c.Count("long_texts", 1)
	}
	return s
}

// sourceName makes a name of a source.
func sourceName(c *mon.Ctx) string {
	if c.Chance(8) {
		if s := longText(c, 3); !strings.Contains(s, "%!") {
			return s
		}
	}
	return pick(c.Rand, []string{"", "%d", "src %s", "100%", "f.txt", "g%s", "a b"})
}

type fakePos struct {
	name      string
	line, col int
}

func (p fakePos) SourceName() string  { return p.name }
func (p fakePos) LineCol() (int, int) { return p.line, p.col }
func (p fakePos) place() string {
	return fmt.Sprintf(" in %s at line %d col %d", p.name, p.line, p.col)
}
func (p fakePos) known() bool { return p.name != "" && p.line != 0 && p.col != 0 }
func quoted(s string) string  { q := strconv.Quote(s); return q[1 : len(q)-1] }
func mentionsText(msg, text string) bool {
	return strings.Contains(msg, text) || strings.Contains(msg, quoted(text))
}

// mentionsPart tells if the message contains the text or the beginning of it.
func mentionsPart(msg, text string) bool {
	if mentionsText(msg, text) {
		return true
	}
	if len(text) <= 10 {
		return false
	}
	for i := range text {
		if i >= 4 {
			return mentionsText(msg, text[:i])
		}
	}
	return false
}

// badVerb is what fmt makes of a wrong verb.
var badVerb = regexp.MustCompile(`%!.?\(`)

func inLines(sources map[string][]string, s string) bool {
	for _, lines := range sources {
		for _, l := range lines {
			if strings.Contains(l, s) {
				return true
			}
		}
	}
	return false
}

// errOk checks everything which is true for any error; sources are those which can be blamed.
func errOk(c *mon.Ctx, e error, sources map[string][]string, what string) *llx.Error {
	fail := func(format string, args ...any) *llx.Error {
		c.Put("error", fmt.Sprint(e))
		c.Fatal("%s: %s; error (%T) %q", what, fmt.Sprintf(format, args...), e, e)
		return nil
	}
	var le *llx.Error
	if !errors.As(e, &le) {
		return fail("no llx.Error")
	}
	msg := e.Error()
	if le.Error() != le.Message || msg == "" {
		return fail("message is %q, Error() returns %q", le.Message, le.Error())
	}
	if x := badVerb.FindString(msg); x != "" && !inLines(sources, x) {
		return fail("message is formatted in a wrong way")
	}
	if le.Code <= 0 {
		return fail("code is %d", le.Code)
	}
	if (le.Line > 0) != (le.Col > 0) || le.Line < 0 || le.Col < 0 {
		return fail("line %d, col %d", le.Line, le.Col)
	}
	p := fakePos{le.SourceName, le.Line, le.Col}
	switch {
	case p.known():
		c.Count("with_place", 1)
		if !strings.HasSuffix(msg, p.place()) {
			return fail("place %v is not named by the message", p)
		}
	case le.Line > 0:
		c.Count("unnamed", 1)
	default:
		c.Count("without_place", 1)
	}
	if le.Line > 0 {
		ok := false
		for _, text := range sources[le.SourceName] {
			lines := strings.Split(text, "\n")
			ok = ok || le.Line <= len(lines) && le.Col <= len([]rune(lines[le.Line-1]))+1
		}
		if !ok {
			return fail("there is no such place in sources %q", sources)
		}
	} else if le.SourceName != "" {
		if _, has := sources[le.SourceName]; !has {
			return fail("unknown source %q", le.SourceName)
		}
	}
	c.Count("codes", 1)
	c.Max("code", le.Code)
	c.Distinct(msg)
	return le
}

func inClass(code, class int) bool { return code >= class && code < class+99 }

func runC35(c *mon.Ctx) {
	c35Constructors(c)
	for range 2 {
		c35Descr(c)
		c35Layer(c)
	}
	c35Parse(c)
}

func c35Constructors(c *mon.Ctx) {
	for range 4 {
		c.Eval()
		c.Count("constructors", 1)
		p := fakePos{longText(c, 3), c.IntN(3) * c.IntN(1000), c.IntN(3) * logInt(c, 1, 1<<40)}
		if c.Chance(20) {
			p.line = logInt(c, 1, 1<<40)
		}
		code := 1 + c.IntN(500)
		text := longText(c, 4)
		check := func(what string, e *llx.Error, text string, p fakePos) {
			want := text
			if p.known() {
				want += p.place()
			}
			if e == nil || e.Code != code || e.Message != want || e.Error() != want || e.SourceName != p.name || e.Line != p.line || e.Col != p.col {
				c.Fatal("%s makes %#v; text %q, place %v", what, e, text, p)
			}
			c.Distinct(want)
		}
		check("NewError", llx.NewError(code, text, p.name, p.line, p.col), text, p)
		check("FormatError without parameters", llx.FormatError(code, text), text, fakePos{})
		check("FormatErrorPos without parameters", llx.FormatErrorPos(p, code, text), text, p)
		arg, n := longText(c, 3), c.IntN(100)
		f := "<%s> %q %d%%"
		res := fmt.Sprintf(f, arg, arg, n)
		check("FormatError", llx.FormatError(code, f, arg, arg, n), res, fakePos{})
		check("FormatErrorPos", llx.FormatErrorPos(p, code, f, arg, arg, n), res, p)
	}
	// errors of layers
	layer, cmd, arg := "l"+verbText(c, 2), "c"+verbText(c, 2), "a"+verbText(c, 4)
	n, m := 100+c.IntN(100), 200+c.IntN(100)
	tok := lexer.NewToken(1, "type"+verbText(c, 1), []byte("t"+verbText(c, 4)), source.Pos{})
	for _, x := range []struct {
		e    error
		code int
		all  []string
	}{
		{common.MakeUnknownCommandError(layer, cmd), common.UnknownCommandError, []string{layer, cmd}},
		{common.MakeMissingCommandError(layer, cmd), common.MissingCommandError, []string{layer, cmd}},
		{common.MakeNumberOfArgumentsError(layer, cmd, n, m), common.NumberOfArgumentsError, []string{layer, cmd, strconv.Itoa(n), strconv.Itoa(m)}},
		{common.MakeInvalidArgumentError(layer, cmd, arg, "reason"), common.InvalidArgumentError, []string{layer, cmd, arg, "reason"}},
		{common.MakeCommandAlreadyUsedError(layer, cmd), common.CommandAlreadyUsedError, []string{layer, cmd}},
		{common.MakeUnknownTokenTypeError(layer, cmd, arg), common.UnknownTokenTypeError, []string{layer, cmd, arg}},
		{common.MakeWrongTokenError(layer, tok, "reason"), common.WrongTokenError, []string{layer, tok.TypeName(), tok.Text(), "reason"}},
	} {
		c.Eval()
		c.Count("layer_constructors", 1)
		le := errOk(c, x.e, nil, "layer error")
		if le.Code != x.code || !inClass(le.Code, llx.LayerErrors) {
			c.Fatal("code of %q is %d instead of %d", x.e, le.Code, x.code)
		}
		for _, s := range x.all {
			if !mentionsPart(le.Message, s) {
				c.Fatal("message %q does not mention %q", le.Message, s)
			}
		}
	}
}

// c35Descr makes mistakes in a description.
func c35Descr(c *mon.Ctx) {
	text := validDescr(c).Text()
	if len(text) > 20000 {
		return
	}
	name := sourceName(c)
	for range 1 + c.IntN(2) {
		if text != "" && c.Chance(50) {
			text = spoil(c, text)
			continue
		}
		i := c.IntN(len(text) + 1)
		text = text[:i] + pick(c.Rand, []string{"%d", "%s", "'%s'", "\"%d\\q\"", "\"\\ud800\"", "$%d", "foo", ";", "!%d;", "!group", "$a=/%[/;", "$sp = /%d/;", "$$t = /%d/;$$t = /x/;", "$z = /a/ tpl;", "$z = $$tpl;", "@%s;", "@l %d(", "(", "}", "]", "=", "|", "!reserved '%d%s';", "!reserved '~~~%q';", "!literal '%v';", "root = root '%d';", "undef-%", "undef = undef2;", "жук", "\n\n", "/%/"}) + text[i:]
	}
	c.Put("description", text)
	c.Crumb()
	c.Eval()
	g, e := langdef.ParseString(name, text)
	if e == nil {
		return
	}
	if g != nil {
		c.Fatal("a grammar is returned together with error %v", e)
	}
	c.Count("description_errors", 1)
	le := errOk(c, e, map[string][]string{name: {text}}, fmt.Sprintf("description %q", text))
	if !inClass(le.Code, llx.LangDefErrors) && !inClass(le.Code, llx.LexicalErrors) {
		c.Fatal("code %d of error %v is not that of langdef or lexer, description %q", le.Code, e, text)
	}
}

// c35Layer makes wrong layer configurations and wrong keys of hooks.
func c35Layer(c *mon.Ctx) {
	args := []string{"'%d'", "'%s'", "'100%'", "\"%v\\n\"", "sp", "name", "root", "node", "'no such thing'", "in", "de"}
	cmds := []string{"space", "on-indent", "on-dedent", "convert", "node", "forbid-in", "allow-only-in", "token", "input-type", "output-type", "save-position", "d", "unknown-command", "in-type", "out-type", "type"}
	var b strings.Builder
	b.WriteString("$sp = /\\s+/; $name = /\\w+/; !extern $in $de; !side $sp;\n")
	cmd := 0
	if c.Chance(75) {
		b.WriteString("@" + pick(c.Rand, []string{"indent", "convert", "restrict", "no-such-layer"}))
		cmd = c.IntN(5)
	}
	for range cmd {
		fmt.Fprintf(&b, " %s", pick(c.Rand, cmds))
		b.WriteString("(")
		for i := range c.IntN(4) {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(pick(c.Rand, args))
		}
		b.WriteString(")")
	}
	if strings.Contains(b.String(), "@") {
		b.WriteString(";")
	}
	b.WriteString("\nroot = {node}; node = $name | $in | $de;")
	c.Put("description", b.String())
	g, e := langdef.ParseString("g", b.String())
	if e != nil {
		c.Fatal("valid description is rejected: %v\n%s", e, b.String())
	}
	c.Eval()
	p, e := parser.New(g)
	if e != nil {
		c.Count("layer_errors", 1)
		le := errOk(c, e, nil, b.String())
		if !inClass(le.Code, llx.LayerErrors) && !inClass(le.Code, llx.ParserErrors) {
			c.Fatal("code %d of error %v is not that of layers or parser: %s", le.Code, e, b.String())
		}
		return
	}
	// wrong keys
	key := "no such key " + verbText(c, 3)
	var hs parser.Hooks
	if c.Chance(50) {
		hs.Nodes = parser.NodeHooks{key: func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
			return nil, nil
		}}
	} else {
		hs.Tokens = parser.TokenHooks{key: func(context.Context, *lexer.Token, *parser.TokenContext) (bool, []*lexer.Token, error) {
			return true, nil, nil
		}}
	}
	c.Eval()
	_, e = p.ParseString(bg, "%d", "", hs)
	c.Count("hook_errors", 1)
	le := errOk(c, e, nil, "key "+key)
	if !inClass(le.Code, llx.ParserErrors) || !mentionsText(le.Message, key) {
		c.Fatal("error (code %d) %q for key %q", le.Code, e, key)
	}
}

const c35Tokens = `$sp = /[ \n\t]+/; $word = /[a-z%]+/; $num = /\d+/; $str = /"[^"\n]*"/; $bad = /&\S*|"[^"\n]*/; !side $sp; !error $bad; !extern $in $de;
`

var (
	c35Bad  = regexp.MustCompile(`^(?:&\S*|"[^"\n]*)`)
	c35Code = regexp.MustCompile(`(?i)\bu\+([0-9a-f]+)`)
)

func c35Parse(c *mon.Ctx) {
	text := c35Tokens
	indent := c.Chance(40)
	if indent {
		text += "@indent space(sp) on-indent(in) on-dedent(de);\n"
	}
	text += pick(c.Rand, []string{
		"root = '%d', {x}; x = $word | $num | $str | $in | $de;",
		"root = {x}; x = ($word, '%s') | ($num, $str) | $in | $de;",
		"root = {x}, $; x = ($word, $word, '%d%%') | ($word, $word, $num) | $str | $in | $de;",
		"root = {x}, {$word}, '%v%q'; x = $num | $str | $in | $de;",
	})
	p, e := hx.Compile(text)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v\n%s", e, text)
	}
	c.Put("grammar", text)
	for range 3 {
		q := source.NewQueue()
		sources := map[string][]string{}
		n := 1
		if c.Chance(40) {
			n = 2 + c.IntN(2)
			c.Count("several_sources", 1)
		}
		var ins []string
		for range n {
			var b strings.Builder
			if c.Chance(60) && len(ins) == 0 {
				b.WriteString("%d ")
			}
			for range c.IntN(10) {
				b.WriteString(pick(c.Rand, []string{"%d", "%s ", "%q", "% ", "foo ", "foo %s ", "long%dlong%slong ", "1 ", "123456789012345 ", "1 \"%d\" ", "\"%s%q%v жук\" ", "\n", "\n  ", "\n\t", " a b %d% ", "a b 1 "}))
				if c.Chance(3) {
					b.WriteString(pick(c.Rand, []string{"&%d", "\"%s", "&" + strings.Repeat("ж%", c.IntN(20)), "!", "ж", "(", "\xff", "\x00", string(rune(0x80 + c.IntN(0x10000))), string(rune(0x10000 + c.IntN(0x100000)))}))
				}
			}
			name := sourceName(c)
			sources[name] = append(sources[name], b.String())
			ins = append(ins, fmt.Sprintf("%q: %q", name, b.String()))
			q.Append(source.New(name, []byte(b.String())))
		}
		what := fmt.Sprintf("sources %v", ins)
		c.Put("sources", what)
		c.Crumb()
		c.Eval()
		var seen []*lexer.Token
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			seen = append(seen, t)
			return true, nil, nil
		}
		var opts []parser.ParseOption
		if c.Chance(60) {
			opts = append(opts, parser.WithFullSource())
		}
		_, e := p.Parse(bg, q, parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}}, opts...)
		if e == nil {
			c.Count("accepted", 1)
			continue
		}
		c.Count("parse_errors", 1)
		le := errOk(c, e, sources, what)
		tokenError := false
		switch le.Code {
		case lexer.WrongCharError, lexer.BadTokenError:
			c.Count("lexical", 1)
		case parser.UnexpectedTokenError:
			c.Count("syntax", 1)
			tokenError = true
		case parser.UnexpectedEoiError:
			c.Count("syntax", 1)
		case parser.RemainingSourceError:
			c.Count("remaining", 1)
		case common.WrongTokenError:
			c.Count("indent_errors", 1)
			if !indent {
				c.Fatal("%s: error %v", what, e)
			}
		default:
			c.Fatal("%s: code %d of error %v", what, le.Code, e)
		}
		if (le.Code == lexer.WrongCharError || le.Code == lexer.BadTokenError) && le.Line > 0 && n == 1 {
			// the character or the lexeme must be named
			rest := strings.Split(sources[le.SourceName][0], "\n")[le.Line-1]
			for range le.Col - 1 {
				_, size := utf8.DecodeRuneInString(rest)
				rest = rest[size:]
			}
			msg := le.Message
			if le.Code == lexer.BadTokenError {
				lexeme := c35Bad.FindString(rest)
				c.Count("named_lexemes", 1)
				if lexeme == "" || !mentionsPart(msg, lexeme) {
					c.Fatal("%s: message %q does not mention lexeme %q", what, msg, lexeme)
				}
			} else if r, size := utf8.DecodeRuneInString(rest); r != utf8.RuneError {
				c.Count("named_chars", 1)
				if !mentionsText(msg, rest[:size]) {
					c.Fatal("%s: message %q does not mention character %q", what, msg, r)
				}
				for _, m := range c35Code.FindAllStringSubmatch(msg, -1) {
					if code, e := strconv.ParseUint(m[1], 16, 32); e == nil && code != uint64(r) {
						c.Fatal("%s: message %q does not mention code %x", what, msg, r)
					}
				}
			}
		}
		if tokenError && le.Line > 0 && n == 1 {
			// the token must be named
			for _, t := range seen {
				if l, cl := t.LineCol(); l == le.Line && cl == le.Col && t.SourceName() == le.SourceName && t.Type() >= 0 && t.Text() != "" {
					c.Count("named_tokens", 1)
					if !mentionsPart(le.Message, t.Text()) || !mentionsText(le.Message, t.TypeName()) {
						c.Fatal("%s: message %q does not mention token %q (%q)", what, le.Message, t.TypeName(), t.Text())
					}
				}
			}
		}
	}
}
