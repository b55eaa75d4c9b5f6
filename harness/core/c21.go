package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C21",
		Rule: "random texts of words, spaces, tabs, newlines, comments (also multi-line ones) and junk in 1-3 sources, laid out from random indentation plans and random bytes, with 8 kinds of space token sets (large cases: up to 50 sources, thousands of lines, 150 levels); " +
			"the whole stream of tokens after the indent layer is compared with a line-oriented model; non-trivial: distinct (configuration, text) with at least one indented line",
		Quick: 30000, Thorough: 800000,
		Need: []string{"indents", "dedents", "multi_dedents", "eoi_dedents", "comment_lines", "wrong_indent", "comment_first", "lexical_errors", "empty_tokens", "swapped", "defined_types", "multi_source", "trees", "big_cases"},
		Run:  runC21,
		Assumptions: []string{"an indented first line is a deeper line (the existing tests require this), which a grammar is free not to accept",
			"line breaks inside tokens other than configured space ones do not start a new line, as documented"},
	})
	register(&mon.Check{
		ID: "C22",
		Rule: "random stacks of 1-3 convert layers (large cases: up to 30 layers, hundreds of replacements, thousands of tokens) with random tables, input and output types, over random multi-source texts; the stream of tokens (text, type, source, position) after each layer is compared with a list model; " +
			"random invalid configurations must be rejected by parser.New with the documented error; non-trivial: distinct (configuration, text) with at least one replacement",
		Quick: 30000, Thorough: 800000,
		Need: []string{"replaced", "kept", "position_saved", "no_position", "typed_output", "chained", "invalid_configs", "big_cases"},
		Run:  runC22,
	})
}

// --- C21

type indentConf struct {
	defs   string
	spaces []string // space() arguments
	sides  []string
	types  func(rest string) (string, int) // type and length of a run of whitespace
}

func run1(s, chars string) int {
	n := 0
	for n < len(s) && strings.IndexByte(chars, s[n]) >= 0 {
		n++
	}
	return n
}

var indentConfs = []indentConf{
	{`$sp = /[ \t\n]+/; !side $sp;`, []string{"sp"}, []string{"sp"}, func(s string) (string, int) { return "sp", run1(s, " \t\n") }},
	{`$sp = /[ \t]+/; $nl = /\n/; !side $sp $nl;`, []string{"sp", "nl"}, []string{"sp", "nl"}, func(s string) (string, int) {
		if s[0] == '\n' {
			return "nl", 1
		}
		return "sp", run1(s, " \t")
	}},
	{`$sp = /\s/; !side $sp;`, []string{"sp"}, []string{"sp"}, func(s string) (string, int) { return "sp", 1 }},
	{`$sp = /[ \t]+/; $nl = /\n+/; !side $sp;`, []string{"nl", "sp"}, []string{"sp"}, func(s string) (string, int) {
		if s[0] == '\n' {
			return "nl", run1(s, "\n")
		}
		return "sp", run1(s, " \t")
	}},
	{`$nl = /\n[ \t]*/; $sp = /[ \t]+/; !side $sp $nl;`, []string{"nl"}, []string{"sp", "nl"}, func(s string) (string, int) {
		if s[0] == '\n' {
			return "nl", 1 + run1(s[1:], " \t")
		}
		return "sp", run1(s, " \t")
	}},
	{`$nl = /\n[ \t]*/; $sp = /[ \t]+/; !side $sp;`, []string{"sp", "nl"}, []string{"sp"}, func(s string) (string, int) {
		if s[0] == '\n' {
			return "nl", 1 + run1(s[1:], " \t")
		}
		return "sp", run1(s, " \t")
	}},
	{`$nl = /[ \t]*\n/; $tab = /\t/; $blank = / +/; !side $nl $tab $blank;`, []string{"tab", "blank", "nl"}, []string{"tab", "blank", "nl"}, func(s string) (string, int) {
		if n := run1(s, " \t"); n < len(s) && s[n] == '\n' {
			return "nl", n + 1
		}
		if s[0] == '\t' {
			return "tab", 1
		}
		return "blank", run1(s, " ")
	}},
	{`$nl = /\s*\n\s*/; $sp = /\s+/; !side $sp $nl;`, []string{"nl", "sp"}, []string{"sp", "nl"}, func(s string) (string, int) {
		n := run1(s, " \t\n")
		if strings.Contains(s[:n], "\n") {
			return "nl", n
		}
		return "sp", n
	}},
}

func indentText(c *mon.Ctx, big bool) string {
	lines, words, deeper := 12, 3, 2
	if big {
		lines, words, deeper = logInt(c, 50, 1500), logInt(c, 3, 100), 2+c.IntN(2)
	}
	var b strings.Builder
	word := func() { b.WriteString(pick(c.Rand, []string{"a", "foo", "b", "1", "22", ":", ";"})) }
	if !big && c.Chance(25) {
		for range c.IntN(25) {
			b.WriteString(pick(c.Rand, []string{"a", "b ", " ", "\n", "\n", "\t", "\n ", "\n  ", "#c", "#c\n", "{c}", "{\n}", "1", ":", "\n\n"}))
		}
	} else {
		stack := []string{""}
		for i := range 1 + c.IntN(lines) {
			if b.Len() > 30000 {
				break
			}
			ind := stack[len(stack)-1]
			n := c.IntN(8)
			if big && (i/100%3 == 0 || deeper == 2 && i < lines/2) && n > 0 && n < 4 {
				n %= 2
			}
			if n < 2 && (len(stack) > 150 || len(stack[len(stack)-1]) > 600) {
				n = 7
			}
			switch n {
			case 0, 1:
				ind += pick(c.Rand, []string{" ", "  ", "\t", " \t", "    "})
				if big && len(ind) < 400 && c.Chance(3) {
					ind += strings.Repeat(pick(c.Rand, []string{" ", "\t"}), c.IntN(300))
				}
				stack = append(stack, ind)
			case 2, 3:
				k := c.IntN(len(stack))
				if big && c.Chance(70) {
					k = max(0, len(stack)-1-c.IntN(4))
				}
				stack = stack[:1+k]
				ind = stack[len(stack)-1]
			case 4:
				if c.Chance(15) && (!big || i > 30 && c.Chance(5)) {
					// inconsistent
					switch {
					case len(ind) > 1:
						ind = ind[:c.IntN(len(ind))]
					default:
						ind = "\t" + ind
					}
				}
			}
			b.WriteString(ind)
			for i := range 1 + c.IntN(words) {
				if i > 0 {
					b.WriteString(pick(c.Rand, []string{" ", " ", "  ", "\t", "{c}", " {\n} "}))
				}
				word()
			}
			if c.Chance(15) {
				b.WriteString(pick(c.Rand, []string{" ", " #c", "#c", "{c}", "\t"}))
			}
			for {
				b.WriteString("\n")
				if !c.Chance(25) {
					break
				}
				b.WriteString(pick(c.Rand, []string{"", " ", "\t\t", "#c", "  #c", " {c} ", "{c}{d}", "   {\n  }"}))
				if big && c.Chance(5) {
					b.WriteString(strings.Repeat(pick(c.Rand, []string{"\n", "\n \t", "\n#c", " {c}"}), c.IntN(200)))
				}
				c.Count("comment_lines", 1)
			}
			if !big && c.Chance(2) {
				b.WriteString("{c}a\n")
			}
		}
		s := b.String()
		if c.Chance(40) {
			s = strings.TrimRight(s, "\n")
		}
		b.Reset()
		b.WriteString(s)
	}
	s := b.String()
	if c.Chance(8) {
		i := c.IntN(len(s) + 1)
		s = s[:i] + "!" + s[i:]
	}
	return s
}

// indentRaw splits sources to tokens, stops at text which is no token.
func indentRaw(cf indentConf, srcs []piece) (raw []tokD, junk bool, at tokD) {
	for _, p := range srcs {
		s := p.text
		i := 0
		for i < len(s) {
			rest := s[i:]
			typ, n := "", 0
			switch ch := rest[0]; {
			case ch == ' ' || ch == '\t' || ch == '\n':
				typ, n = cf.types(rest)
			case ch >= 'a' && ch <= 'z':
				typ = "name"
				for n < len(rest) && rest[n] >= 'a' && rest[n] <= 'z' {
					n++
				}
			case ch >= '0' && ch <= '9':
				typ, n = "num", run1(rest, "0123456789")
			case ch == ':' || ch == ';':
				typ, n = "op", 1
			case ch == '#':
				typ, n = "line", len(rest)
				if k := strings.IndexByte(rest, '\n'); k >= 0 {
					n = k
				}
			case ch == '{':
				k := strings.IndexByte(rest, '}')
				if k < 0 {
					return raw, true, tokD{"", "", p.name, i}
				}
				typ, n = "block", k+1
			default:
				return raw, true, tokD{"", "", p.name, i}
			}
			raw = append(raw, tokD{typ, rest[:n], p.name, i})
			i += n
		}
		if len(s) > 0 {
			raw = append(raw, tokD{lexer.EofTokenName, "", p.name, len(s)})
		}
	}
	return append(raw, tokD{lexer.EoiTokenName, "", "", 0}), false, tokD{}
}

type indentResult struct {
	out    []tokD
	sure   int // tokens which must be emitted before the error
	failed bool
	at     []tokD // possible places of the error
	deep   int
}

// indentModel is the line-oriented model of the layer.
// Tokens made of side ones are not known beforehand, so that spaces wait for them.
func indentModel(c *mon.Ctx, raw []tokD, space, side map[string]bool, in, de tokD, made map[tokD]bool) (r indentResult) {
	levels := []string{""}
	bol, commented := true, false
	indent := ""
	run, inRun := -1, false // the last run of spaces at the beginning of a line, nothing but ends of sources may follow
	var prev tokD
	insert := func(t tokD, n int) {
		at := len(r.out)
		if run >= 0 {
			at = run
		}
		for range n {
			r.out = append(r.out[:at], append([]tokD{t}, r.out[at:]...)...)
		}
	}
	for _, t := range raw {
		switch {
		case t.typ == lexer.EoiTokenName:
			insert(de, len(levels)-1)
			c.Count("eoi_dedents", len(levels)-1)
			levels = levels[:1]
			r.out = append(r.out, t)
		case t.text == "":
			r.out = append(r.out, t)
			inRun = false
			continue
		case space[t.typ]:
			if i := strings.LastIndexByte(t.text, '\n'); i >= 0 {
				bol, commented, indent = true, false, t.text[i+1:]
			} else if bol && !commented {
				indent += t.text
			}
			if bol && !inRun {
				run, inRun = len(r.out), true
			}
			r.out = append(r.out, t)
		case side[t.typ]:
			r.out = append(r.out, t)
			if bol {
				commented = true
			}
			run, inRun = -1, false
		default:
			if bol {
				if made[t] && !inRun {
					run = -1 // pending spaces are emitted before empty tokens
				}
				bad := commented
				if commented {
					c.Count("comment_first", 1)
				}
				cur := levels[len(levels)-1]
				switch {
				case bad || indent == cur:
				case strings.HasPrefix(indent, cur):
					levels = append(levels, indent)
					c.Max("levels", len(levels))
					insert(in, 1)
					r.deep++
					c.Count("indents", 1)
				default:
					n := -1
					for i, s := range levels {
						if s == indent {
							n = i
						}
					}
					if n < 0 {
						bad = true
						c.Count("wrong_indent", 1)
						break
					}
					k := len(levels) - 1 - n
					insert(de, k)
					c.Count("dedents", k)
					if k > 1 {
						c.Count("multi_dedents", 1)
					}
					levels = levels[:n+1]
				}
				if bad {
					r.failed = true
					r.at = []tokD{t, prev}
					return
				}
				bol = false
			}
			r.out = append(r.out, t)
			r.sure = len(r.out)
			run, inRun = -1, false
		}
		prev = t
	}
	return
}

func runC21(c *mon.Ctx) {
	cf := pick(c.Rand, indentConfs)
	sides := map[string]bool{"line": true, "block": true, "mark": true}
	spaces := map[string]bool{}
	for _, s := range cf.spaces {
		spaces[s] = true
	}
	for _, s := range cf.sides {
		sides[s] = true
	}
	in, de := tokD{typ: "in"}, tokD{typ: "de"}
	if c.Chance(10) {
		de.typ = "in"
	}
	noise := c.Chance(20)
	layer := []string{"space(" + strings.Join(cf.spaces, ", ") + ")", "on-indent(" + in.typ + ")", "on-dedent(" + de.typ + ")"}
	c.Shuffle(3, func(i, j int) { layer[i], layer[j] = layer[j], layer[i] })
	text := cf.defs + "\n$name = /[a-z]+/; $num = /[0-9]+/; $op = /[:;]/; $line = /#[^\\n]*/; $block = /\\{[^}]*\\}/;\n"
	// types of inserted tokens may be defined ones
	ext := "$mark $empty"
	for _, t := range []string{"in", "de"} {
		switch {
		case t == "de" && de.typ == "in":
			ext += " $de"
		case c.Chance(20):
			text = "$" + t + " = /\\x01/; " + text
			c.Count("defined_types", 1)
		case c.Chance(20):
			text += "$" + t + " = /\\x01/;\n"
			c.Count("defined_types", 1)
		default:
			ext += " $" + t
		}
	}
	text += "!side $line $block $mark; !extern " + ext + ";\n"
	if noise {
		text += "@noise;\n"
	}
	text += "@indent " + strings.Join(layer, " ") + ";\n"
	blocks := de.typ != "in" && !noise && c.Chance(30) && len(cf.spaces) <= len(cf.sides)
	var all []string
	for _, t := range []string{"name", "num", "op", "in", "de", "empty"} {
		all = append(all, "$"+t)
	}
	for _, s := range cf.spaces {
		if !sides[s] {
			all = append(all, "$"+s)
		}
	}
	if blocks {
		for _, s := range cf.spaces {
			blocks = blocks && sides[s]
		}
	}
	if blocks {
		text += "root = {st}, $;\nst = ($name | $num | $op), [$in, st, {st}, $de];\n"
	} else {
		text += "root = {" + strings.Join(all, " | ") + "}, $;\n"
	}
	seed := c.Uint64()
	noiseOf := func(d tokD) string {
		if h := hash(seed, d); noise && !d.special() && h%5 == 0 {
			return []string{"mark", "empty"}[h/5%2]
		}
		return ""
	}
	// some comments become words
	swapped := func(d tokD) bool { return noise && d.typ == "block" && hash(seed, d)%3 == 0 }
	types := map[string]int{}
	var opts []parser.Option
	if noise {
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			if swapped(descr(t)) {
				return false, []*lexer.Token{lexer.NewToken(types["name"], "name", []byte("x"), t.Pos())}, nil
			}
			if n := noiseOf(descr(t)); n != "" {
				return true, []*lexer.Token{lexer.NewToken(types[n], n, nil, source.Pos{})}, nil
			}
			return true, nil, nil
		}
		opts = append(opts, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{
			"noise": tplFunc(&layerTpl{func() parser.Hooks { return parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}} }}),
		}))
	}
	c.Put("grammar", text)
	p, e := hx.Compile(text, opts...)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	for i, t := range p.Tokens() {
		types[t.Name] = i
	}
	big := c.Idx%60 == 7
	if big {
		c.Count("big_cases", 1)
	}
	for range 3 {
		s := indentText(c, big)
		c.Max("text", len(s))
		var srcs []piece
		names := 1
		if c.Chance(30) && len(s) > 0 {
			names = 2 + c.IntN(2)
			if big {
				names = logInt(c, 2, 50)
			}
		}
		q := source.NewQueue()
		var kept [][]byte
		for i := range names {
			t := s
			if i < names-1 {
				n := c.IntN(len(s) + 1)
				if big {
					n = c.IntN(2*len(s)/names + 1)
				}
				t, s = s[:n], s[n:]
			}
			pc := piece{fmt.Sprintf("s%d", i), t, 0}
			// spare capacity must not be written to as well
			b := append(make([]byte, 0, len(t)+16), t...)
			kept = append(kept, b[:cap(b)])
			if len(t) == 0 {
				kept = kept[:len(kept)-1]
				continue
			}
			srcs = append(srcs, pc)
			q.Append(source.New(pc.name, b))
		}
		if names > 1 {
			c.Count("multi_source", 1)
		}
		raw, junk, at := indentRaw(cf, srcs)
		var stream []tokD
		made := map[tokD]bool{}
		for _, t := range raw {
			if swapped(t) {
				stream = append(stream, tokD{"name", "x", t.src, t.pos})
				made[stream[len(stream)-1]] = true
				c.Count("swapped", 1)
				continue
			}
			stream = append(stream, t)
			if n := noiseOf(t); n != "" {
				stream = append(stream, tokD{typ: n})
				c.Count("empty_tokens", 1)
			}
		}
		r := indentModel(c, stream, spaces, sides, in, de, made)
		var got []tokD
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			d := descr(t)
			got = append(got, d)
			if d.src == "" && d.typ != "mark" && d.typ != "empty" && !d.special() && (d.typ != in.typ && d.typ != de.typ || t.Type() != types[d.typ]) {
				return false, nil, fmt.Errorf("token of unexpected type %d %q", t.Type(), d.typ)
			}
			return true, nil, nil
		}
		rec := &hx.Recorder{}
		hooks := rec.Hooks()
		hooks.Tokens = parser.TokenHooks{parser.AnyToken: hook, parser.EofToken: hook, parser.EoiToken: hook}
		c.Eval()
		_, e := p.Parse(bg, q, hooks)
		fail := func(format string, args ...any) {
			c.Put("input", fmt.Sprintf("%q", srcs))
			c.Fatal(format+"; sources %q, grammar:\n%s", append(args, srcs, text)...)
		}
		for i, b := range kept {
			if !bytes.Equal(b[:len(srcs[i].text)], []byte(srcs[i].text)) || len(bytes.Trim(b[len(srcs[i].text):], "\x00")) != 0 {
				fail("content of source %q is changed to %q", srcs[i].name, b)
			}
		}
		if big {
			if !r.failed && !junk {
				c.Count("big_passed", 1)
			}
			c.Max("big_tokens", len(r.out))
		}
		if r.deep > 0 {
			c.Distinct(text, fmt.Sprint(srcs))
		}
		accepted := true
		tree := ""
		if blocks && !r.failed && !junk {
			tree, accepted = indentTree(r.out, sides)
		}
		n := 0
		for n < len(got) && n < len(r.out) && got[n] == r.out[n] {
			n++
		}
		if n < len(got) {
			fail("token %d is %v instead of %v: %v", n, got[n], append(r.out, tokD{})[n], got)
		}
		switch {
		case r.failed || junk:
			if !blocks && n < r.sure {
				fail("only %d of %d tokens are emitted before the error %v, the next one is %v", n, r.sure, e, r.out[n])
			}
			le := hx.LLX(e)
			if le == nil {
				fail("wrong text gives %v", e)
			}
			if blocks && le.Code != common.WrongTokenError && le.Code != lexer.WrongCharError && le.Code != lexer.BadTokenError {
				break // the syntax may be wrong before this place
			}
			if !r.failed {
				c.Count("lexical_errors", 1)
				if le.Code != lexer.WrongCharError && le.Code != lexer.BadTokenError {
					fail("error %v instead of a lexical error at %q %d", e, at.src, at.pos)
				}
				r.at = []tokD{at}
			} else if le.Code != common.WrongTokenError {
				fail("error %v instead of an indentation error at %v", e, r.at)
			}
			ok := false
			for _, t := range r.at {
				for _, s := range srcs {
					if s.name == t.src {
						l, cl := refLineCol(s.text, t.pos)
						ok = ok || le.SourceName == t.src && le.Line == l && le.Col == cl
					}
				}
			}
			if !ok {
				fail("error %v is not at any of %v", e, r.at)
			}
		case !accepted:
			if le := hx.LLX(e); le == nil || le.Code != parser.UnexpectedTokenError && le.Code != parser.UnexpectedEoiError {
				fail("error %v instead of a syntax error", e)
			}
		default:
			if e != nil {
				fail("unexpected error %v after %d tokens", e, n)
			}
			if n < len(r.out) {
				fail("token %d must be %v, nothing is emitted", n, r.out[n])
			}
			if blocks {
				c.Count("trees", 1)
				if t := rec.Root.String(); t != tree {
					fail("tree %s instead of %s", t, tree)
				}
			}
		}
		if c.Idx < 10 {
			c.Sample("%q: %v", srcs, r.out)
		}
	}
}

// indentTree builds a tree of blocks.
func indentTree(toks []tokD, sides map[string]bool) (string, bool) {
	var ts []tokD
	for _, t := range toks {
		if !sides[t.typ] && t.typ != lexer.EofTokenName {
			ts = append(ts, t)
		}
	}
	i := 0
	var st func() (string, bool)
	word := func() bool { return ts[i].typ == "name" || ts[i].typ == "num" || ts[i].typ == "op" }
	st = func() (string, bool) {
		parts := []string{ts[i].text}
		i++
		if ts[i].typ == "in" {
			i++
			parts = append(parts, "")
			n := 0
			for word() {
				s, ok := st()
				if !ok {
					return "", false
				}
				parts = append(parts, s)
				n++
			}
			if n == 0 || ts[i].typ != "de" {
				return "", false
			}
			parts = append(parts, "")
			i++
		}
		return "st(" + strings.Join(parts, " ") + ")", true
	}
	var parts []string
	for word() {
		s, ok := st()
		if !ok {
			return "", false
		}
		parts = append(parts, s)
	}
	if i != len(ts)-1 {
		return "", false
	}
	parts = append(parts, "<eoi>")
	return "root(" + strings.Join(parts, " ") + ")", true
}

// --- C22

type convLayer struct {
	in, out string
	save    bool
	table   map[string]string
}

var c22Types = []string{"sp", "name", "num", "op", "di", "str", "x", "y", "z"}

const c22Grammar = `
$sp = / +/; $name = /[a-z]+/; $num = /[0-9]+/; $di = /\(\.|\.\)/; $op = /[-+*(.)]/; $str = /"[^"]*"/; $bad = /%./;
!side $sp $z; !extern $x $y $z; !error $bad; !literal $name $num $op $x $di; !reserved 'if';
`

func runC22(c *mon.Ctx) {
	pool := []string{"a", "foo", "if", "1", "22", "(.", ".)", "+", "-", "(", ".", `""`, `"a"`, " ", "  ", "", "x", "ж", "\xff", "long text", "\n"}
	n := 1 + c.IntN(3)
	maxSrc, maxTok := 2, 12
	big := c.Idx%60 == 7
	if big {
		n = logInt(c, 1, 30)
		maxSrc, maxTok = logInt(c, 1, 60), logInt(c, 12, 300)
		for _, l := range []int{c.IntN(100), c.IntN(300)} {
			pool = append(pool, fmt.Sprintf("w%d", l), strings.Repeat("long ", l))
		}
		for i := range logInt(c, 1, 200) {
			pool = append(pool, fmt.Sprint(i), gen.Word(i))
		}
		c.Count("big_cases", 1)
		c.Max("layers", n)
	}
	layers := make([]*convLayer, n)
	var decls []string
	cmds := make([][]string, n)
	for i := range layers {
		l := &convLayer{table: map[string]string{}, save: c.Chance(50)}
		if c.Chance(50) {
			l.in = pick(c.Rand, c22Types)
		}
		if c.Chance(50) {
			l.out = pick(c.Rand, c22Types)
		}
		for {
			var args []string
			num := 4
			if big {
				num = len(pool) / 2
			}
			for range 1 + c.IntN(num) {
				from, to := pick(c.Rand, pool), pick(c.Rand, pool)
				if _, has := l.table[from]; has {
					continue
				}
				l.table[from] = to
				args = append(args, gen.Quote(from), gen.Quote(to))
			}
			if len(args) > 0 {
				cmds[i] = append(cmds[i], "convert("+strings.Join(args, ", ")+")")
			}
			if c.Chance(70) && len(l.table) > 0 {
				break
			}
		}
		if l.in != "" {
			cmds[i] = append(cmds[i], "input-type("+l.in+")")
		}
		if l.out != "" {
			cmds[i] = append(cmds[i], "output-type("+l.out+")")
		}
		if l.save {
			cmds[i] = append(cmds[i], "save-position()")
		}
		c.Shuffle(len(cmds[i]), func(a, b int) { cmds[i][a], cmds[i][b] = cmds[i][b], cmds[i][a] })
		layers[i] = l
	}
	if c.Chance(20) {
		c22Invalid(c, layers, cmds)
		return
	}
	for i := range cmds {
		decls = append(decls, "@convert "+strings.Join(cmds[i], " ")+";")
	}
	var ptrs []*lexer.Token
	tpl := tplFunc(&layerTpl{func() parser.Hooks {
		h := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			ptrs = append(ptrs, t)
			return true, nil, nil
		}
		return parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: h, parser.EofToken: h, parser.EoiToken: h}}
	}})
	text := c22Grammar + "@watch;\n" + joinLines(decls) + "\nroot = {"
	for i, t := range []string{"name", "num", "op", "di", "str", "x", "y"} {
		if i > 0 {
			text += " | "
		}
		text += "$" + t
	}
	text += " | 'if' | '+' | 'foo'}, $;\n"
	c.Put("grammar", text)
	p, e := hx.Compile(text, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"watch": tpl}))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v; grammar:\n%s", e, text)
	}
	types := map[string]int{}
	for i, t := range p.Tokens() {
		types[t.Name] = i
	}
	for range 3 {
		var raw []tokD
		q := source.NewQueue()
		input := ""
		for s := range 1 + c.IntN(maxSrc) {
			name := fmt.Sprintf("s%d", s)
			var b strings.Builder
			for range 1 + c.IntN(maxTok) {
				var typ, t string
				k := c.IntN(6)
				if big && c.Chance(60) {
					k = 6 + c.IntN(2)
				}
				switch k {
				case 6:
					typ, t = "name", gen.Word(c.IntN(200))
				case 7:
					typ, t = "num", fmt.Sprint(c.IntN(200))
				case 0:
					typ, t = "name", pick(c.Rand, []string{"a", "foo", "if", "x", "b"})
				case 1:
					typ, t = "num", pick(c.Rand, []string{"1", "22", "3"})
				case 2:
					typ, t = "op", pick(c.Rand, []string{"+", "-", "*"})
				case 3:
					typ, t = "di", pick(c.Rand, []string{"(.", ".)"})
				case 4:
					typ, t = "str", pick(c.Rand, []string{`""`, `"a"`, `"b"`})
				default:
					typ, t = "sp", pick(c.Rand, []string{" ", "  ", "   "})
				}
				if k := len(raw); b.Len() > 0 && (typ == "sp" && raw[k-1].typ == "sp" || needSpace(b.String(), t)) {
					if typ == "sp" {
						continue
					}
					raw = append(raw, tokD{"sp", " ", name, b.Len()})
					b.WriteString(" ")
				}
				raw = append(raw, tokD{typ, t, name, b.Len()})
				b.WriteString(t)
			}
			if b.Len() == 0 {
				continue
			}
			raw = append(raw, tokD{lexer.EofTokenName, "", name, b.Len()})
			q.Append(source.New(name, []byte(b.String())))
			input += b.String() + "|"
		}
		raw = append(raw, tokD{lexer.EoiTokenName, "", "", 0})
		want := append([]tokD{}, raw...)
		replaced := make([]int, len(want))
		for _, l := range layers {
			for i, t := range want {
				if t.special() || l.in != "" && l.in != t.typ {
					continue
				}
				to, has := l.table[t.text]
				if !has {
					continue
				}
				r := tokD{typ: t.typ, text: to}
				if l.out != "" {
					r.typ = l.out
					c.Count("typed_output", 1)
				}
				if l.save {
					r.src, r.pos = t.src, t.pos
					c.Count("position_saved", 1)
				} else {
					c.Count("no_position", 1)
				}
				want[i] = r
				replaced[i]++
			}
		}
		ptrs = nil
		var got []*lexer.Token
		h := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			got = append(got, t)
			return true, nil, nil
		}
		rec := &hx.Recorder{}
		hooks := rec.Hooks()
		hooks.Tokens = parser.TokenHooks{parser.AnyToken: h, parser.EofToken: h, parser.EoiToken: h}
		c.Eval()
		_, e := p.Parse(bg, q, hooks, parser.WithSides())
		fail := func(format string, args ...any) {
			c.Put("input", input)
			c.Fatal(format+"; input %q, grammar:\n%s", append(args, input, text)...)
		}
		if e != nil {
			fail("unexpected error %v", e)
		}
		some := false
		for i, t := range got {
			if i >= len(want) {
				fail("extra token %v", descr(t))
			}
			if d := descr(t); d != want[i] {
				fail("token %d is %v instead of %v", i, d, want[i])
			}
			if tt, has := types[t.TypeName()]; has && t.Type() != tt {
				fail("token %d has type %d instead of %d (%q)", i, t.Type(), tt, t.TypeName())
			}
			switch replaced[i] {
			case 0:
				c.Count("kept", 1)
				if t != ptrs[i] {
					fail("token %d %v is not listed, but a copy is passed", i, descr(t))
				}
			case 1:
				c.Count("replaced", 1)
			default:
				c.Count("chained", 1)
			}
			some = some || replaced[i] > 0
		}
		if len(got) != len(want) {
			fail("%d tokens instead of %d", len(got), len(want))
		}
		// node hooks get the same
		k := 0
		for _, t := range want {
			if t.typ == lexer.EofTokenName {
				continue
			}
			if k >= len(rec.Tokens) || descr(rec.Tokens[k]) != t {
				fail("token %v is not delivered to the root node in its place", t)
			}
			k++
		}
		if some {
			c.Distinct(text, input)
		}
		if c.Idx < 10 {
			c.Sample("%s\n%q: %v", joinLines(decls), input, want)
		}
	}
}

// c22Invalid makes exactly one mistake.
func c22Invalid(c *mon.Ctx, layers []*convLayer, cmds [][]string) {
	i := c.IntN(len(cmds))
	l := layers[i]
	add := func(s string) {
		at := c.IntN(len(cmds[i]) + 1)
		cmds[i] = append(cmds[i][:at], append([]string{s}, cmds[i][at:]...)...)
	}
	drop := func(pref string) {
		var res []string
		for _, s := range cmds[i] {
			if !strings.HasPrefix(s, pref) {
				res = append(res, s)
			}
		}
		cmds[i] = res
	}
	code := 0
	words := []any{"convert"}
	switch c.IntN(8) {
	case 0:
		drop("convert(")
		code = common.MissingCommandError
		if len(cmds[i]) == 0 {
			add("save-position()")
		}
	case 1:
		k := c.IntN(6)
		cmd := pick(c.Rand, []string{"convert", "save-position"})
		if cmd == "convert" {
			k = max(0, k*2-1)
			words = append(words, max(2, k+1))
		} else {
			k++
			words = append(words, 0)
		}
		var args []string
		for i := range k {
			args = append(args, gen.Word(i)+"qq")
		}
		add(cmd + "(" + strings.Join(args, ", ") + ")")
		words = append(words, k, cmd)
		code = common.NumberOfArgumentsError
	case 2:
		t := pick(c.Rand, []string{"input-type", "output-type"})
		drop(t)
		k := []int{0, 2, 2, 3}[c.IntN(4)]
		add(t + []string{"()", "", pick(c.Rand, []string{"(name, num)", "(name, name)"}), "(num, name, name)"}[k])
		words = append(words, t, 1, k)
		code = common.NumberOfArgumentsError
	case 3:
		t := pick(c.Rand, []string{"input-type", "output-type"})
		drop(t)
		w := pick(c.Rand, []string{"foo", "bad", "+", "if", "$name", "Name"})
		add(t + "(" + gen.Quote(w) + ")")
		words = append(words, t, w)
		code = common.UnknownTokenTypeError
	case 4:
		t := pick(c.Rand, []string{"input-type", "output-type"})
		drop(t)
		add(t + "(" + pick(c.Rand, c22Types) + ")")
		add(t + "(" + pick(c.Rand, c22Types) + ")")
		words = append(words, t)
		code = common.CommandAlreadyUsedError
	case 5:
		for from, to := range l.table {
			if c.Chance(50) {
				to = "other"
			}
			add("convert(" + gen.Quote(from) + ", " + gen.Quote(to) + ")")
			words = append(words, from)
			break
		}
		code = common.InvalidArgumentError
	case 6:
		add("convert('new', a, 'new2', b, 'new', a)")
		code = common.InvalidArgumentError
	default:
		w := pick(c.Rand, []string{"input", "Convert", "type", "save-pos"})
		add(w + pick(c.Rand, []string{"()", "(q, r)", "(name)"}))
		words = append(words, w)
		code = common.UnknownCommandError
	}
	text := c22Grammar
	for i := range cmds {
		text += "@convert " + strings.Join(cmds[i], " ") + ";\n"
	}
	text += "root = {$name | $num | $op | $di | $str | $x | $y | 'if'};\n"
	c.Put("grammar", text)
	c.Count("invalid_configs", 1)
	c.Eval()
	c.Distinct(text)
	_, e := hx.Compile(text)
	le := hx.LLX(e)
	if le == nil || le.Code != code || !mentions(le, words...) {
		c.Fatal("error %v instead of an error with code %d mentioning %q, grammar:\n%s", e, code, words, text)
	}
}
