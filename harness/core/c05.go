package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C05",
		Rule: "random token type lists (greedy, lazy, alternating, flagged, multi-byte expressions; side, error and grouped types) and random texts incl. broken UTF-8; " +
			"the token hook log of a parse is compared with a reference scan using each expression on its own; non-trivial: distinct (types, text) with at least 4 tokens of at least 2 types",
		Quick: 40000, Thorough: 1000000,
		Need: []string{"tokens", "wrong_char", "bad_token", "complete", "contested", "multibyte", "groups"},
		Run:  runC05,
	})
	register(&mon.Check{
		ID: "C09",
		Rule: "lexers with random expressions (token types, ignorable text, error types, undescribed groups) called on queues of several sources with random type sets; " +
			"each call is compared with a reference step on a model queue; non-trivial: distinct (lexer, text) with at least 3 different outcomes",
		Quick: 120000, Thorough: 3000000,
		Need: []string{"long_texts", "many_sources", "token", "nothing", "wrong_char", "bad_token", "eof", "eoi", "ignored", "no_types", "maybe_empty"},
		Run:  runC09,
	})
}

// expressions which never match an empty string
var rePool = []string{
	`[a-z]+`, `[a-z]`, `[a-z]+?`, `a|ab|abc`, `abc|ab|a`, `a+?b?`, `[0-9]+`, `[0-9]{2}`, `[0-9]{1,3}?`, `\d+\.\d+`,
	`(?i)foo`, `(?i:B)`, `(?U)b+`, `(?-s).`, `.`, `\+`, `[-+]`, `\+\+?`, `-{2,}`, ` +`, `[ \t]+`, `\n`, `[\r\n]+`, `\r?\n`,
	`"[^"]*"`, `"(?:[^"\\]|\\.)*"`, `".*?"`, `"(?-s:.*)"`, `"(?U-s:.*)"`, `'[^'\n]*'`, `#[^\n]*`, `#[^\n]*(?:\n|$)`, `(?m)#.*$`, `\(\*.*?\*\)`,
	`ж+`, `[^a-z0-9 ]`, `\p{L}+`, `\p{Cyrillic}`, `[^\x00-\x7f]+`, `😀`, `foo\b`, `[a-z]+\b`, `a\B`, `b\z`, `(?:a|b)+`, `foo|bar`, `€[0-9]*`, `\{[^}]*\}`,
	`=|==`, `==|=`, `[;,]`, `\\.`, `(?s).;`, `(?-s).;`, `x*y`, `x+`, `[^"]{1,4}?;`,
}

var textPool = []string{"a", "b", "ab", "abc", "foo", "Foo", "FOO", "bar", "x", "y", "xxy", "1", "22", "3.14", "+", "++", "-", "--", "---", " ", "  ", "\t", "\n", "\r\n", "\r",
	"\"s\"", "\"", "\"a\\\"b\"", "'q'", "'", "#c", "#c\n", "(*", "*)", "ж", "жж", "Щ", "€", "€5", "😀", "\xff", "\xc3", "\xe2\x82", "\x00", "{", "}", "=", "==", ";", ",", "\\", "."}

func randText(c *mon.Ctx, pieces int) string {
	var b strings.Builder
	sub := textPool
	if c.Chance(60) {
		sub = nil
		for range 3 + c.IntN(12) {
			sub = append(sub, pick(c.Rand, textPool))
		}
	}
	for range pieces {
		b.WriteString(pick(c.Rand, sub))
	}
	return b.String()
}

type reType struct {
	name  string
	re    string
	rx    *regexp.Regexp
	flag  string // "", side, error
	group int
}

func compileRe(re string) *regexp.Regexp { return regexp.MustCompile(`\A(?s:` + re + `)`) }

var reCache = map[string]*regexp.Regexp{}

func cachedRe(re string) *regexp.Regexp {
	r := reCache[re]
	if r == nil {
		r = compileRe(re)
		reCache[re] = r
	}
	return r
}

// refLineCol counts lines and runes.
func refLineCol(text string, pos int) (int, int) {
	line, col := 1, 1
	for i, r := range text {
		if i >= pos {
			break
		}
		if r == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

func reLiteral(re string) string { return "/" + strings.ReplaceAll(re, "/", "\\/") + "/" }

func runC05(c *mon.Ctx) {
	n := 2 + c.IntN(7)
	rePool := rePool
	large := c.IntN(500) == 0
	if large {
		// expressions which take linear time
		rePool = []string{`[a-z]+`, `"[^"]*"`, `[ \n]+`, `[0-9]`, `ж+`, `[-+]`}
		n = len(rePool)
	}
	var types []reType
	used := map[string]bool{}
	groups := 0
	if !large && c.Chance(25) {
		groups = 1 + c.IntN(2)
	}
	normal := 0
	for len(types) < n {
		re := pick(c.Rand, rePool)
		if used[re] {
			continue
		}
		used[re] = true
		t := reType{name: fmt.Sprintf("t%d", len(types)), re: re, rx: cachedRe(re)}
		switch {
		case c.Chance(12) && !large:
			t.flag = "error"
		case c.Chance(20):
			t.flag = "side"
		}
		if groups > 0 && c.Chance(40) {
			t.group = 1 + c.IntN(groups)
		}
		types = append(types, t)
		if t.flag == "" {
			normal++
		}
	}
	if normal == 0 {
		types[0].flag = ""
	}
	if c.Chance(10) {
		c.Count("many_types", 1)
		for i := range 20 + c.IntN(33) {
			re := fmt.Sprintf("~%d(?:_|%%)~", i)
			j := c.IntN(len(types) + 1)
			types = append(types[:j:j], append([]reType{{name: fmt.Sprintf("u%d", i), re: re, rx: cachedRe(re)}}, types[j:]...)...)
		}
	}
	// group numbers follow !group directives, a group must not be empty
	gmap := map[int]int{}
	for i := 1; i <= groups; i++ {
		for _, t := range types {
			if t.group == i {
				gmap[i] = len(gmap) + 1
				break
			}
		}
	}
	groups = len(gmap)
	for i := range types {
		types[i].group = gmap[types[i].group]
	}
	var d, r strings.Builder
	for _, t := range types {
		fmt.Fprintf(&d, "$%s = %s;\n", t.name, reLiteral(t.re))
		if t.flag != "" {
			fmt.Fprintf(&d, "!%s $%s;\n", t.flag, t.name)
		}
		if t.flag == "" {
			if r.Len() > 0 {
				r.WriteString(" | ")
			}
			r.WriteString("$" + t.name)
		}
	}
	for g := 1; g <= groups; g++ {
		d.WriteString("!group")
		for _, t := range types {
			if t.group == g {
				d.WriteString(" $" + t.name)
			}
		}
		d.WriteString(";\n")
	}
	defs := d.String()
	p := compileOrFail(c, defs+"root = {"+r.String()+"};\n")
	if groups > 0 {
		c.Count("groups", 1)
	}
	sampled := false
	for range 4 {
		size := 1 + c.IntN(25)
		if c.Chance(2) {
			size = 2000
		}
		text := randText(c, size)
		if c.Chance(70) {
			// mostly pieces which some type can match
			var fit []string
			for _, s := range textPool {
				for _, t := range types {
					if loc := t.rx.FindStringIndex(s); loc != nil && loc[1] == len(s) && t.flag != "error" {
						fit = append(fit, s)
						break
					}
				}
			}
			var b strings.Builder
			for range size {
				if len(fit) > 0 && !c.Chance(3) {
					b.WriteString(pick(c.Rand, fit))
				} else {
					b.WriteString(pick(c.Rand, textPool))
				}
			}
			text = b.String()
		}
		if large {
			var b strings.Builder
			long := func(s string) string { return strings.Repeat(s, 1+c.IntN(100000)) }
			for range 10 + c.IntN(5000) {
				b.WriteString(pick(c.Rand, []string{"a ", "foo\n", "1", "ж", "\"x\"", "\"\n\"", "-", "+"}))
			}
			for range c.IntN(4) {
				b.WriteString(pick(c.Rand, []string{long("a"), long(" "), "\"" + long("x ") + "\"", long("ж"), long("\n"), "\"" + long("\n") + "\""}))
				b.WriteString(pick(c.Rand, []string{"1", "\"\"", "-", "?"}))
			}
			text, size = b.String(), 2000
			c.Count("large_texts", 1)
		} else if c.IntN(300) == 0 {
			// a long token or a long sequence of short ones
			x := strings.Repeat(pick(c.Rand, []string{"a", "ab", " ", "\n", "1", "ж", "x", "--"}), 500+c.IntN(2500))
			switch c.IntN(3) {
			case 0:
				x = `"` + x + `"`
			case 1:
				x = "#" + x
			}
			if size > 100 {
				text = text[:100]
			}
			text += x + "\n" + randText(c, 10)
			size = 2000
			c.Count("long_texts", 1)
		}
		c.Eval()
		type tk struct {
			t    int
			pos  int
			text string
		}
		var want []tk
		// reference scan
		pos := 0
		failed, noMatch := false, false
		var badTexts []string
		kinds := map[int]bool{}
		contested := 0
		for pos < len(text) {
			found := -1
			var m []int
		gl:
			for g := 0; g <= groups; g++ {
				hit := 0
				for i, t := range types {
					if t.group != g {
						continue
					}
					loc := t.rx.FindStringIndex(text[pos:])
					if loc == nil {
						continue
					}
					hit++
					if hit > 1 {
						continue
					}
					if t.flag == "error" {
						badTexts = append(badTexts, text[pos:pos+loc[1]])
						continue
					}
					found, m = i, loc
				}
				if hit > 1 {
					contested++
				}
				if found >= 0 {
					break gl
				}
				if hit == 0 {
					noMatch = true
				}
			}
			if found < 0 {
				// groups may disagree on what is wrong
				failed = true
				break
			}
			noMatch, badTexts = false, nil
			want = append(want, tk{found, pos, text[pos : pos+m[1]]})
			kinds[found] = true
			pos += m[1]
		}
		c.Count("contested", contested)
		// the real scan
		var got []*lexer.Token
		hook := func(_ context.Context, t *lexer.Token, _ *parser.TokenContext) (bool, []*lexer.Token, error) {
			got = append(got, t)
			return true, nil, nil
		}
		src := source.New("input", []byte(text))
		_, e := p.Parse(bg, source.NewQueue().Append(src), parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}}, parser.WithFullSource())
		fail := func(format string, args ...any) {
			c.Put("input", text)
			c.Fail(format+"; text %.200q, types:\n%s", append(args, text, defs)...)
		}
		for i, t := range got {
			if i >= len(want) {
				fail("extra token %s after %d tokens", hx.TokName(t), i)
				return
			}
			w := want[i]
			if t.TypeName() != types[w.t].name || t.Text() != w.text || t.Pos().Pos() != w.pos || t.Source() != src {
				fail("token %d is %s instead of %s:%q@%d", i, hx.TokName(t), types[w.t].name, w.text, w.pos)
				return
			}
			if string(t.Content()) != w.text || t.SourceName() != "input" {
				fail("token %s: content %q, source %q", hx.TokName(t), t.Content(), t.SourceName())
				return
			}
			if size < 100 {
				l, cl := t.LineCol()
				if wl, wc := refLineCol(text, w.pos); wl != l || wc != cl {
					// offset may be inside of a broken rune only, columns are not defined then
					if runeStart(text, w.pos) {
						fail("token %s: line %d col %d instead of %d:%d", hx.TokName(t), l, cl, wl, wc)
						return
					}
				}
			}
			if len(w.text) > utf8.RuneCountInString(w.text) {
				c.Count("multibyte", 1)
			}
		}
		c.Count("tokens", len(got))
		if len(got) != len(want) {
			fail("%d tokens instead of %d, the next one is %q@%d, error %v", len(got), len(want), want[len(got)].text, want[len(got)].pos, e)
			return
		}
		code := 0
		if !failed {
			if e != nil {
				fail("all text is covered by tokens, error %v", e)
				return
			}
			c.Count("complete", 1)
		} else {
			le := hx.LLX(e)
			if le == nil || le.Code != lexer.WrongCharError && le.Code != lexer.BadTokenError {
				fail("error %v instead of a lexical error at %d", e, pos)
				return
			}
			code = le.Code
			if l, cl := refLineCol(text, pos); runeStart(text, pos) && (l != le.Line || cl != le.Col) {
				fail("lexical error at %d:%d instead of %d:%d: %v", le.Line, le.Col, l, cl, e)
				return
			}
			if code == lexer.WrongCharError {
				c.Count("wrong_char", 1)
				if !noMatch {
					fail("%v, but an error token matches there", e)
					return
				}
			} else {
				c.Count("bad_token", 1)
				ok := false
				for _, bad := range badTexts {
					ok = ok || strings.Contains(le.Message, bad) || strings.Contains(le.Message, strings.Trim(fmt.Sprintf("%q", bad), `"`))
				}
				if !ok {
					fail("error %q does not contain the captured text %q", le.Message, badTexts)
					return
				}
			}
		}
		if len(want) >= 4 && len(kinds) >= 2 {
			c.Distinct(defs, text)
			if !sampled {
				sampled = true
				c.Sample("%stext: %.100q -> %d tokens, error code %d", defs, text, len(want), code)
			}
		}
	}
}

func runeStart(text string, pos int) bool {
	for i := range text {
		if i == pos {
			return true
		}
		if i > pos {
			return false
		}
	}
	return pos == len(text)
}

// --- C09

type lexAlt struct {
	rx   *regexp.Regexp
	re   string
	typ  int // 0..63 or -1 = error, -2 = ignorable
	pre  string
	post string
}

func runC09(c *mon.Ctx) {
	n := 2 + c.IntN(6)
	if c.Chance(6) {
		n = 15 + c.IntN(30)
		c.Count("many_types", 1)
	}
	var alts []lexAlt
	used := map[string]bool{}
	var types []lexer.TokenType
	var parts []string
	mask := uint64(0)
	for len(alts) < n {
		re := pick(c.Rand, rePool)
		if used[re] {
			continue
		}
		used[re] = true
		a := lexAlt{re: re, rx: cachedRe(re)}
		switch {
		case c.Chance(25):
			a.typ = -2
			parts = append(parts, "(?:"+re+")")
		default:
			part := "(" + re + ")"
			if c.Chance(15) {
				// a token is a part of a match
				a.pre, a.post = "<", ">"
				if c.Chance(40) {
					// a token may be empty
					re = "(?:" + re + ")?"
					c.Count("maybe_empty", 1)
				}
				part = "<(" + re + ")>"
				a.rx = cachedRe("<(?:" + re + ")>")
			}
			parts = append(parts, part)
			t := c.IntN(64)
			if c.Chance(20) {
				t = pick(c.Rand, []int{0, 1, 62, 63})
			}
			a.typ = t
			if c.Chance(12) {
				t = pick(c.Rand, []int{-1, -4, 64, 100, lexer.ErrorTokenType, -3})
				a.typ = -1
			} else {
				mask |= 1 << t
			}
			types = append(types, lexer.TokenType{Type: t, TypeName: fmt.Sprintf("t%d", t)})
		}
		alts = append(alts, a)
	}
	if len(types) > 0 && c.Chance(10) {
		// the last group has no description
		for i := len(alts) - 1; i >= 0; i-- {
			if alts[i].typ != -2 {
				if alts[i].typ >= 0 {
					mask = 0
					for j, a := range alts {
						if j != i && a.typ >= 0 {
							mask |= 1 << a.typ
						}
					}
				}
				alts[i].typ = -1
				types = types[:len(types)-1]
				break
			}
		}
	}
	full := "^(?s:" + strings.Join(parts, "|") + ")"
	l := lexer.New(regexp.MustCompile(full), types)
	c.Put("lexer", fmt.Sprintf("%s %v", full, types))

	var srcs []*source.Source
	q := source.NewQueue()
	all := ""
	count, steps := c.IntN(4), 60
	if c.Idx%50 == 8 {
		count, steps = 4+c.IntN(150), 1000
		c.Count("many_sources", 1)
	}
	for range count {
		t := randText(c, 1+c.IntN(10))
		if c.Chance(30) {
			t = strings.ReplaceAll(t, "a", pick(c.Rand, []string{"<a>", "<a>", "<>", "<><a>"}))
		}
		if c.Idx%50 == 7 {
			// a long token or many short ones
			t += strings.Repeat(pick(c.Rand, []string{" ", "\n", "a", "a ", "1", "ж", "#", "-", "ab\n", "\""}), 50+c.IntN(2000)) + randText(c, 1+c.IntN(10))
			c.Count("long_texts", 1)
		}
		s := source.New(fmt.Sprintf("s%d", len(srcs)), []byte(t))
		srcs = append(srcs, s)
		q.Append(s)
		all += t + "\x01"
	}
	c.Put("sources", fmt.Sprintf("%q", all))
	cur, pos := 0, 0
	ignored := 0
	outcomes := map[string]bool{}
	fail := func(format string, args ...any) {
		c.Fail(format+"; sources %q, lexer %s %v", append(args, all, full, types)...)
	}
	eois := 0
	var last *lexer.Token
	_ = last
	for step := 0; step < steps && eois < 3; step++ {
		tts := uint64(lexer.AllTokenTypes)
		next := c.Chance(35)
		if !next {
			switch c.IntN(5) {
			case 0:
				tts = 0
				for _, a := range alts {
					if a.typ >= 0 && c.Chance(50) {
						tts |= 1 << a.typ
					}
				}
			case 1:
				tts = c.Uint64()
			case 2:
				tts = ^mask
				if c.Chance(50) {
					tts = 0
				}
			case 3:
				tts = mask
			}
		}
		// reference step
		out := ""
		var wTok string
		p := pos
		startPos := pos
		c.Max("ignored_at_once", ignored)
		ignored = 0
		for out == "" {
			switch {
			case cur >= len(srcs):
				out = "eoi"
			case p >= srcs[cur].Len():
				out = "eof"
			default:
				text := string(srcs[cur].Content()[p:])
				out = "wrong_char"
				for _, a := range alts {
					loc := a.rx.FindStringIndex(text)
					if loc == nil {
						continue
					}
					body := text[len(a.pre) : loc[1]-len(a.post)]
					bp := p + len(a.pre)
					switch {
					case a.typ == -2:
						out = ""
						p += loc[1]
						c.Count("ignored", 1)
						ignored++
					case a.typ == -1:
						out = "bad_token"
						wTok = body
					case tts&(1<<a.typ) == 0:
						out = "nothing"
					default:
						out = "token"
						wTok = fmt.Sprintf("t%d:%q@%d", a.typ, body, bp)
						p += loc[1]
					}
					break
				}
			}
		}
		var t *lexer.Token
		var e error
		c.Eval()
		if next {
			t, e = l.Next(q)
		} else {
			t, e = l.NextOf(q, tts)
		}
		name := fmt.Sprintf("request for %x at %d of source %d", tts, startPos, cur)
		if !next && tts&mask == 0 && tts != lexer.AllTokenTypes && t == nil && e == nil && cur < len(srcs) && startPos < srcs[cur].Len() {
			// there can be no suitable token, ignorable text may be left alone
			out = "no_types"
			p = q.Pos()
			if q.Source() == srcs[cur] && p != startPos {
				ok := false
				for x := startPos; x < p; {
					y := x
					for _, a := range alts {
						if loc := a.rx.FindStringIndex(string(srcs[cur].Content()[x:])); loc != nil {
							if a.typ == -2 {
								y += loc[1]
							}
							break
						}
					}
					if y == x {
						break
					}
					x = y
					ok = x == p
				}
				if !ok {
					fail("%s: nothing is returned, but position is moved to %d", name, p)
					return
				}
			}
		}
		c.Count(out, 1)
		outcomes[out] = true
		if t != nil && e != nil {
			fail("%s: both token and error", name)
			return
		}
		bad := ""
		switch out {
		case "eoi":
			eois++
			if e != nil || t == nil || t.Type() != lexer.EoiTokenType || t.Source() != nil {
				bad = "end-of-input token"
			}
		case "eof":
			if e != nil || t == nil || t.Type() != lexer.EofTokenType || t.Source() != srcs[cur] || t.Pos().Pos() != srcs[cur].Len() {
				bad = "end-of-file token"
			}
			cur++
			p = 0
		case "nothing", "no_types":
			if e != nil || t != nil {
				bad = "nothing"
			}
		case "token":
			if e != nil || t == nil || hx.TokName(t) != wTok || t.Source() != srcs[cur] {
				bad = "token " + wTok
			}
		case "wrong_char", "bad_token":
			code := lexer.WrongCharError
			if out == "bad_token" {
				code = lexer.BadTokenError
			}
			le := hx.LLX(e)
			if le == nil || le.Code != code || le.SourceName != srcs[cur].Name() {
				bad = out + " error"
			} else if wl, wc := refLineCol(string(srcs[cur].Content()), p); out == "wrong_char" && runeStart(string(srcs[cur].Content()), p) && (wl != le.Line || wc != le.Col) {
				bad = fmt.Sprintf("error at %d:%d", wl, wc)
			} else if out == "bad_token" && !strings.Contains(le.Message, strings.Trim(fmt.Sprintf("%q", wTok), `"`)) && !strings.Contains(le.Message, wTok) {
				bad = "error containing " + wTok
			}
		}
		if bad != "" {
			fail("%s: got token %s, error %v instead of %s", name, hx.TokName(t), e, bad)
			return
		}
		pos = p
		if cur < len(srcs) {
			if q.Source() != srcs[cur] || q.Pos() != pos {
				fail("%s (%s): queue is at %d of %q instead of %d of %q", name, out, q.Pos(), q.SourceName(), pos, srcs[cur].Name())
				return
			}
		} else if !q.IsEmpty() || q.Pos() != 0 {
			fail("%s (%s): queue is not empty after the last source", name, out)
			return
		}
		if out == "wrong_char" || out == "bad_token" {
			// step over the offending text
			d := 1 + c.IntN(3)
			q.Skip(d)
			pos = min(pos+d, srcs[cur].Len())
		} else if (out == "nothing" || out == "no_types") && c.Chance(10) {
			q.Skip(1)
			pos = min(pos+1, srcs[cur].Len())
		} else if out == "token" && c.Chance(5) {
			d := c.IntN(pos + 1)
			q.Rewind(d)
			pos -= d
		}
	}
	if len(outcomes) >= 3 {
		c.Distinct(full, all)
		if c.Idx < 50 {
			c.Sample("%s on %.200q: %v", full, all, outcomes)
		}
	}
}
