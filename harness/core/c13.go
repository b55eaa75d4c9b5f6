package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"slices"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C13",
		Rule: "random stacks of 0-4 grammar layers and user hooks with random text, type, fallback and special hooks which pass, drop, replace and add tokens (including wrong ones) over several sources; " +
			"large cases have up to 40 layers, 100 sources, 60 tokens added by a hook and thousands of tokens; calls logged per layer and tokens delivered to node hooks are compared with a stream model of the stack; non-trivial: distinct (layers, input) with at least 2 layers and 5 hook calls",
		Quick: 20000, Thorough: 500000,
		Need: []string{"calls", "literal_calls", "type_calls", "fallback_calls", "eof_calls", "eoi_calls", "dropped", "extras", "special_dropped", "wrong_emitted", "other_layers", "big_cases", "kept_lists"},
		Run:  runC13,
	})
	register(&mon.Check{
		ID: "C14",
		Rule: "random grammars needing lookahead, 1-3 layers adding and dropping side tokens, token hooks peeking at random moments over several sources and junk (in large cases up to thousands of tokens ahead); every peeked token is compared with tokens pending between layers and the remaining text, " +
			"and the whole event log with that of the same run without peeking; non-trivial: distinct (grammar, input) with at least 5 peeked tokens",
		Quick: 12000, Thorough: 300000,
		Need: []string{"peeks", "pending_peeked", "peek_errors", "peek_next_source", "included", "peek_end", "accepted", "rejected", "big_cases"},
		Run:  runC14,
	})
	register(&mon.Check{
		ID: "C15",
		Rule: "random grammars; token sequences laid out as one text, cut into several sources at token boundaries (with empty sources in between), and with parts inserted by token and node hooks; large cases have thousands of tokens and hundreds of sources; " +
			"events of all runs are compared; non-trivial: distinct (grammar, cut text) accepted with at least 2 non-empty sources",
		Quick: 12000, Thorough: 300000,
		Need: []string{"accepted", "rejected", "cut_inside_node", "empty_sources", "inserted_by_token_hook", "inserted_by_node_hook", "eof_events", "peeks", "included_while_waiting", "same_sources", "big_cases"},
		Run:  runC15,
	})
	register(&mon.Check{
		ID: "C16",
		Rule: "random grammars, inputs made of several sentences in one or more sources parsed one after another from the same queue without the full-source option and then with it; " +
			"the queue position after each parse is compared with the consumed tokens; non-trivial: distinct (grammar, input) parsed in at least 2 goes",
		Quick: 12000, Thorough: 300000,
		Need: []string{"big_parses", "parses", "resumed", "lookahead_left", "full_ok", "full_remaining", "multi_source", "repeated_sources", "hooked_full_ok", "hooked_full_remaining", "hooked_full_empty"},
		Run:  runC16,
	})
}

type tokD struct {
	typ, text, src string
	pos            int
}

func descr(t *lexer.Token) tokD {
	return tokD{t.TypeName(), t.Text(), t.SourceName(), t.Pos().Pos()}
}

func (t tokD) special() bool { return t.typ == lexer.EofTokenName || t.typ == lexer.EoiTokenName }

func hash(seed uint64, parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed, parts)
	x := h.Sum64()
	x ^= x >> 31
	return x
}

// --- C13

const c13Grammar = `
$space = / +/; $name = /[a-z]+/; $num = /[0-9]+/; $op = /[-+*]/; $str = /"[^"]*"/; $bad = /%.?/;
!side $space $mark; !extern $x $y $mark; !error $bad;
!literal $name $num $op $x;
`
const c13Root = "root = {$name | $num | $op | $str | $x | $y | 'a' | '+' | '1'}, $;\n"

var c13Types = []string{"space", "name", "num", "op", "str", "x", "y", "mark"}
var c13NoLit = map[string]bool{"space": true, "str": true, "y": true, "mark": true}
var c13Texts = map[string][]string{
	"space": {" "}, "name": {"a", "foo", "b"}, "num": {"1", "22"}, "op": {"+", "-", "*"}, "str": {`"a"`, `""`}, "x": {"a", "+", "x"}, "y": {"a", "y", ""}, "mark": {"", " "},
}

type c13Layer struct {
	seed     uint64
	tokens   map[string]bool
	literals map[string]bool
	rate     uint64 // percent of tokens passed as is
	many     bool   // emits up to 60 tokens sometimes
}

// hookKey selects a hook: text, then type, then fallback.
func (l *c13Layer) hookKey(t tokD) (string, bool) {
	if t.special() {
		return "T" + t.typ, l.tokens[t.typ]
	}
	if !c13NoLit[t.typ] && l.literals[t.text] {
		return "L" + t.text, true
	}
	if l.tokens[t.typ] {
		return "T" + t.typ, true
	}
	return "T", l.tokens[parser.AnyToken]
}

// decide tells what the hook does.
func (l *c13Layer) decide(key string, t tokD) (emit bool, extra []tokD, self []int) {
	h := hash(l.seed, key, t)
	if h%100 < l.rate {
		return true, nil, nil
	}
	h /= 100
	emit = h%2 == 0
	h /= 2
	n := int(h % 4)
	h /= 4
	if l.many && h%16 == 0 {
		n = int(h / 16 % 60)
	}
	for i := range n {
		x := hash(l.seed, key, t, i)
		if !t.special() && x%5 == 0 {
			extra = append(extra, t)
			self = append(self, 1)
			continue
		}
		x /= 5
		typ := c13Types[x%uint64(len(c13Types))]
		x /= 16
		tt := c13Texts[typ]
		extra = append(extra, tokD{typ, tt[x%uint64(len(tt))], "", 0})
		self = append(self, 0)
	}
	return
}

type c13Call struct {
	key string
	tok tokD
}

func runC13(c *mon.Ctx) {
	nl := c.IntN(5)
	maxSrc, maxTok := 3, 8
	big := c.Idx%40 == 7
	if big {
		nl = logInt(c, 0, 40)
		maxSrc, maxTok = logInt(c, 1, 100), logInt(c, 8, 1000)
		for maxSrc*maxTok > 3000 {
			maxSrc, maxTok = maxSrc/2+1, maxTok/2
		}
		c.Count("big_cases", 1)
		c.Max("big_layers", nl)
	}
	layers := make([]*c13Layer, nl+1) // 0 is for user hooks, others are nearer to the lexer
	for i := range layers {
		l := &c13Layer{seed: c.Uint64(), tokens: map[string]bool{}, literals: map[string]bool{}, rate: uint64(20 + c.IntN(80))}
		if big {
			l.many = c.Chance(30)
			l.rate = max(l.rate, uint64(100-40/(nl+1)))
		}
		if i == 0 && c.Chance(25) || i > 0 && c.Chance(10) {
			layers[i] = l
			continue
		}
		if c.Chance(40) {
			l.tokens[parser.AnyToken] = true
		}
		for _, t := range append([]string{parser.EofToken, parser.EoiToken}, c13Types...) {
			if c.Chance(35) {
				l.tokens[t] = true
			}
		}
		for _, t := range []string{"a", "+", "1", "foo", "22", "-", "zz", `"a"`, "", " ", "x"} {
			if c.Chance(20) {
				l.literals[t] = true
			}
		}
		layers[i] = l
	}
	// wrong token
	wrongLayer := -1
	var wrongAt uint64
	wrongType, wrongName := 0, ""
	wrongBefore, wrongAfter := 0, 0
	text := c13Grammar
	for i := nl; i >= 1; i-- {
		text += fmt.Sprintf("@l%d;\n", i)
	}
	text += c13Root
	g, e := langdef.ParseString("g", text)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	if c.Chance(20) {
		wrongLayer = c.IntN(nl + 1)
		wrongAt = uint64(c.IntN(6))
		if big {
			wrongAt = uint64(c.IntN(maxTok))
		}
		// the wrong token may be hidden among correct ones
		if c.Chance(50) {
			wrongBefore, wrongAfter = logInt(c, 0, 300), c.IntN(3)
		}
		c.Max("wrong_index", wrongBefore)
		switch c.IntN(5) {
		case 0:
			wrongType, wrongName = len(g.Tokens)+c.IntN(70), "unknown"
		case 1:
			wrongType, wrongName = lexer.LowestTokenType-1-c.IntN(5), "low"
		case 2:
			wrongType, wrongName = grammar.AnyToken, ""
		default:
			var bad []int
			for i, t := range g.Tokens {
				if t.Flags&(grammar.LiteralToken|grammar.ErrorToken) != 0 {
					bad = append(bad, i)
				}
			}
			wrongType = pick(c.Rand, bad)
			wrongName = g.Tokens[wrongType].Name
		}
	}
	types := map[string]int{}
	for i, t := range g.Tokens {
		if t.Flags&grammar.LiteralToken == 0 {
			types[t.Name] = i
		}
	}
	logs := make([][]c13Call, nl+1)
	last := -1
	spare := lexer.NewToken(0, "spare", []byte("spare"), source.Pos{})
	var kept, keptWas [][]*lexer.Token
	makeHooks := func(i int) parser.Hooks {
		l := layers[i]
		hook := func(key string) parser.TokenHook {
			return func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				d := descr(t)
				logs[i] = append(logs[i], c13Call{key, d})
				last = i
				emit, extra, self := l.decide(key, d)
				var res []*lexer.Token
				for j, x := range extra {
					if self[j] == 1 {
						res = append(res, t)
					} else {
						res = append(res, lexer.NewToken(types[x.typ], x.typ, []byte(x.text), source.Pos{}))
					}
				}
				if i == wrongLayer && uint64(len(logs[i])-1) == wrongAt {
					for range wrongBefore {
						res = append(res, lexer.NewToken(types["name"], "name", []byte("ok"), source.Pos{}))
					}
					res = append(res, lexer.NewToken(wrongType, wrongName, []byte("w"), source.Pos{}))
					for range wrongAfter {
						res = append(res, lexer.NewToken(types["name"], "name", []byte("ok"), source.Pos{}))
					}
				}
				if len(res) > 0 && c.Chance(30) {
					// a slice of a longer list which is kept by the hook
					all := append(res[:len(res):len(res)], spare, spare)
					kept = append(kept, all)
					keptWas = append(keptWas, slices.Clone(all))
					res = all[:len(res)]
					c.Count("kept_lists", 1)
				}
				return emit, res, nil
			}
		}
		h := parser.Hooks{Tokens: parser.TokenHooks{}, Literals: parser.TokenHooks{}}
		for k := range l.tokens {
			h.Tokens[k] = hook("T" + k)
		}
		for k := range l.literals {
			h.Literals[k] = hook("L" + k)
		}
		if c.Chance(20) {
			c.Count("other_layers", 1)
			rec := &hx.Recorder{}
			h.Nodes = rec.Hooks().Nodes
		}
		return h
	}
	tpls := map[string]parser.HookLayerTemplate{}
	for i := 1; i <= nl; i++ {
		tpls[fmt.Sprintf("l%d", i)] = tplFunc(&layerTpl{func() parser.Hooks { return makeHooks(i) }})
	}
	p, e := parser.New(g, parser.WithLayerTemplates(tpls))
	if e != nil {
		c.Fatal("cannot create a parser: %v", e)
	}
	for range 2 {
		for i := range logs {
			logs[i] = nil
		}
		last = -1
		// input
		var raw []tokD
		q := source.NewQueue()
		input := ""
		for s := range 1 + c.IntN(maxSrc) {
			name := fmt.Sprintf("s%d", s)
			var b strings.Builder
			for range 1 + c.IntN(maxTok) {
				typ := pick(c.Rand, c13Types[:5])
				t := pick(c.Rand, c13Texts[typ])
				if typ == "space" || b.Len() > 0 && needSpace(b.String(), t) {
					if !strings.HasSuffix(b.String(), " ") {
						raw = append(raw, tokD{"space", " ", name, b.Len()})
						b.WriteString(" ")
					}
					if typ == "space" {
						continue
					}
				}
				raw = append(raw, tokD{typ, t, name, b.Len()})
				b.WriteString(t)
			}
			raw = append(raw, tokD{lexer.EofTokenName, "", name, b.Len()})
			q.Append(source.New(name, []byte(b.String())))
			input += b.String() + "|"
		}
		raw = append(raw, tokD{lexer.EoiTokenName, "", "", 0})
		// model
		expect := make([][]c13Call, nl+1)
		stream := raw
		wrong := false
		for i := nl; i >= 0; i-- {
			if len(stream) > 50000 {
				c.Abort()
			}
			var out []tokD
			for _, t := range stream {
				key, has := layers[i].hookKey(t)
				if !has {
					out = append(out, t)
					continue
				}
				if i == wrongLayer && uint64(len(expect[i])) == wrongAt {
					wrong = true
				}
				expect[i] = append(expect[i], c13Call{key, t})
				emit, extra, _ := layers[i].decide(key, t)
				if emit {
					out = append(out, t)
				}
				out = append(out, extra...)
				if !emit && t.special() {
					// never lost
					out = append(out, t)
					c.Count("special_dropped", 1)
				}
			}
			// nothing is pulled after the end of input
			for j, t := range out {
				if t.typ == lexer.EoiTokenName {
					out = out[:j+1]
					break
				}
			}
			stream = out
		}
		var want []tokD
		for _, t := range stream {
			if t.typ != "space" && t.typ != "mark" && t.typ != lexer.EofTokenName {
				want = append(want, t)
			}
		}
		rec := &hx.Recorder{}
		hooks := rec.Hooks()
		uh := makeHooks(0)
		hooks.Tokens, hooks.Literals = uh.Tokens, uh.Literals
		c.Eval()
		_, e := p.Parse(bg, q, hooks)
		fail := func(format string, args ...any) {
			c.Put("input", input)
			c.Put("grammar", text)
			for i, l := range layers {
				c.Put(fmt.Sprintf("layer %d", i), fmt.Sprintf("%v %v", l.tokens, l.literals))
			}
			c.Fatal(format+"; input %q, %d layers", append(args, input, nl)...)
		}
		for i, l := range kept {
			for j, t := range l {
				if t != keptWas[i][j] {
					fail("token %d of a list kept by a hook is changed from %s to %s", j, hx.TokName(keptWas[i][j]), hx.TokName(t))
				}
			}
		}
		var got []tokD
		for _, t := range rec.Tokens {
			got = append(got, descr(t))
		}
		calls := 0
		for i := range logs {
			calls += len(logs[i])
			for j, x := range logs[i] {
				switch {
				case x.tok.typ == lexer.EofTokenName:
					c.Count("eof_calls", 1)
				case x.tok.typ == lexer.EoiTokenName:
					c.Count("eoi_calls", 1)
				case x.key == "T":
					c.Count("fallback_calls", 1)
				case x.key[0] == 'T':
					c.Count("type_calls", 1)
				default:
					c.Count("literal_calls", 1)
				}
				emit, extra, _ := layers[i].decide(x.key, x.tok)
				if !emit {
					c.Count("dropped", 1)
				}
				c.Count("extras", len(extra))
				if j >= len(expect[i]) {
					fail("extra call in layer %d: hook %q for %v", i, x.key, x.tok)
				}
				if x != expect[i][j] {
					fail("call %d in layer %d is hook %q for %v instead of %q for %v", j, i, x.key, x.tok, expect[i][j].key, expect[i][j].tok)
				}
			}
			if !wrong && len(logs[i]) != len(expect[i]) {
				fail("%d calls in layer %d instead of %d, the next one is %v; error %v", len(logs[i]), i, len(expect[i]), expect[i][len(logs[i])], e)
			}
		}
		c.Count("calls", calls)
		c.Max("delivered", len(want))
		for j, t := range got {
			if j >= len(want) || t != want[j] {
				fail("token %d delivered is %v instead of %v", j, t, append(want, tokD{})[min(j, len(want))])
			}
		}
		if wrong {
			c.Count("wrong_emitted", 1)
			le := hx.LLX(e)
			if le == nil || le.Code != parser.EmitWrongTokenError {
				fail("emitting a wrong token of type %d %q gives %v", wrongType, wrongName, e)
			}
			if last != wrongLayer {
				fail("layer %d is called after layer %d emitted a wrong token", last, wrongLayer)
			}
			continue
		}
		if e != nil {
			fail("error %v", e)
		}
		if len(got) != len(want) {
			fail("%d tokens delivered instead of %d: %.2000v", len(got), len(want), got)
		}
		if nl > 0 && calls >= 5 {
			c.Distinct(fmt.Sprint(layers[0].seed), input)
		}
		if c.Idx < 10 {
			c.Sample("input %q, layers (outermost first): %v; calls %v", input, layers, logs)
		}
	}
}

func needSpace(a, b string) bool {
	al := func(c byte) int {
		switch {
		case c >= 'a' && c <= 'z':
			return 1
		case c >= '0' && c <= '9':
			return 2
		}
		return 0
	}
	return al(a[len(a)-1]) != 0 && al(a[len(a)-1]) == al(b[0])
}

// --- C14

// cutText splits a text into sources at token boundaries.
type piece struct {
	name, text string
	from       int
}

func cutText(c *mon.Ctx, text string, spans []gen.Span, max int) []piece {
	cuts := map[int]bool{}
	for range c.IntN(max) {
		if len(spans) > 0 {
			cuts[pick(c.Rand, spans).Pos] = true
		}
	}
	var res []piece
	from := 0
	for i := 0; i <= len(text); i++ {
		cut := i == len(text) || i > 0 && cuts[i]
		if cut && i > from {
			res = append(res, piece{fmt.Sprintf("s%d", len(res)), text[from:i], from})
			from = i
		}
	}
	return res
}

// rawTokens lists tokens of sources including special ones.
func rawTokens(ps []piece, spans []gen.Span) (res []tokD) {
	for _, p := range ps {
		for _, s := range spans {
			if s.Pos >= p.from && s.Pos < p.from+len(p.text) {
				res = append(res, tokD{s.Type, s.Text, p.name, s.Pos - p.from})
			}
		}
		res = append(res, tokD{lexer.EofTokenName, "", p.name, len(p.text)})
	}
	return append(res, tokD{lexer.EoiTokenName, "", "", 0})
}

func queueOf(ps []piece) *source.Queue {
	q := source.NewQueue()
	for _, p := range ps {
		q.Append(source.New(p.name, []byte(p.text)))
	}
	return q
}

func runC14(c *mon.Ctx) {
	o := confOpts(c)
	if c.Chance(40) {
		o.Conf = false
	}
	var g *gen.Grammar
	var a gen.Alphabet
	big := c.Idx%60 == 7
	if big {
		g, a = bigGrammar(c)
		c.Count("big_cases", 1)
	} else {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30)}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	nl := c.IntN(3)
	for i := nl; i >= 1; i-- {
		g.Layers += fmt.Sprintf("@l%d;\n", i)
	}
	text := g.Text()
	c.Put("grammar", text)
	c.Crumb()
	gr, e := langdef.ParseString("g", text)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	commentType := -1
	for i, t := range gr.Tokens {
		if t.Name == "comment" {
			commentType = i
		}
	}

	// state of the current run
	var (
		peeking bool
		seed    uint64
		raw     []tokD // remaining after the last fetched one
		out     [4][]tokD
		events  []string
		problem string
		junk    bool // junk after raw tokens
		peeks   int
		incs    int
	)
	report := func(format string, args ...any) {
		if problem == "" {
			problem = fmt.Sprintf(format, args...)
		}
	}
	makeHooks := func(i int) parser.Hooks {
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			d := descr(t)
			events = append(events, fmt.Sprintf("layer %d: %v", i, d))
			// where it comes from
			src := &raw
			if i < nl {
				src = &out[i+1]
			}
			if len(*src) == 0 || (*src)[0] != d {
				report("layer %d received %v, pending tokens: %v", i, d, *src)
			} else if d.typ != lexer.EoiTokenName || i < nl {
				*src = (*src)[1:]
			}
			include := func() {
				if hi := hash(seed, i, d, "emit"); hi>>24%16 == 0 && d.typ != lexer.EoiTokenName && !strings.HasPrefix(d.src, "inc") && incs < 20 {
					incs++
					name := fmt.Sprintf("inc%d", incs)
					body := []string{"#a;", "#bc;", "#;"}[hi>>40%3]
					tc.ParseContext().Sources().Prepend(source.New(name, []byte(body)))
					raw = append([]tokD{{"comment", body, name, 0}, {lexer.EofTokenName, "", name, len(body)}}, raw...)
					c.Count("included", 1)
				}
			}
			if hash(seed, i, d, "emit")>>48%2 != 0 {
				include()
			}
			h := hash(seed, i, d)
			if peeking && h%3 != 0 {
				n := int(h >> 8 % 5)
				if h>>16%10 == 0 && (!big || h>>24%20 == 0) {
					n = len(raw) + 4
				}
				if big && h>>16%50 == 1 {
					n = int(h >> 32 % 500)
				}
				// expected
				var want []tokD
				for j := i + 1; j <= nl; j++ {
					want = append(want, out[j]...)
				}
				pending := len(want)
				want = append(want, raw...)
				for k := range n {
					peeks++
					p, e := tc.PeekToken()
					c.Count("peeks", 1)
					switch {
					case k < len(want):
						if e != nil || p == nil || descr(p) != want[k] {
							report("layer %d, token %v: peek %d returned %v (%v) instead of %v", i, d, k, p, e, want[k])
							return false, nil, fmt.Errorf("stop")
						}
						if k < pending {
							c.Count("pending_peeked", 1)
						} else if want[k].src != d.src && want[k].src != "" {
							c.Count("peek_next_source", 1)
						}
						if want[k].typ == lexer.EoiTokenName {
							c.Count("peek_end", 1)
						}
					case junk:
						if e == nil || p != nil || hx.LLX(e) == nil || hx.LLX(e).Code != lexer.WrongCharError {
							report("layer %d, token %v: peek %d into junk returned %v, %v", i, d, k, p, e)
						}
						c.Count("peek_errors", 1)
					default:
						if e != nil || p == nil || p.Type() != lexer.EoiTokenType {
							report("layer %d, token %v: peek %d after the end returned %v, %v", i, d, k, p, e)
						}
					}
				}
			}
			// decisions do not depend on peeking
			h = hash(seed, i, d, "emit")
			emit := true
			var extra []*lexer.Token
			if d.typ == "comment" {
				emit = h%3 != 0
			}
			if h>>8%4 == 0 && !d.special() {
				for k := range h >> 16 % 3 {
					extra = append(extra, lexer.NewToken(commentType, "comment", []byte(fmt.Sprintf("#x%d%d;", i, k)), source.Pos{}))
				}
			}
			if h>>48%2 == 0 {
				include() // a source inserted after peeking is read next
			}
			if emit {
				out[i] = append(out[i], d)
			}
			for _, x := range extra {
				out[i] = append(out[i], descr(x))
			}
			return emit, extra, nil
		}
		return parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook, parser.EofToken: hook, parser.EoiToken: hook}}
	}
	tpls := map[string]parser.HookLayerTemplate{}
	for i := 1; i <= nl; i++ {
		tpls[fmt.Sprintf("l%d", i)] = tplFunc(&layerTpl{func() parser.Hooks { return makeHooks(i) }})
	}
	p, e := parser.New(gr, parser.WithLayerTemplates(tpls))
	if e != nil {
		c.Fatal("cannot create a parser: %v", e)
	}
	for n := range 6 {
		if big && n > 1 {
			break
		}
		var seq []gen.Tok
		if big {
			seq = bigSeq(c, g, a, 20)
			seq = seq[:min(len(seq), 2000)]
			c.Max("big_tokens", len(seq))
		} else {
			seq = g.Sentence(c.Rand, a, 2+c.IntN(14))
			if c.Chance(25) {
				seq = mutate(c.Rand, a, seq)
			}
			if len(seq) > 30 || g.NewMatcher(seq).Paths() > 1000 {
				continue
			}
		}
		input, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(30)})
		ps := cutText(c, input, spans, 4)
		rawAll := rawTokens(ps, spans)
		junk = len(ps) > 0 && c.Chance(20)
		if junk {
			// replace the rest of some source
			k := c.IntN(len(ps))
			cut := c.IntN(len(ps[k].text) + 1)
			ok := cut == len(ps[k].text)
			for _, s := range spans {
				if s.Pos == ps[k].from+cut {
					ok = true
				}
			}
			if !ok {
				cut = 0
			}
			for i, t := range rawAll {
				if t.src == ps[k].name && t.pos >= cut {
					rawAll = rawAll[:i]
					break
				}
			}
			ps[k].text = ps[k].text[:cut] + "?"
			ps = ps[:k+1]
		}
		seed = c.Uint64()
		full := c.Chance(60)
		run := func(peek bool) ([]string, string) {
			peeking = peek
			raw = append([]tokD(nil), rawAll...)
			out = [4][]tokD{}
			events = nil
			peeks, incs = 0, 0
			rec := &hx.Recorder{}
			rec.OnEvent = nil
			hooks := rec.Hooks()
			uh := makeHooks(0)
			hooks.Tokens = uh.Tokens
			rec.KeepLog = true
			var opts []parser.ParseOption
			if full {
				opts = append(opts, parser.WithFullSource())
			}
			opts = append(opts, parser.WithSides())
			c.Eval()
			q := queueOf(ps)
			_, e := p.Parse(bg, q, hooks, mixOpts(c, opts)...)
			ev := append(append([]string{}, events...), rec.Events...)
			ev = append(ev, fmt.Sprintf("error %v, queue at %q %d", e, q.SourceName(), q.Pos()))
			if e == nil {
				return ev, "accepted"
			}
			return ev, "rejected"
		}
		ev0, _ := run(false)
		p0 := problem
		ev1, st := run(true)
		c.Count(st, 1)
		c.Put("input", fmt.Sprint(ps))
		if problem != "" {
			if p0 != "" {
				problem += " (without peeking)"
			}
			c.Fatal("%s; sources %q, grammar:\n%s", problem, ps, g.NodePart())
		}
		for i, s := range ev0 {
			if i >= len(ev1) || ev1[i] != s {
				c.Fatal("event %d is %q with peeking and %q without it; sources %q, grammar:\n%s", i, append(ev1, "")[min(i, len(ev1))], s, ps, g.NodePart())
			}
		}
		if len(ev0) != len(ev1) {
			c.Fatal("%d events without peeking, %d events with it; sources %q", len(ev0), len(ev1), ps)
		}
		if peeks >= 5 {
			c.Distinct(text, input)
		}
		if c.Idx < 10 {
			c.Sample("sources %q, %d peeks", ps, peeks)
		}
	}
}

// --- C15

func runC15(c *mon.Ctx) {
	ll1 := c.Chance(40)
	var g *gen.Grammar
	var a gen.Alphabet
	big := c.Idx%60 == 7
	if big {
		ll1 = true
		g, a = bigGrammar(c)
		c.Count("big_cases", 1)
	} else if ll1 {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5}, gen.Opts{MaxNodes: 4, Depth: 3, Width: 3, Eoi: true}, func(g *gen.Grammar) bool { return g.LL1() && !g.SharedEntry() })
	} else {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30)}, confOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	g.Extra = "$inc = /@[0-9]+@/;\n!side $inc;\n"
	p := compileOrFail(c, g.Text())
	for n := range 8 {
		if c.Failed() || big && n > 0 {
			return
		}
		maxCuts, maxDepth := 6, 3
		var seq []gen.Tok
		if big {
			seq = bigSeq(c, g, a, 20)
			maxCuts, maxDepth = logInt(c, 6, 500), logInt(c, 3, 200)
			c.Max("big_tokens", len(seq))
			if len(seq) == 0 {
				continue
			}
		} else {
			seq = g.Sentence(c.Rand, a, 2+c.IntN(18))
			if c.Chance(20) {
				seq = mutate(c.Rand, a, seq)
			}
			if len(seq) > 36 || len(seq) == 0 || g.NewMatcher(seq).Paths() > 1000 {
				continue
			}
		}
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(30)})
		sides := c.Chance(50)
		full := c.Chance(70)
		opts := []parser.ParseOption{}
		if full {
			opts = append(opts, parser.WithFullSource())
		}
		if sides {
			opts = append(opts, parser.WithSides())
		}
		peeks := 0 // percent of tokens
		peeked := map[int][]*lexer.Token{}
		run := func(q *source.Queue, tokens parser.TokenHooks, onToken func(t *lexer.Token, q *source.Queue)) (string, []*lexer.Token, *hx.Recorder, error) {
			rec := &hx.Recorder{}
			hooks := rec.Hooks()
			var log []*lexer.Token
			clear(peeked)
			h := func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				log = append(log, t)
				if t.TypeName() != "inc" && t.TypeName() != lexer.EoiTokenName && c.Chance(peeks) {
					for range 1 + c.IntN(5) {
						x, e := tc.PeekToken()
						if e != nil {
							c.Fail("peeking at a token gives an error %v", e)
							return true, nil, e
						}
						peeked[len(log)] = append(peeked[len(log)], x)
						c.Count("peeks", 1)
						if x != nil && (x.TypeName() == "inc" || x.TypeName() == lexer.EoiTokenName) {
							break
						}
					}
				}
				if s, has := tokens[t.TypeName()]; has {
					return s(ctx, t, tc)
				}
				return true, nil, nil
			}
			hooks.Tokens = parser.TokenHooks{parser.AnyToken: h, parser.EofToken: h, parser.EoiToken: h}
			if onToken != nil {
				inner := rec.Hook
				hooks.Nodes = parser.NodeHooks{parser.AnyNode: func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
					x, e := inner(ctx, node, t, nc)
					return tokenInst{x, func(t *lexer.Token) { onToken(t, q) }}, e
				}}
			}
			c.Eval()
			_, e := p.Parse(bg, q, hooks, mixOpts(c, opts)...)
			tree := ""
			if rec.Root != nil && e == nil {
				tree = skipInc(rec.Root)
			}
			return tree, log, rec, e
		}
		ref, _, _, e0 := run(source.NewQueue().Append(source.New("whole", []byte(text))), nil, nil)
		check := func(what string, info string, want []tokD, tree string, log []*lexer.Token, rec *hx.Recorder, e error) bool {
			c.Put("input", info)
			fail := func(format string, args ...any) bool {
				c.Fail(what+": "+format+"; sources %s, grammar:\n%s", append(args, info, strings.TrimSpace(g.NodePart()))...)
				return false
			}
			for _, s := range rec.Errors {
				return fail("%s", s)
			}
			if (e == nil) != (e0 == nil) {
				return fail("error %v instead of %v", e, e0)
			}
			if e != nil {
				c.Count("rejected", 1)
				if x, y := hx.LLX(e), hx.LLX(e0); x == nil || y == nil || x.Code != y.Code {
					return fail("error %v instead of %v", e, e0)
				}
			} else {
				c.Count("accepted", 1)
				if tree != ref {
					return fail("tree %s instead of %s", tree, ref)
				}
			}
			// tokens come from the right places, special tokens are in order
			for i, t := range log {
				d := descr(t)
				if d.typ == lexer.EofTokenName {
					c.Count("eof_events", 1)
				}
				if i >= len(want) || want[i] != d {
					return fail("token %d fetched is %v instead of %v", i, d, append(want, tokD{})[min(i, len(want))])
				}
			}
			for i, ts := range peeked {
				for j, t := range ts {
					if i+j >= len(want) || t == nil || descr(t) != want[i+j] {
						return fail("token %d peeked at after %v is %v instead of %v", j, want[i-1], t, append(want, tokD{})[min(i+j, len(want))])
					}
				}
			}
			if e == nil && full && len(log) != len(want) {
				return fail("%d of %d tokens are fetched", len(log), len(want))
			}
			return true
		}
		// several queued sources
		ps := cutText(c, text, spans, maxCuts)
		c.Max("sources", len(ps))
		q := source.NewQueue()
		for _, pc := range ps {
			for c.Chance(15) {
				q.Append(source.New("empty", nil))
				c.Count("empty_sources", 1)
			}
			q.Append(source.New(pc.name, []byte(pc.text)))
		}
		for c.Chance(15) {
			q.Append(source.New("empty", nil))
			c.Count("empty_sources", 1)
		}
		peeks = pick(c.Rand, []int{0, 0, 10, 50})
		tree, log, rec, e := run(q, nil, nil)
		if len(ps) > 1 && e == nil {
			c.Distinct(g.NodePart(), fmt.Sprint(ps))
			if countNodes(rec.Root) > 1 {
				c.Count("cut_inside_node", 1)
			}
		}
		if !check("queued sources", fmt.Sprintf("%q", ps), rawTokens(ps, spans), tree, log, rec, e) {
			return
		}
		// the same source may be queued several times
		times := 2 + c.IntN(3)
		var rep []gen.Tok
		for _, pc := range ps {
			for range times {
				for _, sp := range spans {
					if !sp.Side && sp.Pos >= pc.from && sp.Pos < pc.from+len(pc.text) {
						rep = append(rep, sp.Tok)
					}
				}
			}
		}
		if !big && c.Chance(40) && len(rep) <= 60 && g.NewMatcher(rep).Paths() <= 1000 {
			var trees, logs, errs [2]string
			for k := range 2 {
				// parts of the text, each one is several times in a row
				q := source.NewQueue()
				for _, pc := range ps {
					s := source.New(pc.name, []byte(pc.text))
					for range times {
						if k == 1 {
							s = source.New(pc.name, []byte(pc.text))
						}
						q.Append(s)
					}
				}
				tree, log, rec, e := run(q, nil, nil)
				var b strings.Builder
				for _, t := range log {
					fmt.Fprintln(&b, descr(t))
				}
				trees[k], logs[k], errs[k] = tree, b.String(), fmt.Sprint(e, rec.Errors)
			}
			c.Count("same_sources", 1)
			if trees[0] != trees[1] || errs[0] != errs[1] || peeks == 0 && logs[0] != logs[1] {
				c.Put("input", fmt.Sprintf("%q", ps))
				c.Fatal("sources %q, each one %d times in a row: tree %s, error %s instead of tree %s, error %s as with equal but different sources", ps, times, trees[0], errs[0], trees[1], errs[1])
			}
		}
		// each token knows its line and column
		for _, t := range log {
			l, cl := t.LineCol()
			for _, pc := range ps {
				if pc.name == t.SourceName() {
					if wl, wc := refLineCol(pc.text, t.Pos().Pos()); wl != l || wc != cl {
						c.Fatal("token %s is at %d:%d instead of %d:%d of source %q", hx.TokName(t), l, cl, wl, wc, pc.name)
					}
				}
			}
		}
		// parts are moved to sources inserted by a token hook
		var want []tokD
		srcs := []string{""}
		var build func(id, from, to, depth int)
		build = func(id, from, to, depth int) {
			c.Max("source_stack", depth+1)
			name := fmt.Sprintf("i%d", id)
			for i := from; i < to; i++ {
				if depth < maxDepth && c.Chance(20) {
					j := i + 1 + c.IntN(to-i)
					if maxDepth > 3 && c.Chance(90) {
						j = to - c.IntN(min(to-i, 3)) // deeper
					}
					n := len(srcs)
					mark := fmt.Sprintf("@%d@", n)
					want = append(want, tokD{"inc", mark, name, len(srcs[id])})
					srcs[id] += mark
					srcs = append(srcs, "")
					build(n, i, j, depth+1)
					i = j - 1
					continue
				}
				want = append(want, tokD{spans[i].Type, spans[i].Text, name, len(srcs[id])})
				srcs[id] += spans[i].Text
			}
			want = append(want, tokD{lexer.EofTokenName, "", name, len(srcs[id])})
		}
		// other sources may wait in the queue
		tops := []int{}
		for i := 0; i < len(spans) || len(tops) == 0; {
			j := len(spans)
			if c.Chance(50) {
				j = i + 1 + c.IntN(len(spans)-i)
			}
			n := len(srcs)
			srcs = append(srcs, "")
			tops = append(tops, n)
			build(n, i, j, 0)
			i = j
		}
		want = append(want, tokD{lexer.EoiTokenName, "", "", 0})
		if len(srcs) > len(tops)+1 {
			q = source.NewQueue()
			for _, n := range tops {
				q.Append(source.New(fmt.Sprintf("i%d", n), []byte(srcs[n])))
			}
			if len(tops) > 1 {
				c.Count("included_while_waiting", 1)
			}
			emit := c.Chance(50)
			hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				n := 0
				fmt.Sscanf(t.Text(), "@%d@", &n)
				tc.ParseContext().Sources().Prepend(source.New(fmt.Sprintf("i%d", n), []byte(srcs[n])))
				c.Count("inserted_by_token_hook", 1)
				return emit, nil, nil
			}
			tree, log, rec, e = run(q, parser.TokenHooks{"inc": hook}, nil)
			if !check("sources inserted by a token hook", fmt.Sprintf("%q", srcs), want, tree, log, rec, e) {
				return
			}
		}
		// and by a node hook receiving a token
		if !ll1 {
			continue
		}
		after := c.IntN(len(spans))
		if spans[after].Side {
			continue
		}
		to := after + 1 + c.IntN(len(spans)-after)
		if to == after+1 || to < len(spans) && !spans[to].Side {
			continue // no parts, or tokens may stick together
		}
		ins := source.New("ins", []byte(text[spans[after].Pos+len(spans[after].Text):endOf(spans, to, text)]))
		main := text[:spans[after].Pos+len(spans[after].Text)] + text[endOf(spans, to, text):]
		want = nil
		for i := 0; i <= after; i++ {
			want = append(want, tokD{spans[i].Type, spans[i].Text, "main", spans[i].Pos})
		}
		for i := after + 1; i < to; i++ {
			want = append(want, tokD{spans[i].Type, spans[i].Text, "ins", spans[i].Pos - spans[after+1].Pos})
		}
		want = append(want, tokD{lexer.EofTokenName, "", "ins", ins.Len()})
		for i := to; i < len(spans); i++ {
			want = append(want, tokD{spans[i].Type, spans[i].Text, "main", spans[i].Pos - ins.Len()})
		}
		want = append(want, tokD{lexer.EofTokenName, "", "main", len(main)}, tokD{lexer.EoiTokenName, "", "", 0})
		done := false
		peeks = 0
		q = source.NewQueue().Append(source.New("main", []byte(main)))
		tree, log, rec, e = run(q, nil, func(t *lexer.Token, q *source.Queue) {
			if !done && t.SourceName() == "main" && t.Pos().Pos() == spans[after].Pos {
				done = true
				q.Prepend(ins)
				c.Count("inserted_by_node_hook", 1)
			}
		})
		if !done {
			continue
		}
		if !check("source inserted by a node hook", fmt.Sprintf("%q, %q after byte %d", main, ins.Content(), spans[after].Pos), want, tree, log, rec, e) {
			return
		}
	}
}

func endOf(spans []gen.Span, i int, text string) int {
	if i < len(spans) {
		return spans[i].Pos
	}
	return len(text)
}

// skipInc renders a tree without inserted marks.
func skipInc(n *hx.RNode) string {
	var b strings.Builder
	var w func(n *hx.RNode)
	w = func(n *hx.RNode) {
		b.WriteString(n.Name + "(")
		for _, k := range n.Kids {
			switch x := k.(type) {
			case *hx.RNode:
				w(x)
			case *lexer.Token:
				if x.TypeName() != "inc" {
					b.WriteString(x.TypeName() + ":" + x.Text() + " ")
				}
			}
		}
		b.WriteString(")")
	}
	w(n)
	return b.String()
}

type tokenInst struct {
	parser.NodeHookInstance
	f func(t *lexer.Token)
}

func (i tokenInst) HandleToken(t *lexer.Token) error {
	e := i.NodeHookInstance.HandleToken(t)
	i.f(t)
	return e
}

// --- C16

// c16Hooked checks the full source option when the token stream is changed by token hook.
func c16Hooked(c *mon.Ctx, g *gen.Grammar, a gen.Alphabet, seq []gen.Tok, l *layout, ps []piece, fail func(format string, args ...any)) bool {
	p, e := hx.Compile("!extern $ext $sext;\n!side $sext;\n" + g.Text())
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	alpha := a.AllTexts(c.Rand)
	type extra struct{ typ, text string }
	type action struct {
		drop   bool
		extras []extra
	}
	acts := make([]action, len(seq))
	last := c.IntN(len(seq)+1) - 1
	for i := range acts {
		if i != last && i != len(seq)-1 && c.IntN(6) != 0 {
			continue
		}
		act := &acts[i]
		act.drop = c.Chance(30)
		for range c.IntN(4) {
			x := extra{"ext", ""}
			switch c.IntN(8) {
			case 0, 1:
				x = extra{"sext", ""}
			case 2:
				x = extra{"space", " "}
			case 3, 4:
				t := pick(c.Rand, alpha)
				x = extra{t.Type, t.Text}
			}
			if c.Chance(20) {
				x.text = ""
			} else if c.Chance(20) && x.typ != "space" {
				x.text = "~ext~"
			}
			act.extras = append(act.extras, x)
		}
	}
	atEof, atEoi := c.IntN(3) == 0, c.IntN(8) == 0
	type item struct{ typ, text string }
	var stream []item // non-side tokens which get to the parser
	side := func(typ string) bool { return typ == "space" || typ == "comment" || typ == "sext" }
	for i, t := range seq {
		if !acts[i].drop {
			stream = append(stream, item{typ: t.Type, text: t.Text})
		}
		for _, x := range acts[i].extras {
			if !side(x.typ) {
				stream = append(stream, item{typ: x.typ, text: x.text})
			}
		}
	}
	posToIdx := map[int]int{}
	for i := range seq {
		posToIdx[l.posOf(i)] = i
	}
	newHooks := func(rec *hx.Recorder) parser.Hooks {
		hooks := rec.Hooks()
		mk := func(tc *parser.TokenContext, xs []extra) (res []*lexer.Token, e error) {
			for _, x := range xs {
				t, e := tc.ParseContext().Parser().MakeToken(x.typ, []byte(x.text))
				if e != nil {
					return nil, e
				}
				res = append(res, t)
			}
			return
		}
		hooks.Tokens = parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			if side(t.TypeName()) {
				return true, nil, nil
			}
			off := -1
			for _, pc := range ps {
				if pc.name == t.SourceName() {
					off = pc.from + t.Pos().Pos()
				}
			}
			i, has := posToIdx[off]
			if !has {
				return false, nil, fmt.Errorf("unknown token %q", t.Text())
			}
			xs, e := mk(tc, acts[i].extras)
			return !acts[i].drop, xs, e
		}}
		if atEof {
			hooks.Tokens[parser.EofToken] = func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				xs, e := mk(tc, []extra{{"sext", ""}, {"space", " "}})
				return false, xs, e
			}
		}
		if atEoi {
			hooks.Tokens[parser.EoiToken] = func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				return true, nil, nil
			}
		}
		return hooks
	}
	c.Eval()
	rec := &hx.Recorder{}
	_, e1 := p.Parse(bg, queueOf(ps), newHooks(rec))
	opts := []parser.ParseOption{parser.WithFullSource()}
	if c.Chance(40) {
		opts = append(opts, parser.WithSides())
	}
	_, e2 := p.Parse(bg, queueOf(ps), newHooks(&hx.Recorder{}), mixOpts(c, opts)...)
	if e1 != nil {
		if e2 == nil {
			fail("input changed by token hook %v is accepted with the full source option only", acts)
			return false
		}
		return true
	}
	used := 0
	for _, t := range rec.Tokens {
		if t.Type() < 0 {
			continue
		}
		if used >= len(stream) || t.Text() != stream[used].text || t.TypeName() != stream[used].typ {
			fail("token %s is consumed, token %d of %v is expected, hook actions %v", hx.TokName(t), used, stream, acts)
			return false
		}
		used++
	}
	if used == len(stream) {
		c.Count("hooked_full_ok", 1)
		if e2 != nil {
			fail("all of tokens left by hook %v are consumed, but full source parse returns %v", acts, e2)
			return false
		}
		return true
	}
	c.Count("hooked_full_remaining", 1)
	if stream[used].text == "" {
		c.Count("hooked_full_empty", 1)
	}
	le := hx.LLX(e2)
	if le == nil || le.Code != parser.RemainingSourceError {
		fail("%d of tokens %v are consumed, but full source parse returns %v, hook actions %v", used, stream, e2, acts)
		return false
	}
	return true
}

func runC16(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	var g *gen.Grammar
	var a gen.Alphabet
	ll1 := c.Chance(50)
	if ll1 {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5}, gen.Opts{MaxNodes: 3, Depth: 3, Width: 3, Eoi: c.Chance(20)}, func(g *gen.Grammar) bool { return g.LL1() && !g.SharedEntry() })
	} else {
		o := confOpts(c)
		o.Eoi = c.Chance(20)
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30)}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	p := compileOrFail(c, g.Text())
	// reads everything
	var all []string
	for _, t := range g.Toks {
		if !t.Side {
			all = append(all, "$"+t.Name)
		}
	}
	ga := *g
	ga.Reserved = nil
	p2, e := hx.Compile(ga.TokenPart() + "root = {" + strings.Join(all, " | ") + "};\n")
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	for range 8 {
		if c.Failed() {
			return
		}
		var seq []gen.Tok
		for range 1 + c.IntN(3) {
			s := g.Sentence(c.Rand, a, 1+c.IntN(10))
			if c.Chance(20) {
				s = mutate(c.Rand, a, s)
			}
			seq = append(seq, s...)
		}
		if len(seq) > 36 || g.NewMatcher(seq).Paths() > 1000 {
			continue
		}
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(30)})
		l := newLayout(text, spans)
		ps := cutText(c, text, spans, 4)
		if len(ps) > 1 {
			c.Count("multi_source", 1)
		}
		withSides := c.Chance(40)
		fail := func(format string, args ...any) {
			c.Put("input", fmt.Sprintf("%q", ps))
			c.Fail(format+"; sources %q, grammar:\n%s", append(args, ps, strings.TrimSpace(g.NodePart()))...)
		}
		global := func(src string, pos int) int {
			for _, pc := range ps {
				if pc.name == src {
					return pc.from + pos
				}
			}
			return len(text)
		}
		q := queueOf(ps)
		next := 0 // next non-side token
		goes := 0
		parseOne := func(p *parser.Parser, q *source.Queue) (*hx.Recorder, int, error) {
			rec := &hx.Recorder{}
			fetched := 0
			hooks := rec.Hooks()
			hooks.Tokens = parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				if !tc.ParseContext().Parser().IsSideType(t.Type()) {
					fetched++
				}
				return true, nil, nil
			}}
			opts := []parser.ParseOption{}
			if withSides {
				opts = append(opts, parser.WithSides())
			}
			c.Eval()
			_, e := p.Parse(bg, q, hooks, mixOpts(c, opts)...)
			return rec, fetched, e
		}
		// after checks the queue after a successful parse
		after := func(rec *hx.Recorder, fetched int, what string) bool {
			start := next
			for _, t := range rec.Tokens {
				if t.Type() < 0 || t.TypeName() == "space" || t.TypeName() == "comment" {
					continue
				}
				if at := global(t.SourceName(), t.Pos().Pos()); next >= len(seq) || at != l.posOf(next) || t.Text() != seq[next].Text {
					fail("%s: token %s is consumed instead of token %d of input", what, hx.TokName(t), next)
					return false
				}
				next++
			}
			if fetched > next-start {
				c.Count("lookahead_left", 1)
			}
			from := 0
			if next > 0 {
				from = l.posOf(next-1) + len(seq[next-1].Text)
			}
			to := l.posOf(next)
			at := len(text)
			if !q.IsEmpty() {
				at = global(q.SourceName(), q.Pos())
			}
			if at < from || at > to {
				fail("%s: queue is at offset %d, the last consumed token ends at %d, the next token starts at %d", what, at, from, to)
				return false
			}
			return true
		}
		first := -1
		for next < len(seq) || goes == 0 {
			was := next
			if next > 0 && g.NewMatcher(seq[next:]).Paths() > 1000 {
				break
			}
			rec, fetched, e := parseOne(p, q)
			c.Count("parses", 1)
			if e != nil {
				break
			}
			goes++
			if !after(rec, fetched, fmt.Sprintf("parse %d", goes)) {
				return
			}
			if first < 0 {
				first = next
			}
			if goes > 1 {
				c.Count("resumed", 1)
			}
			if next == was || c.Chance(20) {
				// the rest is for another parser
				rec, fetched, e := parseOne(p2, q)
				if e != nil {
					fail("the rest cannot be parsed: %v", e)
					return
				}
				if !after(rec, fetched, "another parser") {
					return
				}
				if next != len(seq) {
					fail("%d of %d tokens are left after parsing the rest", len(seq)-next, len(seq))
					return
				}
				break
			}
		}
		if goes > 1 {
			c.Distinct(g.NodePart(), fmt.Sprint(ps))
		}
		// full source
		fullOne := func(opts ...parser.ParseOption) bool {
			c.Eval()
			_, e := p.Parse(bg, queueOf(ps), parser.Hooks{}, append(opts, parser.WithFullSource())...)
			if first < 0 {
				if e == nil {
					fail("input is accepted with the full source option only")
				}
				return e != nil
			}
			if first == len(seq) {
				if e != nil {
					fail("the whole input is consumed, but it is rejected with the full source option: %v", e)
					return false
				}
				c.Count("full_ok", 1)
				return true
			}
			c.Count("full_remaining", 1)
			le := hx.LLX(e)
			if le == nil || le.Code != parser.RemainingSourceError {
				fail("%d of %d tokens consumed, but full source parse returns %v", first, len(seq), e)
				return false
			}
			pos := l.posOf(first)
			for _, pc := range ps {
				if pos >= pc.from && pos < pc.from+len(pc.text) {
					if ln, cl := refLineCol(pc.text, pos-pc.from); le.SourceName != pc.name || le.Line != ln || le.Col != cl {
						fail("remaining source error %v is not at %q %d:%d", e, pc.name, ln, cl)
						return false
					}
				}
			}
			return true
		}
		if !fullOne() || !fullOne(parser.WithSides()) {
			return
		}
		// the same source may be queued several times, it makes no difference from equal sources
		if times := 2 + c.IntN(2); len(seq)*times <= 30 && c.Chance(50) {
			var rep []gen.Tok
			for _, pc := range ps {
				for range times {
					for _, sp := range spans {
						if !sp.Side && sp.Pos >= pc.from && sp.Pos < pc.from+len(pc.text) {
							rep = append(rep, sp.Tok)
						}
					}
				}
			}
			var logs [2]string
			for k := range 2 {
				q := source.NewQueue()
				for _, pc := range ps {
					s := source.New(pc.name, []byte(pc.text))
					for range times {
						if k == 1 {
							s = source.New(pc.name, []byte(pc.text))
						}
						q.Append(s)
					}
				}
				var b strings.Builder
				for done := 0; done <= len(rep) && !q.IsEmpty() && g.NewMatcher(rep[done:]).Paths() <= 1000; {
					rec, fetched, e := parseOne(p, q)
					was := done
					for _, t := range rec.Tokens {
						fmt.Fprintf(&b, "%s:%d ", hx.TokName(t), t.Pos().Pos())
						if t.Type() >= 0 && !p.IsSideType(t.Type()) {
							done++
						}
					}
					fmt.Fprintf(&b, "-> %v, queue at %q:%d, empty %v\n", e, q.SourceName(), q.Pos(), q.IsEmpty())
					if fetched > done-was {
						c.Count("repeated_lookahead_left", 1)
					}
					if e != nil || done == was {
						break
					}
				}
				logs[k] = b.String()
			}
			c.Count("repeated_sources", 1)
			if logs[0] != logs[1] {
				fail("sources queued %d times each are parsed as\n%s\nthe same sources as equal copies are parsed as\n%s", times, logs[0], logs[1])
				return
			}
		}
		if ll1 && !c16Hooked(c, g, a, seq, l, ps, fail) {
			return
		}
		if c.Idx < 20 {
			c.Sample("%s\nsources %q: %d goes", g.NodePart(), ps, goes)
		}
	}
}
