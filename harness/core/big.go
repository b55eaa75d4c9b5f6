package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

// Large cases: grammars having dozens of nodes and hundreds of keywords, thousands of tokens, deeply nested nodes.
// Every choice is made by a keyword used only there, so a predictive parser is the oracle.

// logInt returns a number in [lo, hi], smaller ones are more probable.
func logInt(c *mon.Ctx, lo, hi int) int {
	n := lo
	for n < hi && c.Chance(90) {
		n += 1 + c.IntN(n/4+1)
	}
	return min(n, hi)
}

func bigGrammar(c *mon.Ctx) (*gen.Grammar, gen.Alphabet) {
	o := gen.BigOpts{Nodes: logInt(c, 3, 50), Plain: logInt(c, 5, 120), Width: 2 + c.IntN(6), Depth: 1 + c.IntN(5), Rep: 10 + c.IntN(40), Recurse: 10 + c.IntN(40), Any: c.IntN(100)}
	if c.Chance(40) {
		o.Types = pick(c.Rand, []int{10, 24, 30, 40, 50})
	}
	if o.Nodes > 20 {
		o.Width = 2 + c.IntN(2)
		o.Depth = 1 + c.IntN(2)
	}
	if c.Chance(8) || c.Check.ID == "C19" && c.Chance(30) {
		// few nodes, but very long ones
		o.Nodes, o.Width, o.Depth = 1+c.IntN(3), logInt(c, 10, 150), c.IntN(3)
		c.Count("long_nodes", 1)
	}
	g, a := gen.Big(c.Rand, o)
	if g == nil {
		c.Count("generator_gave_up", 1)
		c.Abort()
	}
	return g, a
}

// bigSeq makes a sentence, spoiled sometimes.
func bigSeq(c *mon.Ctx, g *gen.Grammar, a gen.Alphabet, spoil int) []gen.Tok {
	seq := g.BigSentence(c.Rand, a, logInt(c, 20, 3000), pick(c.Rand, []int{20, 100, 400, 1500}), c.Chance(40))
	if len(seq) > 20000 {
		seq = seq[:20000]
	}
	return spoilSeq(c, a, seq, spoil)
}

func spoilSeq(c *mon.Ctx, a gen.Alphabet, seq []gen.Tok, spoil int) []gen.Tok {
	if !c.Chance(spoil) || len(seq) == 0 {
		return seq
	}
	i := c.IntN(len(seq))
	if c.Chance(50) {
		i = len(seq) - 1 - c.IntN(min(len(seq), 10))
	}
	res := append([]gen.Tok{}, seq...)
	switch c.IntN(5) {
	case 0:
		res = append(res[:i], res[i+1:]...)
	case 1:
		res[i] = a.RandTok(c.Rand)
	case 2:
		res = append(res[:i:i], append([]gen.Tok{a.RandTok(c.Rand)}, seq[i:]...)...)
	case 3:
		res = res[:i]
	default:
		res = append(res, a.RandTok(c.Rand))
	}
	return res
}

func treeDepth(t *gen.Tree) int {
	d := 0
	for _, k := range t.Kids {
		if k.Node != "" {
			d = max(d, treeDepth(k))
		}
	}
	return d + 1
}

func short(s string) string {
	if len(s) > 2000 {
		return s[:1000] + " ... " + s[len(s)-1000:]
	}
	return s
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-80):min(len(s), i+80)] }
	return fmt.Sprintf("...%s... instead of ...%s...", cut(a), cut(b))
}

// runWide runs grammars having a lot of alternatives in the same state.
func runWide(c *mon.Ctx) {
	keys, vars := logInt(c, 2, 120), 1+c.IntN(5)
	if c.Chance(25) {
		keys, vars = 1+c.IntN(4), logInt(c, 5, 90)
	}
	g, a, sentence, parse := gen.Wide(c.Rand, keys, vars)
	if !g.Valid() || g.SharedEntry() {
		c.Fatal("wrong grammar is generated")
	}
	c.Put("grammar", g.Text())
	c.Crumb()
	g.Layers = "@monitor;\n"
	lt := &layerTpl{func() parser.Hooks { return parser.Hooks{} }}
	p, e := hx.Compile(g.Text(), parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"monitor": tplFunc(lt)}))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	c.Count("wide_grammars", 1)
	c.Max("wide_keywords", keys)
	c.Max("wide_variants", vars)
	for range 4 {
		if c.Failed() {
			return
		}
		bigOne(c, g, parse, p, lt, spoilSeq(c, a, sentence(logInt(c, 1, 500)), 40))
	}
}

func runBig(c *mon.Ctx) {
	g, a := bigGrammar(c)
	parse := g.LLParse
	ref := g
	if c.Chance(40) {
		// variants which differ in the last token
		var fix func(*gen.Tree, []gen.Tok) *gen.Tree
		g, ref, fix = gen.Conflict(c.Rand, g, a)
		if !g.Valid() || g.SharedEntry() || !ref.LL1() {
			c.Count("generator_gave_up", 1)
			c.Abort()
		}
		a.Reserved = ref.Reserved
		parse = func(toks []gen.Tok) (*gen.Tree, int) {
			t, k := ref.LLParse(toks)
			if t != nil {
				t = fix(t, toks)
			}
			return t, k
		}
		c.Count("big_conflicts", 1)
	}
	text := g.Text()
	c.Put("grammar", text)
	c.Crumb()
	g.Layers = "@monitor;\n"
	lt := &layerTpl{func() parser.Hooks { return parser.Hooks{} }}
	p, e := hx.Compile(g.Text(), parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"monitor": tplFunc(lt)}))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	c.Count("big_grammars", 1)
	c.Max("big_nodes", len(g.Nodes))
	c.Max("big_literals", len(g.Reserved))
	spoil := 25
	if c.Check.ID == "C12" {
		spoil = 85
	}
	for range 3 {
		if c.Failed() {
			return
		}
		bigOne(c, g, parse, p, lt, bigSeq(c, ref, a, spoil))
	}
}

func bigOne(c *mon.Ctx, g *gen.Grammar, parse func([]gen.Tok) (*gen.Tree, int), p *parser.Parser, lt *layerTpl, seq []gen.Tok) {
	n := len(seq)
	want, k := parse(seq)
	text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(40)})
	l := newLayout(text, spans)
	at := make([]int, 0, n+1)
	for _, s := range spans {
		if !s.Side {
			at = append(at, s.Pos)
		}
	}
	at = append(at, len(text))
	full := c.Chance(60)
	sides := c.Chance(30)
	if c.Check.ID == "C04" || c.Check.ID == "C27" {
		sides = c.Chance(70)
	}
	var opts []parser.ParseOption
	if full {
		opts = append(opts, parser.WithFullSource())
	}
	if sides {
		opts = append(opts, parser.WithSides())
	}
	rec := &hx.Recorder{}
	var log []*lexer.Token
	ahead := 0
	hooks := rec.Hooks()
	hooks.Tokens = tokenLog(rec, &log, &ahead)
	var lrec *hx.Recorder
	lt.hooks = func() parser.Hooks { return parser.Hooks{} }
	if c.Check.ID == "C03" && c.Chance(50) {
		lrec = &hx.Recorder{}
		lt.hooks = lrec.Hooks
	}
	c.Put("input", text)
	c.Crumb()
	c.Eval()
	q := source.NewQueue().Append(source.New("input", []byte(text)))
	res, e := p.Parse(bg, q, hooks, mixOpts(c, opts)...)
	lt.hooks = func() parser.Hooks { return parser.Hooks{} }
	fail := func(format string, args ...any) {
		c.Put("input", text)
		c.Put("full_source", fmt.Sprint(full))
		c.Put("with_sides", fmt.Sprint(sides))
		c.Fail("large input: "+format, args...)
	}
	c.Max("big_tokens", n)
	c.Count("big_parses", 1)
	ok := want != nil && (k == n || !full)
	if ok != (e == nil) {
		if ok {
			fail("%d tokens must be accepted, got %v", n, e)
		} else {
			fail("%d tokens are accepted, must be rejected after %d", n, k)
		}
		return
	}
	if n >= 30 {
		c.Distinct(g.Nodes[0].Name, fmt.Sprint(len(g.Nodes), n), text)
	}
	for _, s := range rec.Errors {
		fail("node hooks: %s", s)
		return
	}
	// token hooks: all tokens in order
	i := 0
	for _, t := range log {
		if t.Type() == lexer.EofTokenType || t.Type() == lexer.EoiTokenType {
			continue
		}
		if i >= len(spans) || !sameTok(t, spans[i]) {
			fail("token hook got %s as token %d", hx.TokName(t), i)
			return
		}
		i++
	}
	if e != nil {
		c.Count("big_rejected", 1)
		le := hx.LLX(e)
		if le == nil {
			fail("not an error of the library: %v", e)
			return
		}
		if k == n {
			if le.Code != parser.UnexpectedEoiError {
				fail("premature end of input: got %v", e)
			}
			return
		}
		ln, cl := refLineCol(text, at[k])
		if le.Code != parser.UnexpectedTokenError && (want == nil || le.Code != parser.RemainingSourceError) ||
			le.Line != ln || le.Col != cl || le.SourceName != "input" {
			fail("got %v, the first wrong token is %q at %d:%d", e, seq[k].Text, ln, cl)
		}
		return
	}
	c.Count("big_accepted", 1)
	if ahead > 0 {
		c.Max("big_lookahead", ahead)
	}
	rec.Finish(res)
	for _, s := range rec.Errors {
		fail("node hooks: %s", s)
		return
	}
	if lrec != nil {
		c.Count("big_layer_runs", 1)
		lrec.Finish(lrec.Root)
		for _, s := range lrec.Errors {
			fail("layer hooks: %s", s)
			return
		}
		if x, y := lrec.Root.String(), rec.Root.String(); x != y {
			fail("node hooks of layers got different events: %s", diffAt(x, y))
			return
		}
	}
	if !sides {
		for _, t := range rec.Tokens {
			if t.Type() >= 0 && isSide(t) {
				fail("side token %s is passed to node hooks", hx.TokName(t))
				return
			}
		}
	}
	cnt := 0
	t, s := toTree(strip(rec.Root, &cnt), l.pos, n)
	if s != "" {
		fail("%s", s)
		return
	}
	toks := append(append([]gen.Tok{}, seq...), gen.EoiTok)
	if x, y := t.String(toks), want.String(toks); x != y {
		fail("wrong tree: %s", diffAt(x, y))
		return
	}
	c.Max("big_depth", treeDepth(want))
	if d := treeDepth(want); d > 50 {
		c.Count("big_deep", 1)
	}
	switch c.Check.ID {
	case "C03":
		bigPartial(c, g, p, lt, rec, text, opts, fail)
	case "C04":
		if sides {
			for i, t := range rec.Tokens {
				if t.Type() >= 0 && (i >= len(spans) || !sameTok(t, spans[i])) {
					fail("node hooks got %s as token %d", hx.TokName(t), i)
					return
				}
			}
			if s := edgeSides(c, p, rec.Root, true); s != "" {
				fail("%s", s)
			}
		}
	case "C16":
		// the rest is still there
		pos := len(text)
		if !q.IsEmpty() {
			pos = q.Pos()
		}
		from := 0
		if k > 0 {
			from = at[k-1] + len(seq[k-1].Text)
		}
		if pos < from || pos > at[k] {
			fail("queue is at %d, the last consumed token ends at %d, the next one starts at %d", pos, from, at[k])
		}
	case "C27":
		res, e := p.ParseString(bg, "input", text, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, mixOpts(c, opts)...)
		root, is := res.(tree.NodeElement)
		if e != nil || !is {
			fail("result of parsing with tree.NodeHook: %v, %v", res, e)
			return
		}
		c27One(c, g, root, rec, text, spans, []piece{{"input", text, 0}}, sides, full, false)
		bigWalk(c, root, rec, fail)
	}
}

// bigPartial hooks a part of nodes.
func bigPartial(c *mon.Ctx, g *gen.Grammar, p *parser.Parser, lt *layerTpl, rec *hx.Recorder, text string, opts []parser.ParseOption, fail func(string, ...any)) {
	set := func() (map[string]bool, *hx.Recorder, parser.Hooks) {
		r := &hx.Recorder{Partial: true}
		hooked := map[string]bool{"root": true}
		pct := pick(c.Rand, []int{3, 20, 60})
		hs := parser.Hooks{Nodes: parser.NodeHooks{"root": r.Hook}}
		for _, n := range g.Nodes[1:] {
			if c.Chance(pct) {
				hooked[n.Name] = true
				hs.Nodes[n.Name] = r.Hook
			} else if c.Chance(10) {
				hs.Nodes[n.Name] = func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
					return nil, nil
				}
			}
		}
		return hooked, r, hs
	}
	hooked, r, hs := set()
	lhooked, lr, lhs := set()
	lt.hooks = func() parser.Hooks { return lhs }
	c.Eval()
	res, e := p.ParseString(bg, "input", text, hs, mixOpts(c, opts)...)
	lt.hooks = func() parser.Hooks { return parser.Hooks{} }
	if e != nil {
		fail("accepted input is rejected when hooks are set for a part of nodes: %v", e)
		return
	}
	for i, s := range append(r.Errors, lr.Errors...) {
		fail("partial hooks (%d): %s", i, s)
		return
	}
	if w, r := projString(rec.Root, hooked, nil), partString(res); w != r {
		fail("hooks for %v only: %s", hooked, diffAt(r, w))
		return
	}
	if w, r := projString(rec.Root, lhooked, nil), partString(lr.Root); w != r {
		fail("layer hooks for %v only: %s", lhooked, diffAt(r, w))
	}
}

// bigWalk traverses a large tree in all ways.
func bigWalk(c *mon.Ctx, root tree.NodeElement, rec *hx.Recorder, fail func(string, ...any)) {
	var toks []*lexer.Token
	var all []string
	var walk func(n *hx.RNode, level int)
	walk = func(n *hx.RNode, level int) {
		all = append(all, fmt.Sprint(level, n.Name))
		for _, k := range n.Kids {
			switch x := k.(type) {
			case *hx.RNode:
				walk(x, level+1)
			case *lexer.Token:
				toks = append(toks, x)
				all = append(all, fmt.Sprint(level+1, x.TypeName()))
			}
		}
	}
	walk(rec.Root, 0)
	var got []string
	tree.Walk(root, tree.WalkLtr, func(s tree.WalkStat) tree.WalkerFlags {
		got = append(got, fmt.Sprint(s.Level, s.Element.TypeName()))
		return 0
	})
	if x, y := strings.Join(got, " "), strings.Join(all, " "); x != y {
		fail("wrong traversal: %s", diffAt(x, y))
		return
	}
	i := 0
	for e := tree.FirstTokenElement(root); e != nil; e = tree.NextTokenElement(e) {
		if i >= len(toks) || hx.TokName(toks[i]) != hx.TokName(e.Token()) {
			fail("token element %d is %s", i, hx.TokName(e.Token()))
			return
		}
		i++
	}
	if i != len(toks) {
		fail("%d of %d token elements found", i, len(toks))
		return
	}
	for e := tree.LastTokenElement(root); e != nil; e = tree.PrevTokenElement(e) {
		i--
		if i < 0 || hx.TokName(toks[i]) != hx.TokName(e.Token()) {
			fail("token element %d from the end is %s", len(toks)-i, hx.TokName(e.Token()))
			return
		}
	}
	if i != 0 {
		fail("%d token elements are not found from the end", i)
	}
	c.Count("big_walks", 1)
}
