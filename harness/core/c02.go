package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

func init() {
	register(&mon.Check{
		ID: "C02",
		Rule: "random grammars full of variants with common prefixes (several lexer groups in a third of them), random sentences and mutations with side tokens; " +
			"the hooks log every token and node event; non-trivial: distinct (grammar, input) where a token hook ran at least 2 tokens ahead of node hooks",
		Quick: 12000, Thorough: 300000,
		Need: []string{"big_parses", "wide_grammars", "lookahead", "long_lookahead", "unique_sentences", "accepted"},
		Run:  runC02,
		Assumptions: []string{"the chosen variant is judged for sentences with a unique derivation in which no node or group end can be continued by the next token; " +
			"exactly-once and order are judged for all inputs"},
	})
	register(&mon.Check{
		ID: "C03",
		Rule: "random grammars and inputs; hooks for all nodes, for random subsets with and without a fallback hook, and hooks of up to three grammar layers; " +
			"every event goes through an online protocol monitor, partial trees are compared with the projection of the full one; non-trivial: distinct (grammar, input) with a tree of at least 3 nodes",
		Quick: 12000, Thorough: 300000,
		Need: []string{"big_parses", "wide_grammars", "events", "partial_runs", "layer_runs", "fallback_runs", "partial_layer_runs", "several_layer_runs", "layer_fallback_runs", "no_instance_runs", "nil_result_runs", "rejected"},
		Run:  runC03,
	})
	register(&mon.Check{
		ID: "C04",
		Rule: "random grammars; the same token sequence is laid out densely and with random side tokens, with and without the option passing side tokens; " +
			"non-trivial: distinct (grammar, text) with at least 2 side tokens between tokens of accepted texts",
		Quick: 10000, Thorough: 250000,
		Need: []string{"big_parses", "wide_grammars", "accepted", "rejected", "sides_delivered", "after_node_end", "conflict_sides", "lasted_until_end"},
		Run:  runC04,
	})
}

func tokenLog(rec *hx.Recorder, log *[]*lexer.Token, ahead *int) parser.TokenHooks {
	h := func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
		*log = append(*log, t)
		if a := len(*log) - len(rec.Tokens); a > *ahead {
			*ahead = a
		}
		return true, nil, nil
	}
	return parser.TokenHooks{parser.AnyToken: h, parser.EofToken: h, parser.EoiToken: h}
}

// sameTok tells if a fetched token is the given span.
func sameTok(t *lexer.Token, s gen.Span) bool {
	return t.Pos().Pos() == s.Pos && t.Text() == s.Text && t.TypeName() == s.Type
}

func confOpts(c *mon.Ctx) gen.Opts {
	return gen.Opts{MaxNodes: 1 + c.IntN(4), Depth: 2 + c.IntN(3), Width: 2 + c.IntN(3), Eoi: c.Chance(30), Conf: true}
}

func runC02(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	ao := gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(35)}
	var g *gen.Grammar
	var a gen.Alphabet
	if c.Chance(30) {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 3, Max: 6, Groups: c.Chance(35)}, gen.Opts{MaxNodes: 3, Depth: 3, Width: 4, Eoi: true}, func(g *gen.Grammar) bool {
			return g.LL1()
		})
		for range 3 {
			if g.Unfactor(c.Rand) == 0 {
				break
			}
		}
		if g.SharedEntry() {
			c.Abort()
		}
	} else {
		g, a = genGrammar(c, ao, confOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	p := compileOrFail(c, g.Text())
	sampled := false
	for range 14 {
		if c.Failed() {
			return
		}
		seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
		if c.Chance(25) {
			seq = mutate(c.Rand, a, seq)
		}
		if len(seq) > 40 {
			continue
		}
		m := g.NewMatcher(seq)
		if m.Paths() > 2000 {
			c.Count("skipped_exponential", 1)
			continue
		}
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(30)})
		l := newLayout(text, spans)
		withSides := c.Chance(50)
		full := c.Chance(70)
		rec := &hx.Recorder{}
		var log []*lexer.Token
		ahead := 0
		hooks := rec.Hooks()
		hooks.Tokens = tokenLog(rec, &log, &ahead)
		opts := []parser.ParseOption{}
		if withSides {
			opts = append(opts, parser.WithSides())
		}
		if full {
			opts = append(opts, parser.WithFullSource())
		}
		c.Eval()
		_, e := p.ParseString(bg, "input", text, hooks, mixOpts(c, opts)...)
		fail := func(format string, args ...any) {
			c.Put("input", text)
			if rec.Root != nil {
				c.Put("tree", rec.Root.String())
			}
			c.Fail(format+"; input %q, grammar:\n%s", append(args, text, strings.TrimSpace(g.NodePart()))...)
		}
		// token hooks: every token exactly once, in source order, nothing else
		i := 0
		for _, t := range log {
			switch {
			case t.Type() == lexer.EofTokenType || t.Type() == lexer.EoiTokenType:
				if i < len(spans) {
					fail("token hook got %s before all tokens", hx.TokName(t))
				}
				continue
			case i >= len(spans):
				fail("token hook got an extra token %s", hx.TokName(t))
			case !sameTok(t, spans[i]):
				fail("token hook got %s instead of %q", hx.TokName(t), spans[i].Text)
			}
			if c.Failed() {
				return
			}
			i++
		}
		c.Count("token_hook_calls", len(log))
		// node hooks: a subsequence of fetched tokens
		j := 0
		for _, t := range rec.Tokens {
			for j < len(log) && log[j] != t {
				j++
			}
			if j == len(log) {
				fail("node hook got token %s twice, out of order, or not fetched at all", hx.TokName(t))
				return
			}
			j++
		}
		if ahead >= 2 {
			c.Count("lookahead", 1)
			c.Distinct(g.NodePart(), text)
		}
		if ahead >= 4 {
			c.Count("long_lookahead", 1)
		}
		c.Max("lookahead_tokens", ahead)
		for _, s := range rec.Errors {
			fail("node hooks: %s", s)
			return
		}
		n := len(seq)
		unique := m.RootCount(n) == 1 && full
		if e != nil {
			c.Count("rejected", 1)
			if unique && m.Guaranteed(m.RootDeriv(n)) {
				fail("no variant is chosen: %v; the only derivation is %s", e, m.Tree(m.RootDeriv(n)).String(append(seq, gen.EoiTok)))
			}
			continue
		}
		c.Count("accepted", 1)
		if full && i != len(spans) {
			fail("%d of %d tokens were passed to token hooks", i, len(spans))
			return
		}
		if !unique {
			continue
		}
		c.Count("unique_sentences", 1)
		if withSides {
			continue
		}
		t, s := toTree(rec.Root, l.pos, n)
		toks := append(append([]gen.Tok{}, seq...), gen.EoiTok)
		w := m.Tree(m.RootDeriv(n)).String(toks)
		if s == "" {
			if r := t.String(toks); r != w {
				s = r
			}
		}
		if s != "" {
			fail("wrong variant: got %s instead of %s", s, w)
			return
		}
		if ahead >= 4 && !sampled {
			sampled = true
			c.Sample("%s\ninput: %s\nlookahead: %d tokens", g.NodePart(), gen.Texts(seq), ahead)
		}
	}
}

// --- C03

// projection of a full tree onto hooked nodes

// nearest returns the node whose result is passed to the parent of n; nodes of nils return no result.
func nearest(n *hx.RNode, hooked, nils map[string]bool) (*hx.RNode, bool) {
	if hooked[n.Name] {
		return n, !nils[n.Name]
	}
	var res *hx.RNode
	for _, k := range n.Kids {
		if x, ok := k.(*hx.RNode); ok {
			if r, f := nearest(x, hooked, nils); f {
				res = r
			}
		}
	}
	return res, res != nil
}

func project(n *hx.RNode, hooked, nils map[string]bool, b *strings.Builder) {
	// n is hooked
	b.WriteString(n.Name + "@" + hx.TokName(n.First) + "(")
	for i, k := range n.Kids {
		if i > 0 {
			b.WriteString(" ")
		}
		switch x := k.(type) {
		case *lexer.Token:
			b.WriteString(hx.TokName(x))
		case *hx.RNode:
			b.WriteString(x.Name + "=")
			if r, f := nearest(x, hooked, nils); f {
				project(r, hooked, nils, b)
			} else {
				b.WriteString("nil")
			}
		}
	}
	b.WriteString(")")
}

func projString(n *hx.RNode, hooked, nils map[string]bool) string {
	r, f := nearest(n, hooked, nils)
	if !f {
		return "nil"
	}
	var b strings.Builder
	project(r, hooked, nils, &b)
	return b.String()
}

// shallow lists what hooked nodes get, each node by itself, including those whose results are nil.
func shallow(nodes []*hx.RNode, hooked, nils map[string]bool) (res []string) {
	id := func(n *hx.RNode) string { return n.Name + "@" + hx.TokName(n.First) }
	for _, n := range nodes {
		if !hooked[n.Name] {
			continue
		}
		s := id(n) + "("
		for _, k := range n.Kids {
			switch x := k.(type) {
			case *lexer.Token:
				s += " " + hx.TokName(x)
			case *hx.RNode:
				r, f := nearest(x, hooked, nils)
				s += " " + x.Name + "="
				if f {
					s += id(r)
				}
			case *hx.Result:
				s += " " + x.Node + "="
				if r, ok := x.Value.(*hx.RNode); ok {
					s += id(r)
				} else if x.Value != nil {
					s += fmt.Sprintf("?%v", x.Value)
				}
			}
		}
		res = append(res, s+")")
	}
	return
}

// sameParts compares what is seen by hooks of some nodes with that seen by hooks of all nodes.
func sameParts(full, part []*hx.RNode, hooked, nils map[string]bool) string {
	want, got := shallow(full, hooked, nils), shallow(part, hooked, nils)
	for i, s := range got {
		if i >= len(want) {
			return "extra node " + s
		}
		if s != want[i] {
			return "node " + s + " instead of " + want[i]
		}
	}
	if len(got) != len(want) {
		return "node " + want[len(got)] + " is missing"
	}
	i := 0
	for _, n := range full {
		if hooked[n.Name] {
			if p := part[i]; p.Stack != nil && n.Stack != nil && strings.Join(p.Stack, " ") != strings.Join(n.Stack, " ") {
				return fmt.Sprintf("stack %v instead of %v at creation of %s", p.Stack, n.Stack, want[i])
			}
			i++
		}
	}
	return ""
}

func partString(v any) string {
	n, ok := v.(*hx.RNode)
	if !ok {
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("?%v", v)
	}
	var b strings.Builder
	b.WriteString(n.Name + "@" + hx.TokName(n.First) + "(")
	for i, k := range n.Kids {
		if i > 0 {
			b.WriteString(" ")
		}
		switch x := k.(type) {
		case *lexer.Token:
			b.WriteString(hx.TokName(x))
		case *hx.Result:
			b.WriteString(x.Node + "=" + partString(x.Value))
		}
	}
	b.WriteString(")")
	return b.String()
}

func countNodes(n *hx.RNode) int {
	r := 1
	for _, k := range n.Kids {
		if x, ok := k.(*hx.RNode); ok {
			r += countNodes(x)
		}
	}
	return r
}

type layerTpl struct{ hooks func() parser.Hooks }

func (t *layerTpl) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks { return t.hooks() }

func runC03(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	// grammars of KF1 class keep dead variants alive, this needs exponential time
	g, a := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(15)}, randOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	for range 3 {
		if len(g.Nodes) > 1 {
			break
		}
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5}, randOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	g.Layers = "@monitor;\n@second;\n@third;\n"
	text := g.Text()
	c.Put("grammar", text)
	noHooks := func() parser.Hooks { return parser.Hooks{} }
	lts := []*layerTpl{{noHooks}, {noHooks}, {noHooks}}
	lt := lts[0]
	p, e := hx.Compile(text, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{
		"monitor": tplFunc(lts[0]), "second": tplFunc(lts[1]), "third": tplFunc(lts[2]),
	}))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	sampled := false
	for range 8 {
		if c.Failed() {
			return
		}
		seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
		if c.Chance(20) {
			seq = mutate(c.Rand, a, seq)
		}
		if len(seq) > 40 || g.NewMatcher(seq).Paths() > 2000 {
			continue
		}
		input, _ := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(50)})
		opts := []parser.ParseOption{}
		if c.Chance(40) {
			opts = append(opts, parser.WithSides())
		}
		if c.Chance(50) {
			opts = append(opts, parser.WithFullSource())
		}
		fail := func(format string, args ...any) {
			c.Put("input", input)
			c.Fail(format+"; input %q, grammar:\n%s", append(args, input, strings.TrimSpace(g.NodePart()))...)
		}

		nils := map[string]bool{} // nodes returning nil
		if c.Chance(30) {
			for _, n := range g.Nodes {
				nils[n.Name] = c.Chance(40)
			}
			c.Count("nil_result_runs", 1)
		}
		isNil := func(n string) bool { return nils[n] }
		rec := &hx.Recorder{KeepLog: true, Nil: isNil}
		var lrec *hx.Recorder
		lt.hooks = func() parser.Hooks { return parser.Hooks{} }
		if c.Chance(30) {
			lrec = &hx.Recorder{KeepLog: true}
			lt.hooks = lrec.Hooks
			c.Count("layer_runs", 1)
		}
		c.Eval()
		res, e := p.ParseString(bg, "input", input, rec.Hooks(), mixOpts(c, opts)...)
		c.Count("events", rec.N)
		if e == nil {
			rec.Finish(res)
		} else {
			c.Count("rejected", 1)
			if res != nil {
				fail("both result and error returned")
			}
		}
		for _, s := range rec.Errors {
			c.Put("events", joinLines(rec.Events))
			fail("%s", s)
			return
		}
		if lrec != nil {
			if e == nil {
				lrec.Finish(any(lrec.Root))
			}
			for _, s := range lrec.Errors {
				c.Put("events", joinLines(lrec.Events))
				fail("layer hooks: %s", s)
				return
			}
			if x, y := joinLines(rec.Events), joinLines(lrec.Events); x != y {
				fail("node hooks of different layers get different events:\n%s\n---\n%s", x, y)
				return
			}
		}
		lt.hooks = func() parser.Hooks { return parser.Hooks{} }
		if e != nil {
			continue
		}
		if k := countNodes(rec.Root); k >= 3 {
			c.Distinct(g.NodePart(), input)
			c.Max("tree_nodes", k)
		}
		if !sampled {
			sampled = true
			c.Sample("%s\ninput: %q\ntree: %s", g.NodePart(), input, rec.Root)
		}

		// partial hooks
		hooked := map[string]bool{}
		stacks := pick(c.Rand, []int{0, 20, 50, 100})
		noStack := func() bool { return !c.Chance(stacks) }
		pr := &hx.Recorder{Partial: true, Nil: isNil, NoStack: noStack}
		special := map[string]string{} // node -> which hook was called
		bad := ""
		dropped := map[string]bool{} // the hook returns no instance
		if c.Chance(25) {
			for _, n := range g.Nodes {
				dropped[n.Name] = c.Chance(40)
			}
			c.Count("no_instance_runs", 1)
		}
		mk := func(which string) parser.NodeHook {
			return func(ctx context.Context, node string, tok *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
				if which != "" && which != node || which == "" && special[node] != "" {
					bad = fmt.Sprintf("hook for %q called for node %q", which, node)
				}
				if dropped[node] {
					return nil, nil
				}
				return pr.Hook(ctx, node, tok, nc)
			}
		}
		hs := parser.Hooks{Nodes: parser.NodeHooks{}}
		for _, n := range g.Nodes {
			if c.Chance(45) {
				hooked[n.Name] = !dropped[n.Name]
				special[n.Name] = n.Name
				hs.Nodes[n.Name] = mk(n.Name)
			}
		}
		if c.Chance(15) {
			hs.Nodes[parser.AnyNode] = mk("")
			c.Count("fallback_runs", 1)
			for _, n := range g.Nodes {
				hooked[n.Name] = !dropped[n.Name]
			}
		}
		// grammar layers, each one hooks its own set of nodes
		type partLayer struct {
			rec    *hx.Recorder
			hooked map[string]bool
			bad    string
		}
		var partLayers []*partLayer
		for _, lt := range lts {
			if !c.Chance(30) {
				continue
			}
			l := &partLayer{rec: &hx.Recorder{Partial: true, NoStack: noStack}, hooked: map[string]bool{}}
			own := map[string]bool{}
			lhs := parser.Hooks{Nodes: parser.NodeHooks{}}
			mk := func(which string) parser.NodeHook {
				return func(ctx context.Context, node string, tok *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
					if which != "" && which != node || which == "" && own[node] {
						l.bad = fmt.Sprintf("hook for %q called for node %q", which, node)
					}
					return l.rec.Hook(ctx, node, tok, nc)
				}
			}
			num, fallback := pick(c.Rand, []int{10, 40}), c.Chance(25)
			for i, n := range g.Nodes {
				if i == 0 || c.Chance(num) {
					l.hooked[n.Name], own[n.Name] = true, true
					lhs.Nodes[n.Name] = mk(n.Name)
				} else if c.Chance(20) {
					own[n.Name] = true
					lhs.Nodes[n.Name] = func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
						return nil, nil
					}
				} else if fallback {
					l.hooked[n.Name] = true
				}
			}
			if fallback {
				lhs.Nodes[parser.AnyNode] = mk("")
				c.Count("layer_fallback_runs", 1)
			}
			lt.hooks = func() parser.Hooks { return lhs }
			partLayers = append(partLayers, l)
			c.Count("partial_layer_runs", 1)
		}
		if len(partLayers) > 1 {
			c.Count("several_layer_runs", 1)
		}
		layerResult := func() bool {
			for _, lt := range lts {
				lt.hooks = noHooks
			}
			for _, l := range partLayers {
				for _, s := range append(l.rec.Errors, l.bad) {
					if s != "" {
						fail("layer hooks for %v only: %s", l.hooked, s)
						return false
					}
				}
				if w, r := projString(rec.Root, l.hooked, nil), partString(l.rec.Root); w != r {
					fail("layer hooks for %v only: the root got %s instead of %s", l.hooked, r, w)
					return false
				}
				if s := sameParts(rec.All, l.rec.All, l.hooked, nil); s != "" {
					fail("layer hooks for %v only: %s", l.hooked, s)
					return false
				}
			}
			return true
		}
		if len(hs.Nodes) == 0 {
			// no hooks at all: no result
			res, e = p.ParseString(bg, "input", input, hs, mixOpts(c, opts)...)
			if e != nil || res != nil {
				fail("result %v, error %v without any node hooks", res, e)
			}
			layerResult()
			continue
		}
		c.Count("partial_runs", 1)
		c.Eval()
		res, e = p.ParseString(bg, "input", input, hs, mixOpts(c, opts)...)
		if e != nil {
			fail("accepted input is rejected when hooks are set for %v only: %v", hooked, e)
			return
		}
		if bad != "" {
			fail("%s", bad)
			return
		}
		for _, s := range pr.Errors {
			fail("hooks for %v only: %s", hooked, s)
			return
		}
		if w, r := projString(rec.Root, hooked, nils), partString(res); w != r {
			fail("hooks for %v only: result is %s instead of %s", hooked, r, w)
			return
		}
		if s := sameParts(rec.All, pr.All, hooked, nils); s != "" {
			fail("hooks for %v only: %s", hooked, s)
			return
		}
		if !layerResult() {
			return
		}
	}
}

// --- C04

func runC04(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	g, a := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(20)}, randOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	p := compileOrFail(c, g.Text())
	plain := noConflicts(c, g)
	sampled := false
	for range 6 {
		seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
		if c.Chance(30) {
			seq = mutate(c.Rand, a, seq)
		}
		if len(seq) > 40 || g.NewMatcher(seq).Paths() > 2000 {
			continue
		}
		opts := []parser.ParseOption{}
		if c.Chance(60) {
			opts = append(opts, parser.WithFullSource())
		}
		full := len(opts) > 0
		refTree := ""
		refOk := false
		for v := 0; v < 5; v++ {
			if c.Failed() {
				return
			}
			text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: v == 0})
			rec := &hx.Recorder{}
			var log []*lexer.Token
			ahead := 0
			hooks := rec.Hooks()
			hooks.Tokens = tokenLog(rec, &log, &ahead)
			until := false
			rec.OnEvent = func(int) {
				until = plain && len(log) > 0 && log[len(log)-1].Type() == lexer.EoiTokenType
			}
			oo := opts
			withSides := v >= 3 || v > 0 && c.Chance(20)
			if withSides {
				oo = append(append([]parser.ParseOption{}, opts...), parser.WithSides())
			}
			c.Eval()
			_, e := p.ParseString(bg, "input", text, hooks, oo...)
			fail := func(format string, args ...any) {
				c.Put("input", text)
				if rec.Root != nil {
					c.Put("tree", rec.Root.String())
				}
				c.Fail(format+"; input %q, grammar:\n%s", append(args, text, strings.TrimSpace(g.NodePart()))...)
			}
			tree := ""
			sides := 0
			if rec.Root != nil {
				stripped := strip(rec.Root, &sides)
				tree = stripped.String()
			}
			if !withSides && sides > 0 {
				fail("side tokens are passed to node hooks without being requested")
				return
			}
			if e != nil {
				c.Count("rejected", 1)
			} else {
				c.Count("accepted", 1)
			}
			for _, s := range rec.Errors {
				fail("node hooks: %s", s)
				return
			}
			if v == 0 {
				refTree, refOk = tree, e == nil
			} else if refOk != (e == nil) {
				fail("side tokens change acceptance: %v without, %v (%v) with them", refOk, e == nil, e)
				return
			} else if refTree != tree && e == nil {
				fail("side tokens change the tree: %s without, %s with them", refTree, tree)
				return
			}
			if e != nil || !withSides {
				continue
			}
			// all tokens up to the last consumed one, in order, exactly once
			toks := rec.Tokens
			if len(toks) > 0 && toks[len(toks)-1].Type() == lexer.EoiTokenType {
				toks = toks[:len(toks)-1]
			}
			for i, t := range toks {
				if i >= len(spans) || !sameTok(t, spans[i]) {
					fail("node hooks got %s as token %d", hx.TokName(t), i)
					return
				}
			}
			left := 0
			for _, s := range spans[len(toks):] {
				if !s.Side {
					left++
				}
			}
			if until {
				c.Count("lasted_until_end", 1)
				if len(toks) < len(spans) {
					fail("the root node ended at the end of input, but the last %d side tokens are not delivered", len(spans)-len(toks))
					return
				}
			}
			if full && left > 0 {
				fail("%d tokens are not delivered", left)
				return
			}
			c.Count("sides_delivered", sides)
			if sides >= 2 {
				c.Distinct(g.NodePart(), text)
			}
			if ahead > sides+3 {
				c.Count("conflict_sides", 1)
			}
			if s := edgeSides(c, p, rec.Root, true); s != "" {
				fail("%s: %s", s, rec.Root)
				return
			}
			if !sampled && sides > 2 {
				sampled = true
				c.Sample("%s\ninput: %q", g.NodePart(), text)
			}
		}
	}
}

// noConflicts tells whether a parser never looks ahead, i.e. every fetched token is used at once.
func noConflicts(c *mon.Ctx, g *gen.Grammar) bool {
	gr, e := langdef.ParseString("grammar", g.Text())
	if e != nil {
		c.Fatal("valid grammar description is rejected: %v", e)
	}
	return len(gr.MultiRules) == 0
}

// untilEnd tells whether the end of input was seen before the root node ended.
func untilEnd(rec *hx.Recorder, hooks *parser.Hooks) *bool {
	seen, until := false, false
	hooks.Tokens = parser.TokenHooks{parser.EoiToken: func(context.Context, *lexer.Token, *parser.TokenContext) (bool, []*lexer.Token, error) {
		seen = true
		return true, nil, nil
	}}
	rec.OnEvent = func(int) { until = seen }
	return &until
}

func isSide(t *lexer.Token) bool { return t.TypeName() == "space" || t.TypeName() == "comment" }

// strip makes a copy without side tokens.
func strip(n *hx.RNode, cnt *int) *hx.RNode {
	r := &hx.RNode{Name: n.Name, First: n.First}
	for _, k := range n.Kids {
		switch x := k.(type) {
		case *lexer.Token:
			if isSide(x) {
				*cnt++
			} else {
				r.Kids = append(r.Kids, x)
			}
		case *hx.RNode:
			r.Kids = append(r.Kids, strip(x, cnt))
		}
	}
	return r
}

// edgeSides checks that no nested node starts or ends with a side token.
func edgeSides(c *mon.Ctx, p *parser.Parser, n *hx.RNode, root bool) string {
	for i, k := range n.Kids {
		switch x := k.(type) {
		case *lexer.Token:
			if isSide(x) {
				if !root && (i == 0 || i == len(n.Kids)-1) {
					return fmt.Sprintf("side token %s is delivered at the edge of finished node %q", hx.TokName(x), n.Name)
				}
				if i > 0 {
					if _, ok := n.Kids[i-1].(*hx.RNode); ok {
						c.Count("after_node_end", 1)
					}
				}
			}
		case *hx.RNode:
			if s := edgeSides(c, p, x, false); s != "" {
				return s
			}
		}
	}
	return ""
}
