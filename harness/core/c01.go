package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

func init() {
	register(&mon.Check{
		ID: "C01",
		Rule: "random EBNF grammars (1-4 nodes, nesting up to 4, common prefixes, recursion, $ items; the class of known finding KF1 excluded); " +
			"for each one all token sequences that are viable prefixes plus one token up to a length bound, random sentences and mutations are parsed, " +
			"the reported tree is checked against an independent recogniser of the EBNF; non-trivial: distinct (grammar, sequence of at least 2 tokens accepted or within the language)",
		Quick: 16000, Thorough: 400000,
		Need: []string{"big_parses", "wide_grammars", "accepted", "rejected", "must_accept", "unique_trees", "eoi_grammars", "eoi_accepted", "eoi_rejected", "eoi_matched", "eoi_must_accept", "long_chains"},
		Run:  runC01,
		Assumptions: []string{"completeness is claimed for sentences with a unique derivation in which no node or nested group end can be continued by the next token",
			"non-root nodes are never empty when referenced"},
	})
}

// genGrammar makes a random valid grammar.
func genGrammar(c *mon.Ctx, ao gen.AlphaOpts, o gen.Opts, ok func(*gen.Grammar) bool) (*gen.Grammar, gen.Alphabet) {
	for range 20 {
		a := gen.Std(c.Rand, ao)
		o.Terms = a.Terms
		g := a.New()
		if c.Chance(6) {
			manyTypes(c, g)
		}
		if g.RandomNodes(c.Rand, o, ok) {
			return g, a
		}
	}
	c.Count("generator_gave_up", 1)
	c.Abort()
	return nil, gen.Alphabet{}
}

// manyTypes makes all used token types have large numbers.
func manyTypes(c *mon.Ctx, g *gen.Grammar) {
	var toks []gen.TokDef
	for i := range pick(c.Rand, []int{24, 31, 40, 48}) {
		toks = append(toks, gen.TokDef{Name: fmt.Sprintf("unused%d", i), Re: fmt.Sprintf("~%d~", i)})
	}
	g.Toks = append(toks, g.Toks...)
	c.Count("many_types", 1)
}

func randOpts(c *mon.Ctx) gen.Opts {
	return gen.Opts{MaxNodes: 1 + c.IntN(4), Depth: 1 + c.IntN(4), Width: 1 + c.IntN(4), Eoi: true, Conf: c.Chance(40)}
}

func compileOrFail(c *mon.Ctx, text string) *parser.Parser {
	c.Put("grammar", text)
	c.Crumb()
	p, e := hx.Compile(text)
	if e != nil {
		c.Fatal("valid grammar description is rejected: %v", e)
	}
	return p
}

func runC01(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	if c.Idx == 0 {
		c01Known(c)
	}
	if c.Idx%12 == 5 {
		runC01Eoi(c)
		return
	}
	var g *gen.Grammar
	var a gen.Alphabet
	notKF := func(g *gen.Grammar) bool { return !g.SharedEntry() }
	overlap := c.Chance(15)
	ao := gen.AlphaOpts{Min: 2, Max: 4, Overlap: overlap, Groups: c.Chance(15)}
	if c.Chance(2) {
		g, a = chainGrammar(c, ao)
	} else if c.Chance(25) {
		g, a = genGrammar(c, ao, gen.Opts{MaxNodes: 1 + c.IntN(3), Depth: 1 + c.IntN(3), Width: 1 + c.IntN(3), Eoi: true}, func(g *gen.Grammar) bool { return g.LL1() })
		if g.Unfactor(c.Rand) > 0 {
			c.Count("unfactored_grammars", 1)
		}
		if g.SharedEntry() {
			c.Abort()
		}
	} else {
		g, a = genGrammar(c, ao, randOpts(c), notKF)
	}
	p := compileOrFail(c, g.Text())
	c.Count("grammars", 1)
	overlap = g.OverlapTerms(gen.StdType)

	alpha := a.AllTexts(c.Rand)
	budget := 500
	maxLen := 7
	sampled := false
	check := func(seq []gen.Tok) {
		m := g.NewMatcher(seq)
		if len(seq) > 2 && m.Paths() > 2000 {
			c.Count("skipped_exponential", 1)
			return
		}
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(80)})
		l := newLayout(text, spans)
		c01One(c, g, p, m, l, seq, overlap)
		if !sampled && len(seq) > 3 && m.RootCount(len(seq)) > 0 {
			sampled = true
			c.Sample("%s\ninput: %s", g.NodePart(), gen.Texts(seq))
		}
	}
	gen.EnumSeqs(alpha, maxLen, func(seq []gen.Tok) bool {
		if budget <= 0 || c.Failed() {
			return false
		}
		budget--
		check(seq)
		return g.NewMatcher(seq).RootViable(len(seq))
	})
	for range 12 {
		if c.Failed() {
			return
		}
		s := g.Sentence(c.Rand, a, 2+c.IntN(18))
		if len(s) > 40 {
			continue
		}
		check(s)
		check(mutate(c.Rand, a, s))
	}
}

// chainGrammar makes a valid grammar with a long chain of nodes.
func chainGrammar(c *mon.Ctx, ao gen.AlphaOpts) (*gen.Grammar, gen.Alphabet) {
	for range 30 {
		a := gen.Std(c.Rand, ao)
		g := a.New()
		g.ChainNodes(c.Rand, a.Terms, 5+c.IntN(60), c.Chance(40))
		if g.Valid() && !g.SharedEntry() {
			c.Count("long_chains", 1)
			return g, a
		}
	}
	c.Abort()
	return nil, gen.Alphabet{}
}

func c01One(c *mon.Ctx, g *gen.Grammar, p *parser.Parser, m *gen.Matcher, l *layout, seq []gen.Tok, overlap bool) {
	rec := &hx.Recorder{}
	full := c.IntN(4) != 0
	opts := []parser.ParseOption{}
	if full {
		opts = append(opts, parser.WithFullSource())
	}
	c.Eval()
	n := len(seq)
	_, e := p.ParseString(bg, "input", l.text, rec.Hooks(), opts...)
	cnt := m.RootCount(n)
	if cnt > 0 && n >= 2 || e == nil && n >= 2 {
		c.Distinct(g.NodePart(), gen.Texts(seq))
	}
	fail := func(format string, args ...any) {
		c.Put("input", l.text)
		c.Put("full_source", fmt.Sprint(full))
		if rec.Root != nil {
			c.Put("tree", rec.Root.String())
		}
		c.Fail(format+"; input %q, grammar:\n%s", append(args, l.text, strings.TrimSpace(g.NodePart()))...)
	}

	if e != nil {
		c.Count("rejected", 1)
		if hx.LLX(e) == nil {
			fail("unexpected error %v", e)
			return
		}
		if cnt != 1 || overlap {
			return
		}
		d := m.RootDeriv(n)
		if m.Guaranteed(d) {
			fail("a sentence of the language is rejected with %q, its derivation: %s", e, m.Tree(d).String(seq))
		}
		return
	}

	c.Count("accepted", 1)
	if rec.Root == nil {
		fail("no tree reported")
		return
	}
	t, s := toTree(rec.Root, l.pos, n)
	if s != "" {
		fail("%s", s)
		return
	}
	if full && cnt == 0 {
		fail("a sequence which is not in the language is accepted: %s", rec.Root)
		return
	}
	idx := flat(t, nil)
	for i, x := range idx {
		if i != x {
			fail("reported tokens are not the consumed ones in order: %s", rec.Root)
			return
		}
	}
	if full && len(idx) < n {
		fail("only %d of %d tokens are consumed: %s", len(idx), n, rec.Root)
		return
	}
	if s := m.ValidTree(t); s != "" {
		fail("reported tree is not a derivation: %s", s)
		return
	}
	if !full || cnt != 1 || overlap {
		return
	}
	d := m.RootDeriv(n)
	if m.Guaranteed(d) {
		c.Count("must_accept", 1)
	}
	c.Count("unique_trees", 1)
	toks := append(append([]gen.Tok{}, seq...), gen.EoiTok)
	if w, r := m.Tree(d).String(toks), t.String(toks); w != r {
		fail("wrong tree %s instead of the only derivation %s", r, w)
	}
}

// runC01Eoi checks grammars with $ in any place: end of input may be matched by several items, but only after
// the last token, and whatever follows it must be able to match nothing or end of input again.
func runC01Eoi(c *mon.Ctx) {
	o := gen.Opts{MaxNodes: 1 + c.IntN(4), Depth: 1 + c.IntN(4), Width: 1 + c.IntN(3), Conf: c.Chance(20), EoiAny: pick(c.Rand, []int{10, 20, 30, 40, 60})}
	g, a := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 4}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() && g.UsesEoi() })
	c.Put("grammar", g.Text())
	c.Crumb()
	p, e := hx.Compile(g.Text())
	if e != nil {
		if le := hx.LLX(e); le == nil || le.Code != langdef.UnresolvedError || !g.RepeatsEoi() {
			c.Fatal("valid grammar description is rejected: %v", e)
		}
		return
	}
	c.Count("eoi_grammars", 1)
	check := func(seq []gen.Tok) {
		n := len(seq)
		m := g.NewMatcher(seq)
		if n > 2 && m.Paths() > 2000 {
			c.Count("skipped_exponential", 1)
			return
		}
		c.Eval()
		text, _ := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(80)})
		rec := &hx.Recorder{}
		hooks := rec.Hooks()
		// more than any number of $ matched one after another
		limit := 200 * (n + 2)
		nodes := 0
		hooks.Nodes = parser.NodeHooks{parser.AnyNode: func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			if nodes++; nodes > limit {
				return nil, fmt.Errorf("more than %d nodes", limit)
			}
			return rec.Hook(ctx, node, t, nc)
		}}
		// a variant matching end of input twice is preferred
		must := m.RootCount(n) == 1 && !g.RepeatsEoi() && !g.NewMatcher(append(seq[:n:n], gen.EoiTok)).RootViable(n+2) && m.Guaranteed(m.RootDeriv(n))
		if must {
			c.Count("eoi_must_accept", 1)
		}
		_, e := p.ParseString(bg, "input", text, hooks, parser.WithFullSource())
		fail := func(format string, args ...any) {
			c.Put("input", text)
			c.Fatal(format+"; input %q, grammar:\n%s", append(args, text, strings.TrimSpace(g.NodePart()))...)
		}
		if len(rec.Errors) > 0 {
			fail("%s", rec.Errors[0])
		}
		if e != nil {
			c.Count("eoi_rejected", 1)
			if hx.LLX(e) == nil {
				fail("unexpected error %v", e)
			}
			if must {
				fail("a sentence of the language is rejected with %q, its derivation: %s", e, m.Tree(m.RootDeriv(n)).String(append(append([]gen.Tok{}, seq...), gen.EoiTok)))
			}
			return
		}
		c.Count("eoi_accepted", 1)
		if n > 1 {
			c.Distinct(g.NodePart(), gen.Texts(seq))
		}
		ended := 0
		for _, t := range rec.Tokens {
			switch {
			case t.Type() == lexer.EoiTokenType:
				ended++
			case ended > 0:
				fail("token %q is delivered after the end of input: %s", t.Text(), rec.Root)
			}
		}
		c.Max("max_ends", ended)
		if ended > 0 {
			c.Count("eoi_matched", 1)
		}
		ends := seq
		for range max(ended-1, 0) {
			ends = append(ends[:len(ends):len(ends)], gen.EoiTok)
		}
		if ended < 8 && g.NewMatcher(ends).RootCount(len(ends)) == 0 {
			fail("a sequence which is not in the language is accepted: %s", rec.Root)
		}
	}
	budget := 150
	gen.EnumSeqs(a.AllTexts(c.Rand), 5, func(seq []gen.Tok) bool {
		if budget--; budget < 0 {
			return false
		}
		check(seq)
		return g.NewMatcher(seq).RootViable(len(seq))
	})
	for range 10 {
		s := g.Sentence(c.Rand, a, 2+c.IntN(12))
		if len(s) > 30 {
			continue
		}
		check(s)
		check(mutate(c.Rand, a, s))
	}
}

func c01Known(c *mon.Ctx) {
	for _, k := range knownFindings("C01") {
		for _, in := range k.Inputs {
			p, e := hx.Compile(in.Grammar)
			if e != nil {
				continue
			}
			_, e = p.ParseString(bg, "input", in.Input, parser.Hooks{}, parser.WithFullSource())
			if e == nil {
				c.Known(fmt.Sprintf("%s: %s (%q accepted)", k.Id, k.What, in.Input))
				break
			}
		}
	}
}
