package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/ava12/llx"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C28",
		Rule: "random grammars (with and without conflicts), 0-2 grammar layers having token and node hooks, user token and node hooks, 1-3 sources; the run is repeated with an error injected at each event in turn (at most 60 of them; 6 of thousands in large cases) " +
			"and with the context cancelled at each event; events after the fault, the error (compared by identity) and the result are checked; non-trivial: distinct (grammar, input) with at least 10 events",
		Quick: 5000, Thorough: 120000,
		Need: []string{"faults", "fault_token", "fault_hook", "fault_new", "fault_node", "fault_handle", "fault_end", "fault_in_conflict", "cancels", "cancelled", "finished_after_cancel", "cancelled_before", "layer_faults", "cancel_rest", "big_cases", "cancels_with_cause"},
		Run:  runC28,
	})
}

// fakeCtx is a context which is cancelled on demand with any error.
type fakeCtx struct {
	context.Context
	err error
}

func (c *fakeCtx) Err() error { return c.err }
func (c *fakeCtx) Done() <-chan struct{} {
	ch := make(chan struct{})
	if c.err != nil {
		close(ch)
	}
	return ch
}
func (c *fakeCtx) Deadline() (time.Time, bool) { return time.Time{}, false }

type faultEvent struct {
	kind  string // token, hook, new, node, handle, end
	layer int
	text  string
	tok   *lexer.Token
}

// faultRun is a parser run with a fault.
type faultRun struct {
	events   []faultEvent
	failAt   int // 1-based
	failErr  error
	cancelAt int
	ctx      *fakeCtx
	cancel   error
	real     context.Context // used instead of ctx
	stop     context.CancelCauseFunc
	withRes  bool // return something together with the error
}

func (r *faultRun) event(kind string, layer int, node string, t *lexer.Token) error {
	s := fmt.Sprintf("%d %s %s %s", layer, kind, node, hx.TokName(t))
	if t != nil && t.Source() != nil {
		s += " " + t.SourceName()
	}
	r.events = append(r.events, faultEvent{kind, layer, s, t})
	n := len(r.events)
	if n == r.cancelAt {
		if r.stop != nil {
			r.stop(errors.New("my cause"))
		} else {
			r.ctx.err = r.cancel
		}
	}
	if n == r.failAt {
		return r.failErr
	}
	return nil
}

type faultInst struct {
	r     *faultRun
	layer int
	node  string
}

func (i *faultInst) NewNode(node string, t *lexer.Token) error {
	return i.r.event("new", i.layer, i.node+">"+node, t)
}
func (i *faultInst) HandleNode(node string, result any) error {
	return i.r.event("node", i.layer, fmt.Sprint(i.node, "<", node, result), nil)
}
func (i *faultInst) HandleToken(t *lexer.Token) error {
	return i.r.event("handle", i.layer, i.node, t)
}
func (i *faultInst) EndNode() (any, error) {
	e := i.r.event("end", i.layer, i.node, nil)
	if e != nil && !i.r.withRes {
		return nil, e
	}
	return "result of " + i.node, e
}

func runC28(c *mon.Ctx) {
	o := confOpts(c)
	if c.Chance(50) {
		o.Conf = false
	}
	var g *gen.Grammar
	var a gen.Alphabet
	nl := c.IntN(3)
	big := c.Idx%50 == 7
	if big {
		g, a = bigGrammar(c)
		nl = logInt(c, 0, 12)
		c.Count("big_cases", 1)
	} else {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(20)}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	for i := nl; i >= 1; i-- {
		g.Layers += fmt.Sprintf("@l%d;\n", i)
	}
	g.Extra = "$mark = /@/;\n!side $mark;\n"
	text := g.Text()
	c.Put("grammar", text)
	c.Crumb()
	var cur *faultRun
	var types map[string]int
	seed := c.Uint64()
	kinds := make([]int, nl+1) // 0: token and node hooks, 1: token hooks, 2: node hooks
	for i := range kinds {
		kinds[i] = []int{0, 0, 1, 2}[c.IntN(4)]
	}
	partial := c.Chance(25)
	makeHooks := func(i int) parser.Hooks {
		r := cur
		th := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			e := r.event("token", i, "", t)
			if e != nil && !r.withRes {
				return false, nil, e
			}
			var extra []*lexer.Token
			h := hash(seed, i, descr(t))
			if h%7 == 0 && t.Type() >= 0 {
				extra = []*lexer.Token{lexer.NewToken(types["mark"], "mark", []byte("@"), source.Pos{})}
			}
			if h%11 == 0 {
				_, _ = tc.PeekToken()
			}
			return true, extra, e
		}
		nh := func(_ context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			e := r.event("hook", i, node, t)
			if e != nil && !r.withRes {
				return nil, e
			}
			if partial && hash(seed, i, node)%3 == 0 {
				return nil, e
			}
			return &faultInst{r, i, node}, e
		}
		var hs parser.Hooks
		if kinds[i] != 2 {
			hs.Tokens = parser.TokenHooks{parser.AnyToken: th, parser.EofToken: th, parser.EoiToken: th}
		}
		if kinds[i] != 1 {
			hs.Nodes = parser.NodeHooks{parser.AnyNode: nh}
		}
		return hs
	}
	tpls := map[string]parser.HookLayerTemplate{}
	for i := 1; i <= nl; i++ {
		tpls[fmt.Sprintf("l%d", i)] = tplFunc(&layerTpl{func() parser.Hooks { return makeHooks(i) }})
	}
	p, e := hx.Compile(text, parser.WithLayerTemplates(tpls))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	types = map[string]int{}
	for i, t := range p.Tokens() {
		types[t.Name] = i
	}
	for range 2 {
		var seq []gen.Tok
		ok := false
		for range 5 {
			if big {
				seq = bigSeq(c, g, a, 15)
				seq = seq[:min(len(seq), 3000)]
				ok = true
				break
			}
			seq = g.Sentence(c.Rand, a, 2+c.IntN(12))
			if c.Chance(15) {
				seq = mutate(c.Rand, a, seq)
			}
			if c.Chance(15) {
				seq = append(seq, a.RandTok(c.Rand))
			}
			if len(seq) <= 24 && g.NewMatcher(seq).Paths() <= 300 {
				ok = true
				break
			}
		}
		if !ok {
			continue
		}
		input, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(50)})
		cuts := 3
		if big {
			cuts = logInt(c, 3, 100)
		}
		ps := cutText(c, input, spans, cuts)
		var opts []parser.ParseOption
		sides, full := c.Chance(40), c.Chance(50)
		if sides {
			opts = append(opts, parser.WithSides())
		}
		if full {
			opts = append(opts, parser.WithFullSource())
		}
		run := func(r *faultRun) (any, error) {
			cur = r
			if r.ctx == nil {
				r.ctx = &fakeCtx{Context: bg}
			}
			c.Eval()
			if r.real != nil {
				return p.Parse(r.real, queueOf(ps), makeHooks(0), mixOpts(c, opts)...)
			}
			return p.Parse(r.ctx, queueOf(ps), makeHooks(0), mixOpts(c, opts)...)
		}
		fail := func(format string, args ...any) {
			c.Put("input", fmt.Sprintf("%q", ps))
			c.Fatal(format+"; sources %q, %d layers, grammar:\n%s", append(args, ps, nl, strings.TrimSpace(g.NodePart()))...)
		}
		base := &faultRun{}
		res0, e0 := run(base)
		n := len(base.events)
		if n >= 10 {
			c.Distinct(text, input)
		}
		step := 1 + n/60
		if big {
			step = 1 + n/6
			c.Max("events", n)
		}
		prefix := func(r *faultRun, n int, what string) {
			for i, ev := range r.events {
				if i < n && (i >= len(base.events) || ev.text != base.events[i].text) {
					fail("%s: event %d is %q, it was %q without the fault", what, i+1, ev.text, append(base.events, faultEvent{})[min(i, len(base.events))].text)
				}
			}
		}
		// lookahead: a token hook is called before the previous non-side token is handled
		for k := 1 + c.IntN(step); k <= n; k += step {
			ev := base.events[k-1]
			var myErr error
			switch c.IntN(3) {
			case 0:
				myErr = errors.New("mine")
			case 1:
				myErr = &llx.Error{Code: parser.UnexpectedTokenError, Message: "mine"}
			default:
				myErr = fmt.Errorf("wrapped: %w", context.Canceled)
			}
			r := &faultRun{failAt: k, failErr: myErr, withRes: c.Chance(50)}
			res, e := run(r)
			c.Count("faults", 1)
			c.Count("fault_"+ev.kind, 1)
			if ev.layer > 0 {
				c.Count("layer_faults", 1)
			}
			if ev.kind == "token" && k < n && base.events[k].kind == "token" && base.events[k].layer == ev.layer && ev.tok.Type() >= 0 && !p.IsSideType(ev.tok.Type()) {
				c.Count("fault_in_conflict", 1)
			}
			what := fmt.Sprintf("error at event %d %q", k, ev.text)
			if len(r.events) > k {
				fail("%s: a hook is called after it: %q", what, r.events[k].text)
			}
			if len(r.events) < k {
				fail("%s: only %d events happened, error %v", what, len(r.events), e)
			}
			prefix(r, k, what)
			if e != myErr {
				fail("%s: Parse returns error %v (%T) instead of %v", what, e, e, myErr)
			}
			if res != nil {
				fail("%s: Parse returns result %v", what, res)
			}
		}
		for k := 1 + c.IntN(step); k <= n; k += step {
			ev := base.events[k-1]
			r := &faultRun{cancelAt: k, cancel: pick(c.Rand, []error{context.Canceled, context.DeadlineExceeded, errors.New("my cancel")})}
			if c.Chance(25) {
				r.real, r.stop = context.WithCancelCause(bg)
				r.cancel = context.Canceled
				c.Count("cancels_with_cause", 1)
			}
			res, e := run(r)
			if r.stop != nil {
				r.stop(nil)
			}
			c.Count("cancels", 1)
			what := fmt.Sprintf("cancellation at event %d %q", k, ev.text)
			prefix(r, len(r.events), what)
			if len(r.events) < k {
				fail("%s: only %d events happened", what, len(r.events))
			}
			var tok *lexer.Token
			if kd := r.events[k-1].kind; kd != "end" && kd != "node" && kd != "token" {
				tok = r.events[k-1].tok
			}
			for _, x := range r.events[k:] {
				if x.kind == "token" {
					fail("%s: token hook is called after it: %q", what, x.text)
				}
				if x.tok == nil || p.IsSideType(x.tok.Type()) {
					continue
				}
				if tok == nil || p.IsSideType(tok.Type()) {
					tok = x.tok
				}
				if tok != x.tok {
					fail("%s: another token is processed: %q", what, x.text)
				}
			}
			if e == r.cancel {
				c.Count("cancelled", 1)
				if res != nil {
					fail("%s: Parse returns result %v", what, res)
				}
				continue
			}
			// parsing may be finished
			if len(r.events) != n || fmt.Sprint(e) != fmt.Sprint(e0) {
				fail("%s: %d of %d events happened, error %v, error without cancellation %v", what, len(r.events), n, e, e0)
			}
			if e == nil && res != res0 {
				fail("%s: result %v instead of %v", what, res, res0)
			}
			if e == nil && full {
				// the rest must have been read already
				last := base.events[n-1].tok
				if last == nil || last.Type() != lexer.EoiTokenType {
					eoi := false
					for _, x := range base.events[:k] {
						eoi = eoi || x.tok != nil && x.tok.Type() == lexer.EoiTokenType
					}
					if kinds[0] != 2 && !eoi {
						fail("%s: the rest of the source is read after it", what)
					}
				}
			}
			c.Count("finished_after_cancel", 1)
		}
		// the rest of the source without token hooks
		r := &faultRun{ctx: &fakeCtx{Context: bg, err: context.Canceled}}
		res, e := run(r)
		c.Count("cancelled_before", 1)
		if e != context.Canceled || res != nil {
			fail("parsing with a cancelled context returns %v, %v", res, e)
		}
		for _, x := range r.events {
			if x.kind == "token" || x.kind == "handle" {
				fail("a token is processed with a cancelled context: %q", x.text)
			}
		}
		if e0 == nil && full && !g.UsesEoi() {
			ctx := &fakeCtx{Context: bg}
			cur = &faultRun{}
			res, e := p.Parse(ctx, queueOf(append(ps, piece{name: "rest", text: " \n "})), parser.Hooks{Nodes: parser.NodeHooks{g.Nodes[0].Name: func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
				return &endInst{func() { ctx.err = context.Canceled }}, nil
			}}}, opts...)
			c.Count("cancel_rest", 1)
			if e != context.Canceled && e != nil || e != nil && res != nil {
				fail("cancellation at the end of the root node gives %v, %v", res, e)
			}
			if e == nil && tokenEnds(g) {
				fail("the rest of the source is read after cancellation")
			}
		}
		if c.Idx < 10 {
			c.Sample("%s\n%q: %d events", g.NodePart(), ps, n)
		}
	}
}

// tokenEnds tells that the root node is finished by its last token, not by what follows.
func tokenEnds(g *gen.Grammar) bool {
	its := g.Nodes[0].Body.Subs
	return len(its) > 0 && (its[len(its)-1].K == gen.KTok || its[len(its)-1].K == gen.KLit)
}

type endInst struct{ f func() }

func (i *endInst) NewNode(string, *lexer.Token) error { return nil }
func (i *endInst) HandleNode(string, any) error       { return nil }
func (i *endInst) HandleToken(*lexer.Token) error     { return nil }
func (i *endInst) EndNode() (any, error)              { i.f(); return "x", nil }
