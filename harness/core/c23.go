package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C23",
		Rule: "random grammars with nested nodes and 1-3 random restrict layers (large cases: up to 40 layers, hundreds or thousands of nested nodes; long texts repeating the same nesting in allowing and forbidding contexts); node creation events of a run without the layers give the place where the first restricted node is ruled out by its nearest listed ancestor, " +
			"the run with the layers must report exactly the same events up to that place and fail there, or be identical; random invalid configurations must be reported; non-trivial: distinct (grammar, layers, input) with a restricted node having a listed ancestor",
		Quick: 16000, Thorough: 400000,
		Need: []string{"forbidden", "allowed_by_nearest", "overridden", "unlisted", "syntax_errors", "multi_layer", "invalid_configs", "big_cases", "deep_cases", "mixed_cases"},
		Run:  runC23,
	})
	register(&mon.Check{
		ID: "C34",
		Rule: "random layer declarations over registered, explicitly supplied, missing and failing templates, random sets of valid and invalid user and layer hooks, several parsers and parses (up to 60 layers, 50 commands, 100 arguments in large cases); " +
			"calls of Setup and Init with all their arguments and hook instances are logged and compared with the declarations; non-trivial: distinct grammars with at least 2 layer declarations",
		Quick: 16000, Thorough: 400000,
		Need: []string{"setups", "inits", "overridden", "unknown_layer", "setup_error", "reregistered", "bad_user_hook", "bad_layer_hook", "token_calls", "indent_configs", "big_cases", "without_templates", "nested_templates"},
		Run:  runC34,
	})
}

// --- C23

type restrictLayer struct {
	nodes map[string]bool
	rules map[string]bool // allowed
}

type created struct {
	name  string
	tok   *lexer.Token
	up    []string // ancestors, nearest first
	event int
}

func runC23(c *mon.Ctx) {
	if c.Idx%60 == 37 {
		c23Deep(c)
		return
	}
	if c.Idx%20 == 11 {
		c23Mixed(c)
		return
	}
	o := gen.Opts{MaxNodes: 3 + c.IntN(4), Depth: 1 + c.IntN(3), Width: 1 + c.IntN(4), Eoi: true, Conf: c.Chance(30)}
	var g *gen.Grammar
	var a gen.Alphabet
	big := c.Idx%60 == 7
	pn, pf, pa, maxLayers := 35, 25, 40, 3
	if big {
		g, a = bigGrammar(c)
		c.Count("big_cases", 1)
		pn, pf, pa, maxLayers = pick(c.Rand, []int{1, 10, 50}), pick(c.Rand, []int{0, 3, 10}), pick(c.Rand, []int{0, 5, 50}), logInt(c, 1, 40)
		if maxLayers > 5 {
			pf = 0
		}
	} else {
		g, a = genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(15)}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
	}
	plain := compileOrFail(c, g.Text())
	var names []string
	for _, n := range g.Nodes {
		names = append(names, n.Name)
	}
	if c.Chance(10) {
		c23Invalid(c, g, names)
		return
	}
	layers, ltext := c23Layers(c, names, pn, pf, pa, maxLayers)
	g.Layers += ltext
	if len(layers) > 1 {
		c.Count("multi_layer", 1)
	}
	text := g.Text()
	p := compileOrFail(c, text)
	c.Max("layers", len(layers))
	for range 8 {
		var seq []gen.Tok
		if big {
			seq = bigSeq(c, g, a, 10)
			seq = seq[:min(len(seq), 3000)]
		} else {
			seq = g.Sentence(c.Rand, a, 2+c.IntN(20))
			if c.Chance(20) {
				seq = mutate(c.Rand, a, seq)
			}
			if len(seq) > 40 || g.NewMatcher(seq).Paths() > 2000 {
				continue
			}
		}
		input, _ := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(50)})
		c23One(c, text, g.Layers, plain, p, layers, input)
	}
}

// c23Layers makes random layers over the nodes, pn, pf and pa are chances of a node to be listed.
func c23Layers(c *mon.Ctx, names []string, pn, pf, pa, maxLayers int) (layers []*restrictLayer, text string) {
	for range 1 + c.IntN(maxLayers)*c.IntN(2) {
		l := &restrictLayer{map[string]bool{}, map[string]bool{}}
		var cmds []string
		add := func(cmd string, args []string) {
			for len(args) > 0 {
				n := 1 + c.IntN(len(args))
				cmds = append(cmds, cmd+"("+strings.Join(args[:n], ", ")+")")
				args = args[n:]
			}
		}
		var rs, as, fs []string
		perm := append([]string{}, names...)
		c.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		for i, n := range perm {
			if i == 0 || c.Chance(pn) {
				l.nodes[n] = true
				rs = append(rs, n)
			}
		}
		c.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		for i, n := range perm {
			if i == 0 || c.Chance(pf) {
				l.rules[n] = false
				fs = append(fs, n)
			} else if c.Chance(pa) {
				l.rules[n] = true
				as = append(as, n)
			}
		}
		add("node", rs)
		add("allow-in", as)
		add("forbid-in", fs)
		c.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
		layers = append(layers, l)
		text += "@restrict " + strings.Join(cmds, " ") + ";\n"
	}
	return
}

// c23Deep has much deeper nesting than random grammars usually give, with long runs of unlisted nodes between
// the listed ones.
func c23Deep(c *mon.Ctx) {
	kinds := []struct{ name, open, close string }{{"par", "(", ")"}, {"sq", "[", "]"}, {"br", "{", "}"}, {"an", "<", ">"}}
	base := "!side $sp; $sp = /\\s+/; $name = /[a-z]+/; $op = /[()\\[\\]{}<>]/;\n"
	nodes := "root = {e}, $;\ne = word | par | sq | br | an;\nword = $name;\n"
	for _, k := range kinds {
		nodes += k.name + " = '" + k.open + "', {e}, '" + k.close + "';\n"
	}
	plain := compileOrFail(c, base+nodes)
	c.Count("deep_cases", 1)
	for range 3 {
		names := []string{"word", "par", "sq", "br", "an"}
		if c.Chance(20) {
			names = append(names, "e", "root")
		}
		layers, ltext := c23Layers(c, names, 10, pick(c.Rand, []int{0, 20}), pick(c.Rand, []int{0, 20}), 3)
		text := base + ltext + nodes
		p := compileOrFail(c, text)
		for range 3 {
			// innermost parts of a long chain are made last
			var open, end []string
			for len(open) < logInt(c, 10, 2000) {
				k := pick(c.Rand, kinds)
				for range logInt(c, 1, 400) {
					open, end = append(open, k.open), append(end, k.close)
					if c.Chance(10) {
						open = append(open, "[", "]")
					}
				}
			}
			in := strings.Join(open, "")
			for range c.IntN(3) {
				k := pick(c.Rand, kinds)
				in += k.open + " x " + k.close
			}
			if c.Chance(70) {
				in += " word "
			}
			for i := len(end) - 1; i >= 0; i-- {
				in += end[i]
				if c.Chance(5) {
					in += " x "
				}
			}
			c23One(c, text, ltext, plain, p, layers, in)
		}
	}
}

// c23Mixed has long texts where the same restricted nodes appear again and again with the same closest ancestors
// in different contexts, mostly in allowed ones, so that most of the text is parsed.
func c23Mixed(c *mon.Ctx) {
	kinds := []struct{ name, open, close string }{{"par", "(", ")"}, {"sq", "[", "]"}, {"br", "{", "}"}, {"an", "<", ">"}}
	base := "!side $sp; $sp = /\\s+/; $name = /[a-z]+/; $op = /[()\\[\\]{}<>]/;\n"
	viaE := c.Chance(50)
	item := "word | par | sq | br | an"
	nodes := "root = {" + item + "}, $;\n"
	if viaE {
		nodes = "root = {e}, $;\ne = " + item + ";\n"
		item = "e"
	}
	nodes += "word = $name;\n"
	for _, k := range kinds {
		nodes += k.name + " = '" + k.open + "', {" + item + "}, '" + k.close + "';\n"
	}
	plain := compileOrFail(c, base+nodes)
	c.Count("mixed_cases", 1)
	for range 3 {
		layers, ltext := c23Layers(c, []string{"word", "par", "sq", "br", "an"}, pick(c.Rand, []int{0, 10}), pick(c.Rand, []int{0, 20}), pick(c.Rand, []int{20, 40}), 2)
		text := base + ltext + nodes
		p := compileOrFail(c, text)
		allowed := func(up []string, name string) bool {
			for _, l := range layers {
				if !l.nodes[name] {
					continue
				}
				for i := len(up) - 1; i >= 0; i-- {
					if allow, has := l.rules[up[i]]; has {
						if !allow {
							return false
						}
						break
					}
				}
			}
			return true
		}
		for range 3 {
			var b strings.Builder
			left, forbidden := logInt(c, 5, 400), false
			var items func(up []string)
			items = func(up []string) {
				for n := c.IntN(5); n >= 0 && left > 0 && !forbidden; n-- {
					left--
					k := pick(c.Rand, kinds)
					isWord := len(up) > 8 || c.Chance(30)
					if isWord {
						k.name = "word"
					}
					if !allowed(up, k.name) {
						if !c.Chance(10) {
							continue
						}
						forbidden = true
					}
					if isWord {
						b.WriteString(" x")
						continue
					}
					b.WriteString(k.open)
					items(append(up[:len(up):len(up)], k.name))
					b.WriteString(k.close)
				}
			}
			for left > 0 && !forbidden {
				items(nil)
			}
			c23One(c, text, ltext, plain, p, layers, b.String())
		}
	}
}

// c23One compares a parse by p having layers with that by plain having none.
func c23One(c *mon.Ctx, text, layerText string, plain, p *parser.Parser, layers []*restrictLayer, input string) {
	var opts []parser.ParseOption
	if c.Chance(40) {
		opts = append(opts, parser.WithSides())
	}
	if c.Chance(50) {
		opts = append(opts, parser.WithFullSource())
	}
	run := func(p *parser.Parser) (*hx.Recorder, []created, any, error) {
		rec := &hx.Recorder{KeepLog: true}
		var log []created
		c.Eval()
		hooks := parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			h, e := rec.Hook(ctx, node, t, nc)
			cr := created{name: node, tok: t, event: len(rec.Events)}
			for n := hx.NodeOf(h).Parent; n != nil; n = n.Parent {
				cr.up = append(cr.up, n.Name)
			}
			log = append(log, cr)
			return h, e
		}}}
		res, e := p.ParseString(bg, "input", input, hooks, mixOpts(c, opts)...)
		return rec, log, res, e
	}
	r0, log, _, e0 := run(plain)
	bad := -1
	listed := false
	for i, cr := range log {
		for _, l := range layers {
			if !l.nodes[cr.name] {
				continue
			}
			which := "unlisted"
			seen := false
			for _, up := range cr.up {
				allow, has := l.rules[up]
				if has && !seen {
					seen = true
					which = "allowed_by_nearest"
					if !allow {
						which = "forbidden"
						if bad < 0 {
							bad = i
						}
					}
				} else if has && which == "allowed_by_nearest" && !allow {
					which = "overridden"
				}
			}
			listed = listed || seen
			c.Max("ancestors", len(cr.up))
			c.Count(which, 1)
		}
		if bad >= 0 {
			break
		}
	}
	r1, _, res, e := run(p)
	fail := func(format string, args ...any) {
		c.Put("input", input)
		c.Fatal(format+"; input %q, layers:\n%s", append(args, input, layerText)...)
	}
	if listed {
		c.Distinct(text, input)
	}
	want := r0.Events
	if bad >= 0 {
		want = want[:log[bad].event]
	}
	got := r1.Events
	for i, s := range got {
		if i >= len(want) {
			fail("event %q after the node %s must have been rejected, error %v", s, log[bad].name, e)
		}
		// tokens are created anew, but their description is the same
		if s != want[i] {
			fail("event %d is %q instead of %q", i, s, want[i])
		}
	}
	if len(got) != len(want) {
		fail("%d events instead of %d, error %v", len(got), len(want), e)
	}
	if bad >= 0 {
		le := hx.LLX(e)
		t := log[bad].tok
		l, cl := refLineCol(input, t.Pos().Pos())
		if le == nil || le.Code != common.WrongTokenError || le.SourceName != "input" || le.Line != l || le.Col != cl {
			fail("error %v instead of rejecting node %s at %d:%d", e, log[bad].name, l, cl)
		}
		// any of layers may be the first
		named := false
		for _, lay := range layers {
			if !lay.nodes[log[bad].name] {
				continue
			}
			for _, up := range log[bad].up {
				if allow, has := lay.rules[up]; has {
					named = named || !allow && mentionsWord(le.Message, log[bad].name) && mentionsWord(le.Message, up)
					break
				}
			}
		}
		if !named {
			fail("error %v does not name the node %s and the forbidding ancestor (nodes are %q)", e, log[bad].name, log[bad].up)
		}
		if res != nil {
			fail("both a result and error %v", e)
		}
		return
	}
	if e0 != nil {
		c.Count("syntax_errors", 1)
	}
	if fmt.Sprint(e0) != fmt.Sprint(e) {
		fail("error %v instead of %v", e, e0)
	}
	if e == nil && r0.Root.String() != r1.Root.String() {
		fail("tree %s instead of %s", r1.Root, r0.Root)
	}
	if c.Idx < 10 {
		c.Sample("%s\n%q", text, input)
	}
}

func c23Invalid(c *mon.Ctx, g *gen.Grammar, names []string) {
	n := pick(c.Rand, names)
	cmds := []string{"node(" + n + ")", "forbid-in(" + n + ")"}
	code := 0
	word := n
	switch c.IntN(7) {
	case 0:
		word = "node"
		cmds = []string{"forbid-in(" + n + ")", "allow-in(other)"}[:1+c.IntN(2)]
		code = common.MissingCommandError
	case 1:
		word = "forbid-in"
		cmds = []string{"node(" + n + ")", "allow-in(" + n + ")"}[:1+c.IntN(2)]
		code = common.MissingCommandError
	case 2:
		word = pick(c.Rand, []string{"node", "forbid-in", "allow-in"})
		cmds = append(cmds, word+"()")
		code = common.NumberOfArgumentsError
	case 3:
		cmds = append(cmds, "node("+n+")")
		code = common.InvalidArgumentError
	case 4:
		cmds = append(cmds, pick(c.Rand, []string{"allow-in(", "forbid-in(", "allow-in(qq, "})+n+")")
		code = common.InvalidArgumentError
	case 5:
		word = pick(c.Rand, []string{"nodes", "allow", "Node"})
		cmds = append(cmds, word+"("+n+")")
		code = common.UnknownCommandError
	default:
		word = "qqq"
		cmds = append(cmds, "node(qqq)")
		code = parser.UnknownNodeError
	}
	c.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	g.Layers = "@restrict " + strings.Join(cmds, " ") + ";\n"
	text := g.Text()
	c.Put("grammar", text)
	c.Count("invalid_configs", 1)
	c.Distinct(text)
	c.Eval()
	p, e := hx.Compile(text)
	if e == nil && code == parser.UnknownNodeError {
		_, e = p.ParseString(bg, "", "", parser.Hooks{})
	}
	le := hx.LLX(e)
	if le == nil || le.Code != code || !mentions(le, word) {
		c.Fatal("error %v instead of an error with code %d mentioning %q; %s", e, code, word, g.Layers)
	}
}

// --- C34

type ctxKey struct{}

type setupRec struct {
	id   string // template which is set up
	cmds []grammar.LayerCommand
	p    *parser.Parser
}

type logTpl struct {
	id  string
	log *[]setupRec
	err error
	mk  func(id string, n int) parser.HookLayer
}

func (t *logTpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	*t.log = append(*t.log, setupRec{t.id, cmds, p})
	if t.err != nil {
		return nil, t.err
	}
	return t.mk(t.id, len(*t.log)-1), nil
}

type logLayer struct {
	f func(ctx context.Context, pc *parser.ParseContext) parser.Hooks
}

func (l *logLayer) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
	return l.f(ctx, pc)
}

const c34Grammar = `$sp = /\s+/; $name = /[a-z]+/; $num = /[0-9]+/; $op = /[-+*]/; $bad = /%/;
!side $sp; !error $bad; !extern $ext $in $de; !literal $op;
`

const c34Nodes = "root = {item | '+' | $ext}; item = $name | pair; pair = $num, ['-'];\n"

type funcTpl func(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error)

func (t funcTpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	return t(cmds, p)
}

// c34Nested has templates and layers which use the registry and other parsers themselves,
// a deadlock is noticed by the supervisor.
func c34Nested(c *mon.Ctx) {
	uniq := fmt.Sprintf("w%d-%x-", c.Idx, c.Uint64())
	set := map[string]int{}
	noHooks := &logLayer{func(context.Context, *parser.ParseContext) parser.Hooks { return parser.Hooks{} }}
	simple := func(name string) funcTpl {
		return func(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
			set[name]++
			return noHooks, nil
		}
	}
	inner := func(name string) {
		p, e := hx.Compile(c34Grammar + "@" + uniq + name + "; @" + uniq + name + ";" + c34Nodes)
		if e == nil {
			_, e = p.ParseString(bg, "", "a b", parser.Hooks{})
		}
		if e != nil {
			c.Fail("a grammar using layer %q compiled by a layer: %v", name, e)
		}
	}
	register := func(name string) {
		if e := parser.RegisterHookLayer(uniq+name, simple(name)); e != nil {
			c.Fail("layer %q cannot be registered by a layer: %v", name, e)
		}
	}
	has := func(name string) {
		if le := hx.LLX(parser.RegisterHookLayer(uniq+name, simple("again"))); le == nil || le.Code != parser.LayerRegisteredError {
			c.Fail("layer %q registered again by a layer: %v", name, le)
		}
	}
	parser.RegisterHookLayer(uniq+"old", simple("old"))
	inits := 0
	parser.RegisterHookLayer(uniq+"outer", funcTpl(func(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
		set["outer"]++
		me := set["outer"]
		for _, cmd := range cmds {
			for _, arg := range cmd.Arguments {
				name := fmt.Sprintf("%s-%s%d", cmd.Command, arg, me)
				switch cmd.Command {
				case "new":
					register(name)
				case "use":
					register(name)
					inner(name)
					if set[name] != 2 {
						c.Fail("layer %q is set up %d times", name, set[name])
					}
				case "has":
					has("outer")
				default:
					inner("old")
				}
			}
		}
		return &logLayer{func(context.Context, *parser.ParseContext) parser.Hooks {
			inits++
			register(fmt.Sprintf("init%d-%d", me, inits))
			inner("old")
			return parser.Hooks{}
		}}, nil
	}))
	text := c34Grammar
	n := 1 + c.IntN(3)
	for range n {
		text += "@" + uniq + "outer"
		for _, cmd := range subset(c, []string{"new", "use", "has", "old"}) {
			text += " " + cmd + "(" + strings.Join(append(subset(c, []string{"a", "b"}), "c"+cmd), ",") + ")"
		}
		text += ";"
	}
	text += c34Nodes
	c.Put("grammar", text)
	c.Crumb()
	c.Count("nested_templates", 1)
	c.Eval()
	p, e := hx.Compile(text)
	if e != nil {
		c.Fatal("templates using the registry: %v", e)
	}
	if set["outer"] != n {
		c.Fail("%d layers of %d are set up", set["outer"], n)
	}
	for i := range 1 + c.IntN(2) {
		if _, e := p.ParseString(bg, "", "a", parser.Hooks{}); e != nil {
			c.Fatal("layers using the registry: %v", e)
		}
		if inits != n*(i+1) {
			c.Fail("%d layers are initialised after %d parses", inits, i+1)
		}
	}
}

func runC34(c *mon.Ctx) {
	if c.Chance(10) {
		c34Indent(c)
		return
	}
	if c.Chance(5) {
		c34Nested(c)
		return
	}
	uniq := fmt.Sprintf("v%d-%x-", c.Idx, c.Uint64())
	var setups []setupRec
	type initRec struct {
		layer, parse int
		pc           *parser.ParseContext
		ctx          context.Context
	}
	var inits []initRec
	parse := 0
	tokenCalls := map[[2]int]int{} // layer, parse
	wrongCalls := ""
	badLayer := -1
	layerNodes := false
	var badHooks parser.Hooks
	myErr := errors.New("setup failed")
	mk := func(id string, n int) parser.HookLayer {
		return &logLayer{func(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
			inits = append(inits, initRec{n, parse, pc, ctx})
			me := parse
			if n == badLayer {
				return badHooks
			}
			var nodes parser.NodeHooks
			if layerNodes {
				nodes = parser.NodeHooks{"item": func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
					return nil, nil
				}}
			}
			return parser.Hooks{Nodes: nodes, Tokens: parser.TokenHooks{parser.AnyToken: func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
				tokenCalls[[2]int{n, parse}]++
				if me != parse || tc.ParseContext() != pc {
					wrongCalls = fmt.Sprintf("hooks of layer %d made for parse %d are used in parse %d", n, me, parse)
				}
				return true, nil, nil
			}}}
		}}
	}
	newTpl := func(id string, err error) *logTpl { return &logTpl{id, &setups, err, mk} }
	// registry
	types := []string{"one", "two", "three", "four"}
	registered := map[string]string{} // type -> template id
	global := map[string]string{}     // the same without explicitly supplied ones
	explicit := map[string]parser.HookLayerTemplate{}
	for _, t := range types {
		if c.Chance(60) {
			if e := parser.RegisterHookLayer(uniq+t, newTpl("r-"+t, nil)); e != nil {
				c.Fatal("cannot register a new layer: %v", e)
			}
			registered[t] = "r-" + t
			global[t] = "r-" + t
			if c.Chance(30) {
				c.Count("reregistered", 1)
				le := hx.LLX(parser.RegisterHookLayer(uniq+t, newTpl("again-"+t, nil)))
				if le == nil || le.Code != parser.LayerRegisteredError {
					c.Fatal("registering a layer again gives %v", le)
				}
			}
		}
		if c.Chance(40) || registered[t] == "" && c.Chance(80) {
			if registered[t] != "" {
				c.Count("overridden", 1)
			}
			registered[t] = "x-" + t
			explicit[uniq+t] = newTpl("x-"+t, nil)
		}
	}
	if c.Idx%50 == 0 {
		for _, t := range []string{"indent", "convert", "restrict"} {
			if le := hx.LLX(parser.RegisterHookLayer(t, newTpl(t, nil))); le == nil || le.Code != parser.LayerRegisteredError {
				c.Fatal("registering layer %q again gives %v", t, le)
			}
		}
	}
	failing := ""
	if c.Chance(15) {
		failing = pick(c.Rand, types)
		registered[failing] = "fail"
		explicit[uniq+failing] = newTpl("fail", myErr)
	}
	// declarations
	var decl []grammar.Layer
	text := c34Grammar
	words := []string{"a", "b-c", "name", "x_1"}
	var pieces []string
	maxLayers, maxCmds, maxArgs := 5, 4, 4
	if c.Idx%60 == 7 {
		maxLayers, maxCmds, maxArgs = logInt(c, 5, 60), logInt(c, 4, 50), logInt(c, 4, 100)
		c.Count("big_cases", 1)
	}
	for range c.IntN(maxLayers) {
		l := grammar.Layer{Type: uniq + pick(c.Rand, types)}
		s := "@" + l.Type
		for range c.IntN(maxCmds) {
			cmd := grammar.LayerCommand{Command: pick(c.Rand, words)}
			var args []string
			for range c.IntN(maxArgs) {
				if c.Chance(50) {
					w := pick(c.Rand, words)
					args = append(args, w)
					cmd.Arguments = append(cmd.Arguments, w)
				} else {
					w := pick(c.Rand, []string{"", " ", "'", "a b", "\n", "ж", ")", "\\", "\"", "\"a\"", "\"\"", "'a'", " a ", "#a", "\"a"})
					if c.Chance(50) {
						args = append(args, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(w)+`"`)
					} else {
						args = append(args, gen.Quote(w))
					}
					cmd.Arguments = append(cmd.Arguments, w)
				}
			}
			s += " " + cmd.Command + "(" + strings.Join(args, ", ") + ")"
			l.Commands = append(l.Commands, cmd)
		}
		decl = append(decl, l)
		pieces = append(pieces, s+";\n")
	}
	for i, s := range pieces {
		if i == len(pieces)-1 && c.Chance(30) {
			text += c34Nodes + s
		} else {
			text += s
			if i == len(pieces)-1 {
				text += c34Nodes
			}
		}
	}
	if len(pieces) == 0 {
		text += c34Nodes
	}
	c.Put("grammar", text)
	g, e := langdef.ParseString("g", text)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v\n%s", e, text)
	}
	g2, _ := langdef.ParseString("g", text)
	fail := func(format string, args ...any) { c.Fatal(format+"; grammar:\n%s", append(args, text)...) }
	if len(decl) > 1 {
		c.Distinct(text)
	}
	for np := range 3 {
		setups = nil
		inits = nil
		c.Eval()
		var opts []parser.Option
		known := global
		if c.Chance(75) {
			opts = append(opts, parser.WithLayerTemplates(explicit))
			known = registered
		} else if len(explicit) > 0 {
			c.Count("without_templates", 1)
		}
		var want []setupRec
		wantCode, wantErr, wantName := 0, error(nil), ""
		for _, l := range decl {
			id := known[strings.TrimPrefix(l.Type, uniq)]
			if id == "" {
				wantCode = parser.UnknownLayerError
				wantName = l.Type
				break
			}
			want = append(want, setupRec{id: id, cmds: l.Commands})
			if id == "fail" {
				wantErr = myErr
				break
			}
		}
		p, e := parser.New(g, opts...)
		if len(inits) > 0 {
			fail("a layer is initialised before parsing")
		}
		if wantCode != 0 {
			c.Count("unknown_layer", 1)
			if le := hx.LLX(e); le == nil || le.Code != wantCode || p != nil || !mentions(le, wantName) {
				fail("unknown layer type gives %v", e)
			}
			continue
		}
		if wantErr != nil {
			c.Count("setup_error", 1)
			if e != wantErr || p != nil {
				fail("error %v is returned instead of the one returned by Setup", e)
			}
		}
		if len(setups) != len(want) {
			fail("%d calls of Setup instead of %d", len(setups), len(want))
		}
		c.Count("setups", len(setups))
		for i, s := range setups {
			w := want[i]
			if s.id != w.id || !sameCommands(s.cmds, w.cmds) {
				fail("layer %d is configured as %s %v instead of %s %v", i, s.id, s.cmds, w.id, w.cmds)
			}
			if s.p == nil || wantErr == nil && s.p != p {
				fail("wrong parser is passed to Setup")
			}
		}
		if wantErr != nil {
			continue
		}
		if e != nil {
			fail("unexpected error %v", e)
		}
		if !reflect.DeepEqual(g, g2) {
			fail("grammar is modified")
		}
		// parses
		for range 3 {
			parse++
			inits = nil
			badLayer = -1
			layerNodes = c.Chance(40)
			wantCode := 0
			user := parser.Hooks{}
			called := false
			tok := func(context.Context, *lexer.Token, *parser.TokenContext) (bool, []*lexer.Token, error) {
				called = true
				return true, nil, nil
			}
			node := func(context.Context, string, *lexer.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
				called = true
				return nil, nil
			}
			badHook := func() parser.Hooks {
				// valid ones with a single invalid one
				h := parser.Hooks{Tokens: parser.TokenHooks{}, Nodes: parser.NodeHooks{}, Literals: parser.TokenHooks{}}
				for _, t := range []string{parser.AnyToken, parser.EofToken, parser.EoiToken, "name", "op", "ext", "sp"} {
					if c.Chance(40) {
						h.Tokens[t] = tok
					}
				}
				for _, t := range []string{"+", "foo", "", "item"} {
					if c.Chance(30) {
						h.Literals[t] = tok
					}
				}
				for _, t := range []string{parser.AnyNode, "item", "pair", "root"} {
					if c.Chance(40) {
						h.Nodes[t] = node
					}
				}
				if c.Chance(50) {
					wantName = pick(c.Rand, []string{"+", "bad", "foo", "item", "-error-", "$name", "Name"})
					h.Tokens[wantName] = tok
					wantCode = parser.UnknownTokenTypeError
				} else {
					wantName = pick(c.Rand, []string{"foo", "name", "+", "Root"})
					h.Nodes[wantName] = node
					wantCode = parser.UnknownNodeError
				}
				return h
			}
			if c.Chance(20) {
				user = badHook()
				c.Count("bad_user_hook", 1)
			} else if len(decl) > 0 && c.Chance(25) {
				badLayer = c.IntN(len(decl))
				badHooks = badHook()
				c.Count("bad_layer_hook", 1)
				if c.Chance(60) {
					// all other ones are correct
					if c.Chance(70) {
						user.Nodes = parser.NodeHooks{pick(c.Rand, []string{parser.AnyNode, "item", "root"}): node}
					}
					if c.Chance(70) {
						user.Tokens = parser.TokenHooks{pick(c.Rand, []string{parser.AnyToken, parser.EoiToken, "op"}): tok}
					}
				}
			}
			input := pick(c.Rand, []string{"a b 1", "1- + foo", "", "a", " a + b 22 - "})
			q := source.NewQueue().Append(source.New("s", []byte(input)))
			ctx := context.WithValue(bg, ctxKey{}, parse)
			c.Eval()
			rec := &hx.Recorder{}
			if wantCode == 0 {
				user = rec.Hooks()
			}
			res, e := p.Parse(ctx, q, user, parser.WithFullSource())
			if wantCode != 0 {
				if le := hx.LLX(e); le == nil || le.Code != wantCode || res != nil || !mentions(le, wantName) {
					fail("invalid hooks give %v, code %d is expected", e, wantCode)
				}
				if called {
					fail("hooks are called though some are invalid")
				}
				continue
			}
			if e != nil {
				fail("unexpected error %v for %q", e, input)
			}
			cnt := map[int]int{}
			for _, in := range inits {
				cnt[in.layer]++
				if in.pc == nil || in.pc.Parser() != p || in.pc.Sources() != q || in.ctx.Value(ctxKey{}) != any(parse) {
					fail("layer %d is initialised with a wrong context", in.layer)
				}
			}
			c.Count("inits", len(inits))
			toks := 0
			for s := strings.TrimSpace(input); s != ""; {
				n := 1
				switch {
				case s[0] == ' ':
					n = run1(s, " ")
				case s[0] >= '0' && s[0] <= '9':
					n = run1(s, "0123456789")
				case s[0] >= 'a' && s[0] <= 'z':
					n = run1(s, "abcdefghijklmnopqrstuvwxyz")
				}
				toks++
				s = s[n:]
			}
			if strings.HasPrefix(input, " ") && strings.TrimSpace(input) != "" {
				toks++
			}
			if strings.HasSuffix(input, " ") {
				toks++
			}
			for i := range decl {
				if cnt[i] != 1 {
					fail("layer %d is initialised %d times in a parse", i, cnt[i])
				}
				if n := tokenCalls[[2]int{i, parse}]; n != toks {
					fail("hook of layer %d is called %d times for %d tokens of %q", i, n, toks, input)
				}
				c.Count("token_calls", toks)
			}
			if wrongCalls != "" {
				fail("%s", wrongCalls)
			}
		}
		if len(setups) != len(want) {
			fail("Setup is called while parsing")
		}
		if np == 0 && c.Idx < 20 {
			c.Sample("%s", text)
		}
	}
}

func sameCommands(a, b []grammar.LayerCommand) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Command != b[i].Command || len(a[i].Arguments) != len(b[i].Arguments) {
			return false
		}
		for j := range a[i].Arguments {
			if a[i].Arguments[j] != b[i].Arguments[j] {
				return false
			}
		}
	}
	return true
}

// mentions tells that an error message mentions all quoted names and all numbers.
func mentions(e *llx.Error, words ...any) bool {
	for _, w := range words {
		switch w := w.(type) {
		case string:
			if !strings.Contains(e.Message, fmt.Sprintf("%q", w)) && (w == "" || !strings.Contains(e.Message, w)) {
				return false
			}
		case int:
			if !regexp.MustCompile(fmt.Sprintf(`\b%d\b`, w)).MatchString(e.Message) {
				return false
			}
		}
	}
	return true
}

// c34Indent checks configuration of the indent layer with at most one mistake.
func c34Indent(c *mon.Ctx) {
	c.Count("indent_configs", 1)
	spaces := []string{"sp", "name", "num", "ext"}
	c.Shuffle(len(spaces), func(i, j int) { spaces[i], spaces[j] = spaces[j], spaces[i] })
	cmds := []string{"space(" + strings.Join(spaces[:1+c.IntN(len(spaces))], ", ") + ")", "on-indent(" + pick(c.Rand, []string{"in", "de", "ext"}) + ")", "on-dedent(" + pick(c.Rand, []string{"in", "de", "ext"}) + ")"}
	add := func(s string) { cmds = append(cmds, s) }
	code := 0
	unknown := pick(c.Rand, []string{"foo", "bad", "'+'", "item", "-eof-", "-eoi-", "''", "'-error-'"})
	if unknown == "-eof-" || unknown == "-eoi-" {
		unknown = "'" + unknown + "'"
	}
	words := []any{"indent"}
	name := func(i int) string {
		s := cmds[i][:strings.Index(cmds[i], "(")]
		words = append(words, s)
		return s
	}
	switch c.IntN(8) {
	case 0:
		i := c.IntN(3)
		name(i)
		cmds = append(cmds[:i], cmds[i+1:]...)
		code = common.MissingCommandError
	case 1:
		i := c.IntN(3)
		cmds[i] = name(i) + "()"
		words = append(words, 1, 0)
		code = common.NumberOfArgumentsError
	case 2:
		i := 1 + c.IntN(2)
		n := 2 + c.IntN(3)
		cmds[i] = name(i) + "(in" + strings.Repeat(", de", n-1) + ")"
		words = append(words, 1, n)
		code = common.NumberOfArgumentsError
	case 3:
		i := c.IntN(3)
		cmds[i] = name(i) + "(" + unknown + ")"
		words = append(words, strings.Trim(unknown, "'"))
		code = common.UnknownTokenTypeError
	case 4:
		i := c.IntN(3)
		name(i)
		add(cmds[i])
		code = common.CommandAlreadyUsedError
	case 5:
		add(pick(c.Rand, []string{"tab(sp)", "Space(sp)", "dedent(in)", "spaces()"}))
		name(len(cmds) - 1)
		code = common.UnknownCommandError
	}
	c.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	text := c34Grammar + "@indent " + strings.Join(cmds, " ") + ";\n" + c34Nodes
	c.Put("grammar", text)
	c.Distinct(text)
	c.Eval()
	p, e := hx.Compile(text)
	if code == 0 {
		if e != nil || p == nil {
			c.Fatal("valid configuration is rejected: %v\n%s", e, text)
		}
		return
	}
	le := hx.LLX(e)
	if le == nil || le.Code != code {
		c.Fatal("error %v instead of an error with code %d; %s", e, code, text)
	}
	if !mentions(le, words...) {
		c.Fatal("error %v does not mention %q; %s", e, words, text)
	}
}
