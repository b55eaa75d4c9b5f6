package main

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C36",
		Rule: "random grammars having side, error, extern, caseless types in random places and literals named like types; all queries of the parser for all types, numbers around and far out of the range, and names similar to known ones; " +
			"tokens of these types emitted by user and layer hooks; runs over 1-3 sources with hooks examining tokens, contexts and node stack at every event; non-trivial: distinct (grammar, input) with at least 3 tokens",
		Quick: 16000, Thorough: 400000,
		Need: []string{"types", "side_types", "error_types", "extern_types", "literals", "other_numbers", "unknown_names", "made_tokens", "emitted", "emitted_wrong", "tokens", "ends", "peeks", "stacks", "nested_stacks", "several_sources", "unnamed_sources", "layered", "lookahead", "same_names"},
		Run:  runC36,
	})
}

type c36Key struct{}

type c36Layer func(context.Context, *parser.ParseContext) parser.Hooks

func (l c36Layer) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks { return l(ctx, pc) }

// c36Kind is what the description says about a token type.
type c36Kind struct {
	name                   string
	side, err, extern, lit bool
}

func runC36(c *mon.Ctx) {
	var g *gen.Grammar
	var a gen.Alphabet
	// emitted tokens would make conflicts exponential
	emit := c.Chance(50)
	for n := 0; ; n++ {
		if n == 20 {
			c.Abort()
		}
		a = gen.Std(c.Rand, gen.AlphaOpts{Min: 1, Max: 6, Groups: c.Chance(30)})
		g = a.New()
		if c.Chance(15) {
			manyTypes(c, g)
		}
		for i := range min(c.IntN(6), 60-len(g.Toks)) {
			t := gen.TokDef{Name: fmt.Sprintf("%s%d", pick(c.Rand, []string{"extra", "Extra", "e-", "x_"}), i), Re: fmt.Sprintf("~x%d~", i), Caseless: c.Chance(20)}
			switch c.IntN(5) {
			case 0:
				t.Side = true
			case 1:
				t.Error = true
			case 2:
				t.Re, t.Extern = "", true
			case 3:
				t.Re, t.Extern, t.Side = "", true, true
			}
			if !t.Extern && !t.Error && !t.Caseless && c.Chance(40) {
				// a literal and a type having the same name
				t.Re += "|" + t.Name
				g.Extra += "!reserved '" + t.Name + "';\n"
				c.Count("same_names", 1)
			}
			k := c.IntN(len(g.Toks) + 1)
			if t.Extern {
				k = len(g.Toks)
			}
			g.Toks = append(g.Toks[:k:k], append([]gen.TokDef{t}, g.Toks[k:]...)...)
		}
		o := gen.Opts{Terms: a.Terms, MaxNodes: 1 + c.IntN(5), Depth: 1 + c.IntN(3), Width: 1 + c.IntN(4), Eoi: true, Conf: !emit && c.Chance(60)}
		if g.RandomNodes(c.Rand, o, func(g *gen.Grammar) bool { return !g.SharedEntry() && (!emit || g.LL1()) }) {
			break
		}
	}
	layered := c.Chance(40)
	if layered {
		c.Count("layered", 1)
		g.Layers = "@look;\n"
	}
	text := g.Text()
	c.Put("grammar", text)
	c.Crumb()
	gr, e := langdef.ParseString("g", text)
	if e != nil {
		c.Fatal("valid description is rejected: %v", e)
	}
	same, _ := langdef.ParseString("g", text)
	var hooks func(ctx context.Context, pc *parser.ParseContext) parser.Hooks
	p, e := parser.New(gr, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"look": tplFunc(c36Layer(func(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
		return hooks(ctx, pc)
	}))}))
	if e != nil {
		c.Fatal("no parser: %v", e)
	}
	kinds := c36Kinds(c, g, p.Tokens())
	types := c36Queries(c, g, p, kinds)
	if c.Failed() {
		return
	}
	for range 4 {
		seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
		if c.Chance(20) {
			seq = mutate(c.Rand, a, seq)
		}
		if len(seq) > 60 || g.NewMatcher(seq).Paths() > 1000 {
			continue
		}
		input, _ := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(40)})
		c.Put("input", input)
		if len(seq) >= 3 {
			c.Distinct(text, input)
		}
		if emit {
			c36Emit(c, p, kinds, types, input, layered, &hooks)
		} else {
			c36Run(c, p, kinds, input, layered, &hooks)
		}
		if c.Failed() {
			return
		}
	}
	if !reflect.DeepEqual(p.Tokens(), same.Tokens) {
		c.Fatal("tokens of the parser are %v, the grammar has %v", p.Tokens(), same.Tokens)
	}
}

// c36Kinds tells what each token type is, according to the description.
func c36Kinds(c *mon.Ctx, g *gen.Grammar, toks []grammar.Token) []c36Kind {
	defs := map[string]gen.TokDef{}
	for _, t := range g.Toks {
		defs[t.Name] = t
	}
	kinds := make([]c36Kind, len(toks))
	for i, t := range toks {
		d, has := defs[t.Name]
		if t.Flags&grammar.LiteralToken != 0 || !has {
			kinds[i] = c36Kind{name: t.Name, lit: true}
			c.Count("literals", 1)
			continue
		}
		delete(defs, t.Name)
		kinds[i] = c36Kind{name: t.Name, side: d.Side, err: d.Error, extern: d.Extern}
		c.Count("types", 1)
		if d.Side {
			c.Count("side_types", 1)
		}
		if d.Error {
			c.Count("error_types", 1)
		}
		if d.Extern {
			c.Count("extern_types", 1)
		}
	}
	for name := range defs {
		c.Fatal("type %q is missing in the list of tokens %v", name, toks)
	}
	return kinds
}

func c36Queries(c *mon.Ctx, g *gen.Grammar, p *parser.Parser, kinds []c36Kind) (types []int) {
	n := len(kinds)
	names := map[string]int{parser.EofToken: lexer.EofTokenType, parser.EoiToken: lexer.EoiTokenType}
	hidden := map[string]bool{}
	for i, k := range kinds {
		switch {
		case k.err:
			hidden[k.name] = true
		case !k.lit:
			names[k.name] = i
		}
		types = append(types, i)
	}
	types = append(types, n, n+1, n+63, n+1000, math.MaxInt, 1<<40, 1<<31, math.MaxInt32, -1, -2, -3, -4, -5, -100, math.MinInt, math.MinInt32, -2-1<<32, c.IntN(n)+1<<32, c.IntN(n)+64, c.IntN(n)+256, -c.IntN(n)-4, c.Int())
	for _, tt := range types {
		c.Eval()
		side, special, valid := c36Truth(kinds, tt)
		if tt < 0 || tt >= n {
			c.Count("other_numbers", 1)
		}
		if p.IsSideType(tt) != side || p.IsSpecialType(tt) != special || p.IsValidType(tt) != valid {
			c.Fatal("type %d: side %v, special %v, valid %v; expected %v, %v, %v; kinds %+v", tt, p.IsSideType(tt), p.IsSpecialType(tt), p.IsValidType(tt), side, special, valid, kinds)
		}
	}
	var ask []string
	for name := range names {
		ask = append(ask, name, name+"x", "x"+name, "$"+name, name[1:], name[:len(name)-1], strings.ToUpper(name), strings.ToLower(name), name+" ", name+"\x00")
	}
	for _, k := range kinds {
		ask = append(ask, k.name)
	}
	for _, nd := range g.Nodes {
		ask = append(ask, nd.Name)
	}
	ask = append(ask, "eof", "-error-", "$", "*", verbText(c, 3))
	for _, name := range ask {
		if name == parser.AnyToken {
			continue // a key of hooks
		}
		c.Eval()
		tt, ok := p.TokenType(name)
		content := []byte(verbText(c, 4))
		kept := string(content)
		t, e := p.MakeToken(name, content)
		if hidden[name] {
			// broken tokens are never seen by anyone, it is enough if the answers agree
			if ok != (e == nil) || ok && !p.IsValidType(tt) {
				c.Fatal("error token type %q: TokenType %d %v, error %v", name, tt, ok, e)
			}
			continue
		}
		want, known := names[name]
		if ok != known || known && tt != want {
			c.Fatal("TokenType(%q) is %d, %v; expected %d, %v; kinds %+v", name, tt, ok, want, known, kinds)
		}
		if !known {
			c.Count("unknown_names", 1)
			le := hx.LLX(e)
			if t != nil || le == nil || le.Code != parser.UnknownTokenTypeError {
				c.Fatal("MakeToken(%q) gives %v and error %v for unknown type", name, t, e)
			}
			continue
		}
		c.Count("made_tokens", 1)
		if e != nil || t == nil {
			c.Fatal("MakeToken(%q): error %v", name, e)
		}
		line, col := t.LineCol()
		if t.Type() != want || t.TypeName() != name || t.Text() != kept || string(t.Content()) != kept || t.Source() != nil || t.SourceName() != "" || line != 0 || col != 0 || t.Pos() != (source.Pos{}) {
			c.Fatal("MakeToken(%q, %q) gives type %d %q, text %q, content %q, source %v %q, place %d:%d", name, kept, t.Type(), t.TypeName(), t.Text(), t.Content(), t.Source(), t.SourceName(), line, col)
		}
	}
	return
}

func c36Truth(kinds []c36Kind, tt int) (side, special, valid bool) {
	special = tt == lexer.EofTokenType || tt == lexer.EoiTokenType
	valid = special
	if tt >= 0 && tt < len(kinds) {
		side = kinds[tt].side
		valid = !kinds[tt].lit && !kinds[tt].err
	}
	return
}

// c36Emit checks that a hook may emit exactly those tokens which have valid types.
func c36Emit(c *mon.Ctx, p *parser.Parser, kinds []c36Kind, types []int, input string, layered bool, layer *func(context.Context, *parser.ParseContext) parser.Hooks) {
	for range 4 {
		tt := pick(c.Rand, types)
		_, _, valid := c36Truth(kinds, tt)
		before, emit := c.IntN(4), c.Chance(50)
		others := c.IntN(3)
		calls, done := 0, false
		hook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			calls++
			if calls <= before || done {
				return true, nil, nil
			}
			done = true
			var extra []*lexer.Token
			for range others {
				extra = append(extra, t)
			}
			k := c.IntN(len(extra) + 1)
			extra = append(extra[:k:k], append([]*lexer.Token{lexer.NewToken(tt, "odd", []byte("odd"), t.Pos())}, extra[k:]...)...)
			return emit, extra, nil
		}
		hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}}
		*layer = func(context.Context, *parser.ParseContext) parser.Hooks { return parser.Hooks{} }
		if layered && c.Chance(50) {
			user := hs
			*layer = func(context.Context, *parser.ParseContext) parser.Hooks { return user }
			hs = parser.Hooks{}
		}
		c.Eval()
		_, e := p.ParseString(bg, "input", input, hs)
		if !done {
			continue
		}
		le := hx.LLX(e)
		refused := le != nil && le.Code == parser.EmitWrongTokenError
		if valid {
			c.Count("emitted", 1)
		} else {
			c.Count("emitted_wrong", 1)
		}
		if refused == valid {
			c.Fatal("a hook emits a token of type %d (valid: %v), the error is %v; kinds %+v", tt, valid, e, kinds)
		}
	}
}

// c36Look is a run with hooks examining everything.
type c36Look struct {
	c       *mon.Ctx
	p       *parser.Parser
	q       *source.Queue
	kinds   []c36Kind
	sources map[*source.Source]string
	pc      *parser.ParseContext
	open    []string
	first   *parser.NodeContext // of the root
	last    *parser.NodeContext
	errs    []string
	events  int
	kept    [4][]string // some stacks got earlier and what they were
	keptWas [4]string
}

func (l *c36Look) errorf(f string, args ...any) {
	if len(l.errs) < 3 {
		l.errs = append(l.errs, fmt.Sprintf(f, args...))
	}
}

// c36Deadline never comes.
var c36Deadline = time.Now().Add(1000 * time.Hour)

func (l *c36Look) context(what string, ctx context.Context, pc *parser.ParseContext) {
	if ctx.Value(c36Key{}) != l {
		l.errorf("%s: not the context given to the parser", what)
	}
	if d, has := ctx.Deadline(); !has || !d.Equal(c36Deadline) || ctx.Done() == nil {
		l.errorf("%s: the context cannot be cancelled", what)
	}
	if pc == nil || l.pc != nil && pc != l.pc {
		l.errorf("%s: another parse context", what)
		return
	}
	l.pc = pc
	if pc.Parser() != l.p {
		l.errorf("%s: another parser", what)
	}
	if pc.Sources() != l.q {
		l.errorf("%s: another source queue", what)
	}
}

func (l *c36Look) stack(what string) {
	for _, nc := range []*parser.NodeContext{l.first, l.last} {
		if nc == nil {
			continue
		}
		l.c.Count("stacks", 1)
		if len(l.open) > 1 {
			l.c.Count("nested_stacks", 1)
		}
		got := nc.NodeStack()
		if k := l.c.IntN(8); k < len(l.kept) {
			l.keptWas[k], l.kept[k] = strings.Join(got, " "), got
		}
		ok := len(got) == len(l.open)
		for i := 0; ok && i < len(got); i++ {
			ok = got[i] == l.open[len(l.open)-1-i]
		}
		if !ok {
			l.errorf("%s: node stack is %v, open nodes (the root goes first) are %v", what, got, l.open)
		}
	}
}

func (l *c36Look) token(what string, t *lexer.Token) {
	if t.Text() != string(t.Content()) {
		l.errorf("%s: text %q, content %q", what, t.Text(), t.Content())
	}
	line, col := t.LineCol()
	tt := t.Type()
	if tt == lexer.EoiTokenType {
		l.c.Count("ends", 1)
		if t.TypeName() != parser.EoiToken || t.Source() != nil || t.SourceName() != "" || t.Text() != "" || line != 0 || col != 0 {
			l.errorf("%s: end of input token is %q, text %q, source %q, place %d:%d", what, t.TypeName(), t.Text(), t.SourceName(), line, col)
		}
		return
	}
	src := t.Source()
	if src == nil || src != t.Pos().Source() {
		l.errorf("%s: token %q of type %d has no source", what, t.Text(), tt)
		return
	}
	text, has := l.sources[src]
	pos := t.Pos().Pos()
	if !has || pos < 0 || pos > len(text) {
		l.errorf("%s: token %q, position %d, source %q is known: %v", what, t.Text(), pos, src.Name(), has)
		return
	}
	before := text[:pos]
	wantLine := strings.Count(before, "\n") + 1
	wantCol := utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:]) + 1
	if line != wantLine || col != wantCol || t.SourceName() != src.Name() || t.Pos().SourceName() != src.Name() {
		l.errorf("%s: token %q at %d is in %q at %d:%d, expected %q, %d:%d", what, t.Text(), pos, t.SourceName(), line, col, src.Name(), wantLine, wantCol)
	}
	if tt == lexer.EofTokenType {
		l.c.Count("ends", 1)
		if t.TypeName() != parser.EofToken || t.Text() != "" || pos != len(text) {
			l.errorf("%s: end of file token is %q, text %q at %d of %d", what, t.TypeName(), t.Text(), pos, len(text))
		}
		return
	}
	l.c.Count("tokens", 1)
	if tt < 0 || tt >= len(l.kinds) || l.kinds[tt].lit || l.kinds[tt].err || l.kinds[tt].extern || l.kinds[tt].name != t.TypeName() {
		l.errorf("%s: token %q has type %d, type name %q; kinds %+v", what, t.Text(), tt, t.TypeName(), l.kinds)
		return
	}
	if t.Text() == "" || !strings.HasPrefix(text[pos:], t.Text()) {
		l.errorf("%s: token %q is not at %d of %q", what, t.Text(), pos, text)
	}
}

type c36Inst struct {
	l    *c36Look
	name string
}

func (i *c36Inst) at(what string) {
	l := i.l
	l.events++
	if len(l.open) == 0 || l.open[len(l.open)-1] != i.name {
		l.errorf("%s of %s, open nodes are %v", what, i.name, l.open)
	}
	l.stack(what)
}
func (i *c36Inst) NewNode(node string, t *lexer.Token) error {
	i.at("NewNode")
	i.l.token("NewNode", t)
	return nil
}
func (i *c36Inst) HandleNode(node string, res any) error {
	i.at("HandleNode")
	if res != node {
		i.l.errorf("result of %s is %v", node, res)
	}
	return nil
}
func (i *c36Inst) HandleToken(t *lexer.Token) error {
	i.at("HandleToken")
	i.l.token("HandleToken", t)
	return nil
}
func (i *c36Inst) EndNode() (any, error) {
	i.at("EndNode")
	i.l.open = i.l.open[:len(i.l.open)-1]
	return i.name, nil
}

func c36Run(c *mon.Ctx, p *parser.Parser, kinds []c36Kind, input string, layered bool, layer *func(context.Context, *parser.ParseContext) parser.Hooks) {
	q := source.NewQueue()
	l := &c36Look{c: c, p: p, q: q, kinds: kinds, sources: map[*source.Source]string{}}
	rest := input
	n := 1
	if c.Chance(30) {
		n = 2 + c.IntN(2)
		c.Count("several_sources", 1)
	}
	for i := range n {
		part := rest
		if i < n-1 {
			part = rest[:c.IntN(len(rest)+1)]
		}
		rest = rest[len(part):]
		name := pick(c.Rand, []string{"", "a", "a", "файл", "%d"})
		if name == "" {
			c.Count("unnamed_sources", 1)
		}
		s := source.New(name, []byte(part))
		l.sources[s] = part
		q.Append(s)
	}
	ctx, stop := context.WithDeadline(context.WithValue(bg, c36Key{}, l), c36Deadline)
	defer stop()
	prev := -1
	hook := func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
		l.context("token hook", ctx, tc.ParseContext())
		l.token("token hook", t)
		l.stack("token hook")
		// it is the token which has just been fetched
		src, pos := q.Source(), q.Pos()
		switch t.Type() {
		case lexer.EoiTokenType:
			if src != nil {
				l.errorf("end of input token, current source is %q", src.Name())
			}
		case lexer.EofTokenType:
			if src == t.Source() {
				l.errorf("the source is not discarded at its end of file token")
			}
		default:
			if src != t.Source() || pos != t.Pos().Pos()+len(t.Content()) {
				l.errorf("token %q at %d is being handled, current position is %d, current source is the same: %v", t.Text(), t.Pos().Pos(), pos, src == t.Source())
			}
		}
		if l.events == prev {
			c.Count("lookahead", 1)
		}
		if prev = -1; !p.IsSideType(t.Type()) {
			prev = l.events
		}
		if c.Chance(30) {
			for range c.IntN(4) {
				pt, e := tc.PeekToken()
				if e != nil || pt == nil {
					break
				}
				c.Count("peeks", 1)
				l.token("peeked", pt)
			}
		}
		return true, nil, nil
	}
	node := func(ctx context.Context, name string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		l.context("node hook", ctx, nc.ParseContext())
		l.stack("node hook")
		l.last = nc
		if l.first == nil {
			l.first = nc
			l.stack("root node hook")
		} else {
			l.token("node hook", t)
		}
		l.open = append(l.open, name)
		return &c36Inst{l, name}, nil
	}
	toks := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook, parser.EofToken: hook, parser.EoiToken: hook}}
	nodes := parser.NodeHooks{parser.AnyNode: node}
	var user, lower parser.Hooks
	if layered && c.Chance(50) {
		lower = toks
	} else {
		user = toks
	}
	if layered && c.Chance(50) {
		lower.Nodes = nodes
	} else {
		user.Nodes = nodes
	}
	inits := 0
	*layer = func(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
		inits++
		l.context("Init", ctx, pc)
		return lower
	}
	var opts []parser.ParseOption
	if c.Chance(40) {
		opts = append(opts, parser.WithSides())
	}
	if c.Chance(40) {
		opts = append(opts, parser.WithFullSource())
	}
	c.Eval()
	res, e := p.Parse(ctx, q, user, mixOpts(c, opts)...)
	for i, s := range l.kept {
		if was := strings.Join(s, " "); was != l.keptWas[i] {
			l.errorf("node stack %q returned to a hook has changed to %q", l.keptWas[i], was)
		}
	}
	if len(l.errs) > 0 {
		c.Fatal("%s (parsing: %v, %v)", strings.Join(l.errs, "; "), res, e)
	}
	if e == nil && len(l.open) != 0 {
		c.Fatal("parsing is done, open nodes are %v", l.open)
	}
}
