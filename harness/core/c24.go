package main

import (
	"context"
	"encoding/json"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

func init() {
	register(&mon.Check{
		ID: "C24",
		Rule: "2-8 goroutines running parses (random grammars, or a grammar using all built-in layers, directives and a logging layer; tree building; the same source objects, tokens, selectors, trees and contexts shared by several goroutines), " +
			"compilations, parser constructions and layer registrations at the same time, with random yields inside hooks; built with the race detector, every log is compared with the one made alone on a fresh parser; " +
			"non-trivial: distinct observed interleavings of hook events with at least 4 switches between goroutines",
		Quick: 1200, Thorough: 40000,
		Need:  []string{"parses", "layer_parses", "shared_sources", "shared_positions", "shared_tree", "compilations", "registrations", "lost_registrations", "lexers", "switches", "errors", "constructions", "literal_hooks", "few_hooks", "big_cases", "caseless", "groups"},
		Procs: 4, MaxShards: 6,
		CpuLimit:    60 * time.Second,
		Race:        true,
		Run:         runC24,
		Assumptions: []string{"the race detector sees the schedules which actually happened"},
	})
}

type c24key struct{}

// c24job is a piece of work done by one goroutine; it must give the same log each time.
type c24job struct {
	name string
	run  func(w *c24work)
}

// c24work is one run of a job.
type c24work struct {
	log    []string
	times  []time.Time
	seed   uint64
	yields bool
}

func (w *c24work) event(f string, args ...any) {
	w.log = append(w.log, fmt.Sprintf(f, args...))
	w.pause()
}

func (w *c24work) pause() {
	if !w.yields {
		return
	}
	w.times = append(w.times, time.Now())
	w.seed = w.seed*6364136223846793005 + 1442695040888963407
	switch x := w.seed >> 40 % 8; {
	case x < 3:
		runtime.Gosched()
	case x == 3:
		time.Sleep(time.Microsecond * time.Duration(w.seed>>50%20))
	case x == 4:
		for range w.seed >> 52 {
			w.times[len(w.times)-1].IsZero()
		}
	}
}

func c24tok(t *lexer.Token) string {
	if t == nil {
		return "nil"
	}
	l, c := t.LineCol()
	return fmt.Sprintf("%s(%d):%q %s:%d:%d", t.TypeName(), t.Type(), t.Text(), t.SourceName(), l, c)
}

func c24err(e error) string {
	if e == nil {
		return "ok"
	}
	if le := hx.LLX(e); le != nil {
		return fmt.Sprintf("error %d %s:%d:%d %s", le.Code, le.SourceName, le.Line, le.Col, le.Message)
	}
	return fmt.Sprintf("error %T %v", e, e)
}

type c24inst struct {
	w    *c24work
	node string
	n    int
}

func (i *c24inst) NewNode(node string, t *lexer.Token) error {
	i.w.event("%s > %s %s", i.node, node, c24tok(t))
	return nil
}
func (i *c24inst) HandleNode(node string, res any) error {
	i.w.event("%s < %s %v", i.node, node, res)
	return nil
}
func (i *c24inst) HandleToken(t *lexer.Token) error {
	i.n++
	i.w.event("%s: %s", i.node, c24tok(t))
	return nil
}
func (i *c24inst) EndNode() (any, error) {
	i.w.event("end %s", i.node)
	return fmt.Sprintf("%s/%d", i.node, i.n), nil
}

// c24hooks find the log of a parse in the context, so that they may be shared by all parses.
func c24hooks(name string, peeks bool, lits ...string) parser.Hooks {
	mk := func(name string) parser.TokenHook {
		return func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			w := ctx.Value(c24key{}).(*c24work)
			w.event("%s token %s", name, c24tok(t))
			if peeks && hash(7, t.Text())%4 == 0 {
				p, e := tc.PeekToken()
				w.event("%s peek %s %s", name, c24tok(p), c24err(e))
			}
			return true, nil, nil
		}
	}
	th := mk(name)
	ls := parser.TokenHooks{}
	for _, l := range lits {
		ls[l] = mk(name + " literal " + l)
	}
	nh := func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		w := ctx.Value(c24key{}).(*c24work)
		w.event("%s node %s %s %v", name, node, c24tok(t), nc.NodeStack())
		return &c24inst{w: w, node: name + "." + node}, nil
	}
	return parser.Hooks{
		Tokens:   parser.TokenHooks{parser.AnyToken: th, parser.EofToken: th, parser.EoiToken: th},
		Literals: ls,
		Nodes:    parser.NodeHooks{parser.AnyNode: nh},
	}
}

const c24Grammar = `!side $space $nl $comment;
!extern $in $de;
!error $bad;
!reserved "do";
$space = /[ \t]+/; $nl = /\n/; $comment = /#[^\n]*/;
$name = /[a-z]+/; $num = /[0-9]+/; $op = /\(\.|\.\)|[:;=+()]/;
$bad = /[?!]+/;
@log on();
@indent space(space, nl) on-indent(in) on-dedent(de);
@convert input-type(op) save-position() convert('(.', '(', '.)', ')');
@restrict node(stop) forbid-in(root) allow-in(loop);
@log after();
root = {stmt}, $;
stmt = loop | stop | assign | run;
loop = 'do', ':', $in, stmt, {stmt}, $de;
stop = 'stop', ';';
assign = $name, '=', sum, ';';
run = call, ';';
call = $name, '(', args, ')';
args = [sum, {';', sum}];
sum = item, {'+', item};
item = $num | ($name, ['(', args, ')']);
`

// c24Variant adds random directives to c24Grammar, returns also a function making programs fit the result.
func c24Variant(c *mon.Ctx) (string, func(string) string) {
	text := c24Grammar
	fit := func(s string) string { return s }
	if c.Chance(60) {
		c.Count("caseless", 1)
		text = strings.NewReplacer("[a-z]+", `[\pL]+`, "'do'", "'DO'", `"do"`, `"DO"`, "'stop'", "'STOP'").Replace(text)
		text = "!caseless $name;\n" + text
		fit = func(s string) string {
			words := c24words.FindAllStringIndex(s, -1)
			b := []byte(s)
			for _, w := range words {
				if c.Chance(50) {
					copy(b[w[0]:w[1]], strings.ToUpper(s[w[0]:w[1]]))
				} else if c.Chance(50) {
					copy(b[w[0]:w[0]+1], strings.ToUpper(s[w[0]:w[0]+1]))
				}
			}
			return strings.ReplaceAll(string(b), "BC", pick(c.Rand, []string{"BC", "Ёж", "ßs"}))
		}
	}
	if c.Chance(40) {
		c.Count("groups", 1)
		text = "!group $num;\n" + text
	}
	switch c.IntN(4) {
	case 0:
		text = "!literal $op $name;\n" + text
	case 1:
		text = strings.Replace("!literal 'do' 'stop' ':' ';' '=' '(' ')' '+';\n", "'do' 'stop'", []string{"'do' 'stop'", "'DO' 'STOP'"}[btoi(strings.Contains(text, "'DO'"))], 1) + text
	}
	return text, fit
}

var c24words = regexp.MustCompile("[a-z]+")

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c24Program(c *mon.Ctx, depth, indent int) string {
	var b strings.Builder
	pre := strings.Repeat(" ", indent)
	var sum func(d int) string
	sum = func(d int) string {
		s := ""
		for i := range 1 + c.IntN(3) {
			if i > 0 {
				s += []string{"+", " + ", "+ "}[c.IntN(3)]
			}
			switch {
			case d > 0 && c.Chance(25):
				s += []string{"f(", "f (.", "g(."}[c.IntN(3)] + sum(d-1) + []string{".)", ")"}[c.IntN(2)]
			case c.Chance(50):
				s += pick(c.Rand, []string{"a", "bc", "x"})
			default:
				s += fmt.Sprint(c.IntN(200))
			}
		}
		return s
	}
	for range 1 + c.IntN(4) {
		switch k := c.IntN(8); {
		case k < 2 && depth > 0:
			b.WriteString(pre + "do:\n" + c24Program(c, depth-1, indent+1+c.IntN(4)))
		case k == 2 && (indent > 0 || c.Chance(20)):
			b.WriteString(pre + "stop;\n")
		case k == 3:
			b.WriteString(pre + "# comment\n")
		case k == 4:
			b.WriteString(pre + "f(" + sum(2) + ");\n")
		default:
			b.WriteString(pre + "x = " + sum(2) + ";\n")
		}
	}
	return b.String()
}

func runC24(c *mon.Ctx) {
	switch c.Idx % 8 {
	case 0:
		c24Compile(c)
	case 1:
		c24Registry(c)
	case 2:
		c24Lexer(c)
	case 3:
		c24Tree(c)
	default:
		c24Parse(c)
	}
}

// c24all runs jobs alone, then all of them at once, then alone again, and compares logs.
// reset is called before each stage to make fresh shared objects if needed.
func c24all(c *mon.Ctx, jobs []c24job, rounds int, reset func(stage int)) {
	want := make([]string, len(jobs))
	reset(0)
	for i, j := range jobs {
		w := &c24work{}
		j.run(w)
		want[i] = strings.Join(w.log, "\n")
		c.Eval()
	}
	for r := range rounds {
		reset(1 + r)
		ws := make([]*c24work, len(jobs))
		panics := make([]any, len(jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, j := range jobs {
			ws[i] = &c24work{seed: c.Uint64(), yields: true}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { panics[i] = recover() }()
				<-start
				j.run(ws[i])
			}()
		}
		close(start)
		wg.Wait()
		for i, j := range jobs {
			c.Eval()
			if panics[i] != nil {
				c.Fatal("%s: concurrent run panics: %v", j.name, panics[i])
			}
			if got := strings.Join(ws[i].log, "\n"); got != want[i] {
				c.Put("expected log", want[i])
				c.Put("concurrent log", got)
				c.Fatal("%s: concurrent run differs: %s", j.name, c24diff(got, want[i]))
			}
		}
		c24interleaving(c, ws)
	}
	reset(1)
	for i, j := range jobs {
		w := &c24work{}
		j.run(w)
		c.Eval()
		if got := strings.Join(w.log, "\n"); got != want[i] {
			c.Fatal("%s: run after concurrent runs differs: %s", j.name, c24diff(got, want[i]))
		}
	}
}

func c24diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("extra %q", x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("event %d is %q instead of %q", i, x[i], y[i])
		}
	}
	return fmt.Sprintf("%d events instead of %d", len(x), len(y))
}

func c24interleaving(c *mon.Ctx, ws []*c24work) {
	type ev struct {
		t time.Time
		g int
	}
	var evs []ev
	for g, w := range ws {
		for _, t := range w.times {
			evs = append(evs, ev{t, g})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	var b strings.Builder
	sw := 0
	for i, e := range evs {
		b.WriteByte(byte('a' + e.g))
		if i > 0 && evs[i-1].g != e.g {
			sw++
		}
	}
	c.Count("events", len(evs))
	c.Count("switches", sw)
	c.Max("switches", sw)
	if sw >= 4 {
		c.Distinct(fmt.Sprint(c.Idx), b.String())
	}
	if c.Idx < 12 {
		s := b.String()
		if len(s) > 200 {
			s = s[:200]
		}
		c.Sample("interleaving of %d goroutines: %s", len(ws), s)
	}
}

func c24json(c *mon.Ctx, g *grammar.Grammar) string {
	b, e := json.Marshal(g)
	if e != nil {
		c.Fatal("cannot encode a grammar: %v", e)
	}
	return string(b)
}

// --- parses

// c24layer makes hooks having their own literals, so that parsers use types for literals unknown to the grammar.
type c24layer struct {
	name string
	lits []string
}

func (l c24layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l c24layer) Init(context.Context, *parser.ParseContext) parser.Hooks {
	return c24hooks(l.name, false, l.lits...)
}

func c24Parse(c *mon.Ctx) {
	var text string
	var inputs [][]piece
	builtin := c.Chance(40)
	big := c.Idx%80 == 12
	goes := 5
	if big {
		goes = 10 + c.IntN(50)
		c.Count("big_cases", 1)
		c.Max("goroutines", goes)
		g, a := bigGrammar(c)
		text = g.Text()
		for range 2 + c.IntN(5) {
			seq := bigSeq(c, g, a, 25)
			s, spans := gen.Render(c.Rand, seq[:min(len(seq), 1000)], gen.RenderOpts{})
			inputs = append(inputs, cutText(c, s, spans, 10))
		}
	} else if builtin {
		var fit func(string) string
		text, fit = c24Variant(c)
		for range 2 + c.IntN(3) {
			s := fit(c24Program(c, 2, 0))
			if c.Chance(25) {
				s = c24spoil(c, s)
			}
			inputs = append(inputs, []piece{{"prog", s, 0}})
		}
		c.Count("layer_parses", 1)
	} else {
		o := confOpts(c)
		o.Conf = c.Chance(70)
		g, a := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30)}, o, func(g *gen.Grammar) bool { return !g.SharedEntry() })
		if c.Chance(60) {
			g.Layers += "@log on();\n"
		}
		text = g.Text()
		for range 2 + c.IntN(3) {
			seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
			if c.Chance(25) {
				seq = mutate(c.Rand, a, seq)
			}
			if len(seq) > 30 || g.NewMatcher(seq).Paths() > 300 {
				continue
			}
			s, spans := gen.Render(c.Rand, seq, gen.RenderOpts{})
			inputs = append(inputs, cutText(c, s, spans, 2))
		}
		if len(inputs) == 0 {
			return
		}
	}
	c.Put("grammar", text)
	c.Put("inputs", fmt.Sprintf("%q", inputs))
	c.Crumb()
	words := []string{"unknown"}
	for _, ps := range inputs {
		for _, x := range ps {
			words = append(words, strings.Fields(x.text)...)
		}
	}
	someLits := func(n int) (lits []string) {
		for range c.IntN(n + 1) {
			lits = append(lits, pick(c.Rand, words))
		}
		return
	}
	lits := someLits(4)
	opts := parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"log": c24layer{"layer", lits}})
	gr, e := langdef.ParseString("grammar", text)
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	before := c24json(c, gr)
	newParser := func() *parser.Parser {
		p, e := parser.New(gr, opts)
		if e != nil {
			c.Fatal("no parser: %v", e)
		}
		return p
	}
	var p *parser.Parser
	var srcs [][]*source.Source
	share := c.Chance(60)
	peeks := c.Chance(40)
	sharedHooks := c24hooks("user", peeks)
	newSources := func() {
		srcs = nil
		for _, ps := range inputs {
			var ss []*source.Source
			for _, x := range ps {
				ss = append(ss, source.New(x.name, []byte(x.text)))
			}
			srcs = append(srcs, ss)
		}
	}
	pos := make([]parser.ParseOption, 0, 2)
	if c.Chance(50) {
		pos = append(pos, parser.WithSides())
	}
	if c.Chance(50) {
		pos = append(pos, parser.WithFullSource())
	}
	var jobs []c24job
	for range 2 + c.IntN(goes) {
		i := c.IntN(len(inputs))
		times := 1 + c.IntN(2)
		base := context.Background()
		hooks := sharedHooks
		if c.Chance(60) {
			hooks = c24hooks("user", peeks, append(someLits(2), pick(c.Rand, words))...)
			c.Count("literal_hooks", 1)
		}
		if c.Chance(40) {
			// the others are left to layers
			hooks.Tokens, hooks.Literals = nil, nil
			if c.Chance(50) {
				hooks.Nodes = nil
			}
			c.Count("few_hooks", 1)
		}
		jobs = append(jobs, c24job{fmt.Sprintf("parse of input %d", i), func(w *c24work) {
			for range times {
				q := source.NewQueue()
				for n, x := range inputs[i] {
					s := srcs[i][n]
					if !share {
						s = source.New(x.name, []byte(x.text))
					}
					q.Append(s)
				}
				res, e := p.Parse(context.WithValue(base, c24key{}, w), q, hooks, pos...)
				w.event("result %v %s, rest %v@%d", res, c24err(e), q.Source() != nil, q.Pos())
			}
		}})
	}
	c24all(c, jobs, 2, func(stage int) {
		if stage < 2 {
			p = newParser()
		}
		newSources()
	})
	c.Count("parses", len(jobs)*4)
	if share {
		c.Count("shared_sources", 1)
	}
	if after := c24json(c, gr); after != before {
		c.Fatal("grammar is modified by parsing")
	}
	// the logs tell whether errors happened
	for _, in := range inputs {
		q := source.NewQueue()
		for _, x := range in {
			q.Append(source.New(x.name, []byte(x.text)))
		}
		if _, e := p.Parse(context.WithValue(bg, c24key{}, &c24work{}), q, parser.Hooks{}, pos...); e != nil {
			c.Count("errors", 1)
			if builtin {
				c.Count("builtin_errors", 1)
			}
		} else if builtin {
			c.Count("builtin_ok", 1)
		}
	}
}

func c24spoil(c *mon.Ctx, s string) string {
	i := c.IntN(len(s) + 1)
	switch c.IntN(3) {
	case 0:
		return s[:i]
	case 1:
		return s[:i] + []string{"?", "@", " stop;", ")", "\n   "}[c.IntN(5)] + s[i:]
	}
	j := i + c.IntN(len(s)-i+1)
	return s[:i] + s[j:]
}

// --- compilations

func c24Compile(c *mon.Ctx) {
	var texts []string
	for range 2 + c.IntN(3) {
		g, _ := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(30)}, confOpts(c), func(g *gen.Grammar) bool { return true })
		t := g.Text()
		if c.Chance(30) {
			t = "$$t = /[a-z]/;\n$tt = $$t " + gen.Quote("'") + ";\n" + t
		}
		if c.Chance(30) {
			t = c24spoil(c, t)
		}
		if c.Chance(20) {
			t, _ = c24Variant(c)
		}
		texts = append(texts, t)
	}
	c.Put("grammars", strings.Join(texts, "\n----\n"))
	c.Crumb()
	opts := parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"log": c24layer{"layer", nil}})
	var shared []*source.Source
	var jobs []c24job
	for range 3 + c.IntN(4) {
		i := c.IntN(len(texts))
		byQueue := c.Chance(40)
		jobs = append(jobs, c24job{fmt.Sprintf("compilation %d", i), func(w *c24work) {
			for range 2 {
				w.pause()
				var g *grammar.Grammar
				var e error
				if byQueue {
					g, e = langdef.Parse(shared[i])
				} else {
					g, e = langdef.ParseString("shared", texts[i])
				}
				w.event("%s", c24err(e))
				if e != nil {
					continue
				}
				w.event("%s", c24json(c, g))
				p, e := parser.New(g, opts)
				w.event("%s", c24err(e))
				if e == nil {
					w.event("%d", len(p.Tokens()))
				}
			}
		}})
	}
	c24all(c, jobs, 1, func(int) {
		shared = nil
		for _, t := range texts {
			shared = append(shared, source.New("shared", []byte(t)))
		}
	})
	c.Count("compilations", len(jobs)*6)
}

// --- layer registry

func c24Registry(c *mon.Ctx) {
	n := 2 + c.IntN(3)
	name := func(i int) string { return fmt.Sprintf("l-%d-%d", c.Idx, i) }
	var gs []*grammar.Grammar
	for i := range n {
		g, e := langdef.ParseString("g", "@"+name(i)+" x();\n$n = /[a-z]+/; root = $n;")
		if e != nil {
			c.Fatal("valid grammar is rejected: %v", e)
		}
		gs = append(gs, g)
	}
	k := 2 + c.IntN(4)
	type reg struct{ name, who int }
	wins := make([][]reg, k)
	bad := make([]string, k)
	var wg sync.WaitGroup
	start := make(chan struct{})
	seeds := make([]uint64, k)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	lost := make([]int, k)
	built := make([]int, k)
	for who := range k {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &c24work{seed: seeds[who], yields: true}
			<-start
			for i := range n {
				if i = (i + int(seeds[who]%uint64(n))) % n; true {
					w.pause()
					e := parser.RegisterHookLayer(name(i), c24layer{fmt.Sprint(who), []string{"abc", fmt.Sprint("x", who)}})
					switch {
					case e == nil:
						wins[who] = append(wins[who], reg{i, who})
					case hx.LLX(e) != nil && hx.LLX(e).Code == parser.LayerRegisteredError:
						lost[who]++
					default:
						bad[who] = "registration: " + e.Error()
					}
					w.pause()
					// registered by somebody by now
					p, e := parser.New(gs[i])
					if e != nil {
						bad[who] = "parser with a registered layer: " + e.Error()
						return
					}
					built[who]++
					w2 := &c24work{}
					if _, e := p.ParseString(context.WithValue(bg, c24key{}, w2), "s", "abc", parser.Hooks{}); e != nil || len(w2.log) == 0 {
						bad[who] = fmt.Sprintf("parse with a registered layer: %v, %d events", e, len(w2.log))
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	won := map[int]int{}
	for who := range k {
		c.Eval()
		if bad[who] != "" {
			c.Fatal("%s", bad[who])
		}
		for _, r := range wins[who] {
			won[r.name]++
		}
		c.Count("lost_registrations", lost[who])
		c.Count("constructions", built[who])
	}
	for i := range n {
		if won[i] != 1 {
			c.Fatal("%d of %d concurrent registrations of the same layer succeeded", won[i], k)
		}
		c.Count("registrations", 1)
	}
}

// --- lexers and positions

func c24Lexer(c *mon.Ctx) {
	var tokens, texts []string
	for range 30 + c.IntN(60) {
		t := pick(c.Rand, []string{"a", "bcd", "12", "+", "é", "длин", "x1"})
		s := pick(c.Rand, []string{" ", "\n", "\n\n", "  \n ", "\r\n"})
		tokens = append(tokens, t)
		texts = append(texts, t+s)
	}
	text := strings.Join(texts, "")
	c.Put("text", text)
	c.Crumb()
	p, e := hx.Compile("!side $s; $s = /\\s+/; $n = /\\pL+\\d*/; $d = /\\d+/; $o = /[+]/;\nroot = {$n | $d | $o}, $;\n")
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	var s *source.Source
	var toks []*lexer.Token
	var jobs []c24job
	for range 2 + c.IntN(5) {
		seed := c.Uint64()
		switch c.IntN(3) {
		case 0:
			jobs = append(jobs, c24job{"positions", func(w *c24work) {
				x := seed
				for range 60 {
					x = x*6364136223846793005 + 1442695040888963407
					i := int(x>>33) % (len(text) + 2)
					l, cc := s.LineCol(i)
					w.event("%d: %d:%d", i, l, cc)
					w.event("%d", s.Pos(l, cc))
				}
			}})
			c.Count("shared_positions", 1)
		case 1:
			jobs = append(jobs, c24job{"tokens", func(w *c24work) {
				x := seed
				for range 60 {
					x = x*6364136223846793005 + 1442695040888963407
					t := toks[int(x>>33)%len(toks)]
					ps := t.Pos()
					l, cc := ps.LineCol()
					w.event("%s %s %d:%d %d", c24tok(t), ps.SourceName(), l, cc, ps.Pos())
				}
			}})
			c.Count("shared_positions", 1)
		default:
			jobs = append(jobs, c24job{"lexing", func(w *c24work) {
				q := source.NewQueue().Append(s)
				var ctx = context.WithValue(bg, c24key{}, w)
				_, e := p.Parse(ctx, q, c24hooks("u", false))
				w.event("%s", c24err(e))
			}})
			c.Count("lexers", 1)
		}
	}
	c24all(c, jobs, 2, func(int) {
		s = source.New("text", []byte(text))
		toks = nil
		hook := func(_ context.Context, t *lexer.Token, _ *parser.TokenContext) (bool, []*lexer.Token, error) {
			toks = append(toks, t)
			return true, nil, nil
		}
		if _, e := p.Parse(bg, source.NewQueue().Append(s), parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}}); e != nil {
			c.Fatal("valid text is rejected: %v", e)
		}
	})
}

// --- trees

func c24Tree(c *mon.Ctx) {
	prog := c24Program(c, 2, 0)
	for strings.HasPrefix(prog, "stop") || strings.Contains(prog, "\nstop") {
		prog = c24Program(c, 2, 0)
	}
	c.Put("program", prog)
	c.Crumb()
	gr, e := langdef.ParseString("grammar", strings.ReplaceAll(c24Grammar, "@log on();", ""))
	if e != nil {
		c.Fatal("valid grammar is rejected: %v", e)
	}
	p, e := parser.New(gr, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"log": c24silent{}}))
	if e != nil {
		c.Fatal("no parser: %v", e)
	}
	sel := tree.NewSelector().DeepSearch(tree.IsA("sum", "call")).Search(tree.IsA("item")).Filter(tree.IsNot(tree.IsALiteral("x")))
	hooks := parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}
	src := source.New("prog", []byte(prog))
	build := func() (tree.Element, error) {
		r, e := p.Parse(bg, source.NewQueue().Append(src), hooks, parser.WithSides())
		if e != nil {
			return nil, e
		}
		return r.(tree.Element), nil
	}
	dump := func(w *c24work, el tree.Element, mode tree.WalkMode) {
		tree.Walk(el, mode, func(s tree.WalkStat) tree.WalkerFlags {
			if s.Element.IsNode() {
				w.event("%d %s", s.Level, s.Element.TypeName())
			} else {
				w.event("%d %s", s.Level, c24tok(s.Element.Token()))
			}
			return 0
		})
	}
	shared, e := build()
	if e != nil {
		// wrong indentation and the like
		c.Count("errors", 1)
		c.Logf("%v", e)
		return
	}
	var jobs []c24job
	for range 2 + c.IntN(5) {
		own := c.Chance(40)
		mode := []tree.WalkMode{tree.WalkLtr, tree.WalkRtl}[c.IntN(2)]
		jobs = append(jobs, c24job{"tree", func(w *c24work) {
			t := shared
			if own {
				var e error
				if t, e = build(); e != nil {
					w.event("%s", c24err(e))
					return
				}
			}
			dump(w, t, mode)
			for _, x := range sel.Apply(t) {
				first, last := tree.FirstTokenElement(x), tree.LastTokenElement(x)
				w.event("%s %s..%s of %d siblings, level %d", x.TypeName(), c24tok(first.Token()), c24tok(last.Token()), len(tree.PrevSiblings(x)), len(tree.Ancestors(x)))
				if n := tree.NextTokenElement(last); n != nil {
					w.event("%s", c24tok(n.Token()))
				}
			}
		}})
	}
	c24all(c, jobs, 2, func(int) {})
	c.Count("shared_tree", 1)
}

type c24silent struct{}

func (l c24silent) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l c24silent) Init(context.Context, *parser.ParseContext) parser.Hooks { return parser.Hooks{} }
