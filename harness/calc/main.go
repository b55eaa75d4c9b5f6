// Command verifmon of the calculator example monitors its results.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/ava12/llx"
	"github.com/ava12/llx/examples/calc/internal"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/parser"
)

func main() {
	mon.Main(&mon.Check{
		ID: "C29",
		Rule: "random sessions of assignments, function definitions and expressions with all operators, nesting, shadowing, redefinition and broken lines (without recursion and names \"func\", see known findings); each line is given to Compute and every 40th session to the built program on its standard input; " +
			"oracle: independent recursive descent parser and direct floating-point evaluation with error bounds; non-trivial: distinct evaluated lines with at least 3 operations or calls",
		Quick: 40000, Thorough: 1000000,
		Need: []string{"values", "assigned", "defined", "unknown_var", "unknown_func", "wrong_args", "dup_arg", "malformed", "incomplete", "calls", "nested_calls", "shadowing", "unary_minus", "powers", "program_sessions", "continued_lines", "not_finite", "folded", "ws"},
		Run:  run,
		Assumptions: []string{"values are compared within the rounding error of any order of operations of equal precedence; results which depend on overflow are not compared",
			"lines in which a function body mentions an argument of its caller (dynamic or lexical scope) are not judged",
			"a minus sign immediately followed by a digit at the start of a value is a part of the number, as in the token definition and existing tests"},
	})
}

// --- reference parser

type expr struct {
	op   string // num var call neg chain+ chain* pow
	num  float64
	name string
	subs []*expr
	ops  []byte
}

type stmt struct {
	kind string // expr assign func
	name string
	args []string
	body *expr
	dup  bool
}

type refErr int

const (
	malformed refErr = iota + 1
	incomplete
)

var (
	numRe  = regexp.MustCompile(`^-?[0-9]+(?:\.[0-9]+)?(?:[Ee]-?[0-9]+)?`)
	nameRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*`)
)

type scanner struct {
	s      string
	i      int
	ops    int
	rangeE bool
}

func (p *scanner) space() {
	for p.i < len(p.s) && strings.IndexByte(" \t\n\r\f", p.s[p.i]) >= 0 {
		p.i++
	}
}

const eof = 0xff // never used in lines

// peek returns the next byte, eof at the end.
func (p *scanner) peek() byte {
	p.space()
	if p.i == len(p.s) {
		return eof
	}
	return p.s[p.i]
}

func (p *scanner) fail() {
	if p.peek() == eof {
		panic(incomplete)
	}
	panic(malformed)
}

func (p *scanner) expect(c byte) {
	if p.peek() != c {
		p.fail()
	}
	p.i++
}

func (p *scanner) name() string {
	p.space()
	s := nameRe.FindString(p.s[p.i:])
	if s == "" {
		p.fail()
	}
	p.i += len(s)
	return s
}

func (p *scanner) expr() *expr {
	e := &expr{op: "chain+"}
	op := byte('+')
	if p.peek() == '-' && numRe.FindString(p.s[p.i:]) == "" {
		p.i++
		op = '-'
	}
	for {
		e.subs = append(e.subs, p.pro())
		e.ops = append(e.ops, op)
		op = p.peek()
		if op != '+' && op != '-' {
			return e
		}
		p.ops++
		p.i++
	}
}

func (p *scanner) pro() *expr {
	e := &expr{op: "chain*"}
	op := byte('*')
	for {
		e.subs = append(e.subs, p.pow())
		e.ops = append(e.ops, op)
		op = p.peek()
		if op != '*' && op != '/' {
			return e
		}
		p.ops++
		p.i++
	}
}

func (p *scanner) pow() *expr {
	x := p.value()
	if p.peek() != '^' {
		return x
	}
	p.ops++
	p.i++
	return &expr{op: "pow", subs: []*expr{x, p.pow()}}
}

func (p *scanner) value() *expr {
	p.space()
	if s := numRe.FindString(p.s[p.i:]); s != "" {
		p.i += len(s)
		f, e := strconv.ParseFloat(s, 64)
		if e != nil {
			p.rangeE = true
		}
		return &expr{op: "num", num: f}
	}
	if p.peek() == '(' {
		p.i++
		x := p.expr()
		p.expect(')')
		return x
	}
	n := p.name()
	if p.peek() != '(' {
		return &expr{op: "var", name: n}
	}
	p.i++
	p.ops++
	e := &expr{op: "call", name: n}
	if p.peek() == ')' {
		p.i++
		return e
	}
	for {
		e.subs = append(e.subs, p.expr())
		if p.peek() == ')' {
			p.i++
			return e
		}
		p.expect(',')
	}
}

// params tries to read the head of a function definition.
func (p *scanner) params() (names []string, ok bool) {
	i := p.i
	defer func() {
		if !ok {
			p.i = i
		}
	}()
	if p.peek() != '(' {
		return
	}
	p.i++
	if p.peek() != ')' {
		for {
			p.space()
			n := nameRe.FindString(p.s[p.i:])
			if n == "" {
				return
			}
			p.i += len(n)
			names = append(names, n)
			if p.peek() != ',' {
				break
			}
			p.i++
		}
	}
	if p.peek() != ')' {
		return
	}
	p.i++
	if p.peek() != '=' {
		return
	}
	p.i++
	return names, true
}

func parseLine(text string) (s *stmt, p *scanner, re refErr) {
	p = &scanner{s: text}
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(refErr)
			if !ok {
				panic(r)
			}
			re = x
		}
	}()
	s = &stmt{kind: "expr"}
	p.space()
	if n := nameRe.FindString(p.s[p.i:]); n != "" {
		i := p.i
		p.i += len(n)
		if p.peek() == '=' {
			p.i++
			s.kind, s.name = "assign", n
		} else if args, ok := p.params(); ok {
			s.kind, s.name, s.args = "func", n, args
			seen := map[string]bool{}
			for _, a := range args {
				s.dup = s.dup || seen[a]
				seen[a] = true
			}
		} else {
			p.i = i
		}
	}
	s.body = p.expr()
	if p.peek() != eof {
		panic(malformed)
	}
	return
}

// --- reference evaluation

// val is a value with a bound of its error; nothing is known about wild values.
type val struct {
	v, tol float64
	wild   bool
}

type fun struct {
	args []string
	body *expr
}

type evalErr int

const (
	unknownVar evalErr = iota + 1
	unknownFunc
	wrongArgs
	recursion
)

type frame struct {
	f    *fun
	args map[string]val
	up   *frame
}

type world struct {
	vars  map[string]val
	funs  map[string]*fun
	steps int
	// properties of the last evaluation
	scoped bool
	causes map[evalErr]bool
	depth  int
	maxd   int
	shadow bool
}

type giveUp struct{}

func (w *world) eval(e *expr, f *frame) val {
	w.steps++
	if w.steps > 3000 {
		panic(giveUp{})
	}
	switch e.op {
	case "num":
		return val{v: e.num}
	case "var":
		if f != nil {
			if v, has := f.args[e.name]; has {
				if _, has := w.vars[e.name]; has {
					w.shadow = true
				}
				return v
			}
			for u := f.up; u != nil; u = u.up {
				if _, has := u.args[e.name]; has {
					w.scoped = true
				}
			}
		}
		v, has := w.vars[e.name]
		if !has {
			w.causes[unknownVar] = true
			return val{wild: true}
		}
		return v
	case "call":
		args := make([]val, len(e.subs))
		for i, s := range e.subs {
			args[i] = w.eval(s, f)
		}
		fn := w.funs[e.name]
		if fn == nil {
			w.causes[unknownFunc] = true
			return val{wild: true}
		}
		if len(args) != len(fn.args) {
			w.causes[wrongArgs] = true
			return val{wild: true}
		}
		for u := f; u != nil; u = u.up {
			if u.f == fn {
				w.causes[recursion] = true
				return val{wild: true}
			}
		}
		nf := &frame{f: fn, args: map[string]val{}, up: f}
		for i, n := range fn.args {
			nf.args[n] = args[i]
		}
		w.depth++
		w.maxd = max(w.maxd, w.depth)
		v := w.eval(fn.body, nf)
		w.depth--
		return v
	case "pow":
		a, b := w.eval(e.subs[0], f), w.eval(e.subs[1], f)
		r := math.Pow(a.v, b.v)
		if a.wild || b.wild || !finite(r) && (a.tol > 0 || b.tol > 0) || !finite(a.v) || !finite(b.v) {
			return val{wild: true}
		}
		if !finite(r) {
			return val{v: r}
		}
		if a.tol == 0 && b.tol == 0 {
			return val{r, math.Abs(r) * 1e-14, false}
		}
		if a.v <= 0 || a.tol > 1e-6*math.Abs(a.v) {
			return val{wild: true}
		}
		rel := math.Abs(b.v)*a.tol/a.v*2 + math.Abs(math.Log(a.v))*b.tol*2 + 1e-14
		if rel > 1e-4 {
			return val{wild: true}
		}
		return val{r, math.Abs(r) * rel, false}
	case "chain+":
		var v, tol, mag float64
		wild := false
		for i, s := range e.subs {
			x := w.eval(s, f)
			wild = wild || x.wild
			if e.ops[i] == '-' {
				v -= x.v
			} else {
				v += x.v
			}
			tol += x.tol
			mag += math.Abs(x.v)
		}
		if len(e.subs) > 1 {
			tol += mag * 1e-15 * float64(len(e.subs))
		}
		if wild || len(e.subs) > 1 && !finite(mag) {
			return val{wild: true}
		}
		return val{v, tol, false}
	case "chain*":
		v := 1.0
		rel, logs, abs := 0.0, 0.0, 0.0
		wild := false
		zero, exactZero := false, false
		for i, s := range e.subs {
			x := w.eval(s, f)
			wild = wild || x.wild
			if len(e.subs) == 1 {
				return x
			}
			if !finite(x.v) {
				wild = true
			}
			if x.v == 0 || x.tol > 1e-3*math.Abs(x.v) {
				zero = true
				if e.ops[i] == '/' || x.tol != 0 {
					wild = true
				}
				exactZero = exactZero || x.tol == 0
			} else {
				rel += x.tol/math.Abs(x.v)*2 + 1e-15
				logs += math.Abs(math.Log2(math.Abs(x.v)))
			}
			if e.ops[i] == '/' {
				v /= x.v
			} else {
				v *= x.v
			}
			abs += math.Abs(x.v)
		}
		if wild || logs > 900 || rel > 1e-3 {
			// a non-zero number divided by literal zero
			if len(e.subs) == 2 && e.ops[1] == '/' && e.subs[0].op == "num" && e.subs[1].op == "num" && e.subs[1].num == 0 && !math.Signbit(e.subs[1].num) {
				return val{v: v}
			}
			return val{wild: true}
		}
		if zero {
			if exactZero {
				return val{v: 0}
			}
			return val{wild: true}
		}
		return val{v, math.Abs(v) * rel, false}
	}
	panic("unknown expression")
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// outcome of a line according to the reference.
type outcome struct {
	fails   bool
	codes   map[int]bool // possible error codes, any if empty
	cont    bool         // incomplete
	v       val
	unknown bool // not judged
	ops     int
	kind    string
}

func (w *world) line(text string) (o outcome, note string) {
	s, p, re := parseLine(text)
	if re != 0 {
		o.fails = true
		o.kind = "malformed"
		if re == incomplete {
			o.cont = true
			o.kind = "incomplete"
		}
		if s != nil && s.dup || p.rangeE {
			o.unknown = true
		}
		return
	}
	o.ops = p.ops
	o.kind = s.kind
	if s.dup {
		return outcome{fails: true, codes: map[int]bool{internal.ArgDefinedError: true}, kind: "dup_arg", unknown: p.rangeE}, ""
	}
	if p.rangeE {
		return outcome{unknown: true, kind: "range"}, ""
	}
	if s.kind == "func" {
		w.funs[s.name] = &fun{s.args, s.body}
		return
	}
	w.scoped, w.shadow, w.causes, w.depth, w.maxd, w.steps = false, false, map[evalErr]bool{}, 0, 0, 0
	o.v = w.eval(s.body, nil)
	if w.causes[recursion] {
		// known finding: the calculator does not survive this
		return outcome{unknown: true, kind: "recursion"}, ""
	}
	if w.scoped {
		return outcome{unknown: true, kind: "scoped"}, ""
	}
	if len(w.causes) > 0 {
		o.fails = true
		o.codes = map[int]bool{}
		for c := range w.causes {
			switch c {
			case unknownVar:
				o.codes[internal.UnknownVarError] = true
				note = "unknown_var"
			case unknownFunc:
				o.codes[internal.UnknownFuncError] = true
				note = "unknown_func"
			case wrongArgs:
				o.codes[internal.WrongArgNumberError] = true
				note = "wrong_args"
			}
		}
		return
	}
	if s.kind == "assign" {
		w.vars[s.name] = o.v
	}
	return
}

// --- generator

type generator struct {
	*mon.Ctx
	pre  string
	init []string
}

// start makes definitions of most names.
func (g *generator) start() {
	for _, n := range "abcd" {
		if g.Chance(85) {
			g.init = append(g.init, fmt.Sprintf("%s%c = %s", g.pre, n, g.num()))
		}
	}
	for _, n := range []string{"f", "g", "h"} {
		if g.Chance(80) {
			a := g.arg()
			e := g.expr(0, []string{a})
			if n != "f" && g.Chance(60) {
				e += "+" + g.pre + string("fg"[g.IntN(2)]) + "(" + g.expr(0, []string{a}) + ")"
			}
			g.init = append(g.init, fmt.Sprintf("%s%s(%s) = %s", g.pre, n, a, e))
		}
	}
}

// prefix makes names unique, even when a character is lost or inserted.
func prefix(n int) string {
	s := fmt.Sprintf("%d", n)
	d := ""
	for i := range s {
		d += strings.Repeat(string('A'+s[i]-'0'), 2) + "z"
	}
	return "v" + d + "_"
}

func (g *generator) global() string { return g.pre + string("abcd"[g.IntN(4)]) }
func (g *generator) fn() string {
	return g.pre + []string{"f", "g", "h", "f", "g", "h", "f", "g", "a", "k"}[g.IntN(10)]
}
func (g *generator) arg() string {
	return []string{"p", "q", "r", "x1", "A_b", g.pre + "a", "P"}[g.IntN(7)]
}

func (g *generator) num() string {
	switch g.IntN(8) {
	case 0:
		return strconv.Itoa(g.IntN(1000))
	case 1:
		return fmt.Sprintf("%d.%02d", g.IntN(20), g.IntN(100))
	case 2:
		return fmt.Sprintf("%de%d", 1+g.IntN(9), g.IntN(4))
	case 3:
		return fmt.Sprintf("%d.5E-%d", g.IntN(9), g.IntN(3))
	case 4:
		return "0"
	default:
		return strconv.Itoa(g.IntN(10))
	}
}

func (g *generator) ws() string {
	switch g.IntN(12) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2, 3, 4:
		return " "
	}
	return ""
}

func (g *generator) expr(depth int, args []string) string {
	var b strings.Builder
	if g.Chance(15) {
		b.WriteString("-" + g.ws())
		if g.Chance(70) {
			b.WriteString(" ")
		}
	}
	n := 1
	for g.Chance(35) && n < 5 {
		n++
	}
	for i := range n {
		if i > 0 {
			b.WriteString(g.ws() + string("+--"[g.IntN(3)]) + g.ws())
		}
		b.WriteString(g.pro(depth, args))
	}
	return b.String()
}

func (g *generator) pro(depth int, args []string) string {
	s := g.pow(depth, args)
	for g.Chance(25) {
		s += g.ws() + string("*/"[g.IntN(2)]) + g.ws() + g.pow(depth, args)
	}
	return s
}

func (g *generator) pow(depth int, args []string) string {
	s := g.value(depth, args)
	for g.Chance(12) {
		s += g.ws() + "^" + g.ws()
		if g.Chance(70) {
			s += strconv.Itoa(g.IntN(4))
		} else {
			s += g.value(depth, args)
		}
	}
	return s
}

func (g *generator) value(depth int, args []string) string {
	k := g.IntN(10)
	switch {
	case depth > 0 && k < 2:
		return "(" + g.ws() + g.expr(depth-1, args) + g.ws() + ")"
	case depth > 0 && k < 4:
		n := g.IntN(4)
		if g.Chance(60) {
			n = 1
		}
		var as []string
		for range n {
			as = append(as, g.ws()+g.expr(depth-1, args)+g.ws())
		}
		f := g.fn()
		if g.Chance(4) {
			f = g.pre + "zz"
		}
		return f + g.ws() + "(" + strings.Join(as, ",") + ")"
	case k < 6 && len(args) > 0:
		return args[g.IntN(len(args))]
	case k < 7:
		if g.Chance(3) {
			return g.pre + "zz"
		}
		return g.global()
	case k == 7 && g.Chance(30):
		return "-" + g.num()
	}
	return g.num()
}

func (g *generator) line() string {
	if len(g.init) > 0 && g.Chance(90) {
		s := g.init[0]
		g.init = g.init[1:]
		return s
	}
	s := ""
	switch k := g.IntN(10); {
	case k < 3:
		s = g.global() + g.ws() + "=" + g.ws() + g.expr(2, nil)
	case k < 5:
		n := 1
		if g.Chance(40) {
			n = g.IntN(4)
		}
		var args []string
		for range n {
			a := g.arg()
			dup := false
			for _, x := range args {
				dup = dup || x == a
			}
			if !dup || g.Chance(20) {
				args = append(args, a)
			}
		}
		s = g.fn() + g.ws() + "(" + g.ws() + strings.Join(args, g.ws()+","+g.ws()) + g.ws() + ")" + g.ws() + "=" + g.ws() + g.expr(2, args)
	default:
		s = g.expr(3, nil)
	}
	if g.Chance(10) { // break it
		b := []byte(s)
		i := g.IntN(len(b))
		switch g.IntN(4) {
		case 0:
			s = string(b[:i])
		case 1:
			s = string(b[:i]) + string(b[i+1:])
		case 2:
			s = string(b[:i]) + string("+-*/^(),= 0a.#"[g.IntN(14)]) + string(b[i:])
		case 3:
			s += []string{")", " 2", "+", "(", " x", ",", "=", "= 2", "^", " - ", "$", "\x00", "é", "."}[g.IntN(14)]
		}
	}
	if g.Chance(15) {
		g.Count("ws", 1)
		s = g.ws() + s + " "
	}
	return s
}

// --- monitor

func close2(got float64, want val, extra float64) bool {
	if math.IsNaN(want.v) {
		return math.IsNaN(got)
	}
	if math.IsInf(want.v, 0) {
		return got == want.v
	}
	return math.Abs(got-want.v) <= want.tol+math.Abs(want.v)*(1e-13+extra)+1e-300
}

func run(c *mon.Ctx) {
	w := &world{vars: map[string]val{}, funs: map[string]*fun{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(giveUp); ok {
				c.Count("too_long", 1)
				return
			}
			panic(r)
		}
	}()
	if c.Idx%40 == 0 {
		program(c, w)
		return
	}
	if c.Idx == 1 {
		knownDefects(c)
	}
	// names are unique for each case: the state of calculator is global
	g := &generator{Ctx: c, pre: prefix(c.Idx)}
	g.start()
	var log []string
	for range 7 + c.IntN(15) {
		text := g.line()
		if strings.ContainsRune(text, 'é') && c.Chance(50) {
			continue
		}
		log = append(log, text)
		c.Put("session", strings.Join(log, "\n"))
		c.Crumb()
		o, note := w.line(text)
		if o.kind == "scoped" {
			c.Count("scoped", 1)
			return
		}
		if o.kind == "recursion" {
			c.Count("recursion_skipped", 1)
			continue
		}
		got, e := internal.Compute(text)
		c.Eval()
		if o.unknown {
			if o.kind == "range" {
				return
			}
			continue
		}
		judge(c, w, text, o, note, got, e)
		if c.Failed() {
			return
		}
	}
	if c.Idx < 4 {
		c.Sample("%s", strings.Join(log, " ; "))
	}
}

func judge(c *mon.Ctx, w *world, text string, o outcome, note string, got float64, e error) {
	if o.fails {
		c.Count(o.kind, 1)
		if note != "" {
			c.Count(note, 1)
		}
		if e == nil {
			c.Fail("%q gives %v, must be an error (%s %s)", text, got, o.kind, note)
			return
		}
		var le *llx.Error
		if !errors.As(e, &le) {
			c.Fail("%q gives error %v (%T)", text, e, e)
			return
		}
		if len(o.codes) > 0 && !o.codes[le.Code] {
			c.Fail("%q gives error %d (%v), expected codes %v", text, le.Code, le, o.codes)
		}
		if o.codes == nil && o.cont != (le.Code == parser.UnexpectedEoiError) {
			c.Fail("%q gives error %v, incomplete: %v", text, le, o.cont)
		}
		return
	}
	if e != nil {
		c.Fail("%q gives error %v, must be %v", text, e, o.v.v)
		return
	}
	switch o.kind {
	case "func":
		c.Count("defined", 1)
		return
	case "assign":
		c.Count("assigned", 1)
	}
	if o.ops >= 3 {
		c.Distinct(text)
	}
	if w.maxd > 0 {
		c.Count("calls", 1)
	}
	if w.maxd > 1 {
		c.Count("nested_calls", 1)
	}
	if w.shadow {
		c.Count("shadowing", 1)
	}
	if strings.Contains(text, "^") {
		c.Count("powers", 1)
	}
	if strings.HasPrefix(strings.TrimSpace(text), "- ") {
		c.Count("unary_minus", 1)
	}
	if strings.ContainsAny(text, "0123456789") && w.maxd > 0 {
		c.Count("folded", 1)
	}
	if o.v.wild {
		c.Count("not_compared", 1)
		return
	}
	if !finite(o.v.v) {
		c.Count("not_finite", 1)
	}
	c.Count("values", 1)
	if !close2(got, o.v, 0) {
		c.Fail("%q gives %v, must be %v (error bound %g)", text, got, o.v.v, o.v.tol)
	}
}

// knownDefects runs inputs of known findings.
func knownDefects(c *mon.Ctx) {
	for _, k := range mon.KnownFindings("C29") {
		for _, in := range k.Inputs {
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BUILD_DIR"), "calc"))
			cmd.Stdin = strings.NewReader(in.Input + "\n")
			out, e := cmd.CombinedOutput()
			if e != nil || !strings.Contains(string(out), in.Expected) {
				c.Known(fmt.Sprintf("%s: %s (%q)", k.Id, k.What, in.Input))
				break
			}
		}
	}
}

// program runs a session in the built calculator.
func program(c *mon.Ctx, w *world) {
	g := &generator{Ctx: c}
	g.start()
	type exchange struct {
		text string
		o    outcome
		cont bool
	}
	var xs []exchange
	var in bytes.Buffer
	prev := ""
	for range 10 + c.IntN(30) {
		text := g.line()
		if c.Chance(12) { // cut in two
			i := c.IntN(len(text) + 1)
			text = text[:i]
		}
		if text == "" || strings.ContainsAny(text, "\n\r") || strings.Contains(text, "help") {
			continue
		}
		whole := text
		if prev != "" {
			whole = prev + "\n" + text
		}
		// a line must not change the state of reference twice
		o, _ := w.line(whole)
		if o.unknown {
			break
		}
		in.WriteString(text + "\n")
		xs = append(xs, exchange{whole, o, o.cont})
		if o.cont {
			prev = whole
			c.Count("continued_lines", 1)
		} else {
			prev = ""
		}
	}
	if c.Chance(70) {
		in.WriteString("\n")
	}
	c.Put("session", in.String())
	c.Crumb()
	cmd := mon.Command(filepath.Join(os.Getenv("VERIF_BUILD_DIR"), "calc"))
	cmd.Stdin = &in
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	done := make(chan error, 1)
	if e := cmd.Start(); e != nil {
		c.Fatal("cannot start the calculator: %v", e)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case e := <-done:
		if e != nil {
			c.Fatal("calculator fails: %v: %s", e, tail(out.String()))
		}
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		c.Fatal("calculator does not finish")
	}
	c.Count("program_sessions", 1)
	text := out.String()
	c.Put("output", text)
	i := strings.Index(text, ">> ")
	if i < 0 {
		c.Fatal("no prompt in %q", text)
	}
	text = text[i:]
	prompt := ">> "
	for _, x := range xs {
		c.Eval()
		if !strings.HasPrefix(text, prompt) {
			c.Fatal("%q: expected prompt %q, got %q", x.text, prompt, text)
		}
		text = text[3:]
		if x.cont {
			prompt = "-> "
			continue
		}
		prompt = ">> "
		// answers may contain several lines only if the input does
		j := strings.Index(text, "\n>> ")
		if k := strings.Index(text, "\n-> "); k >= 0 && (j < 0 || k < j) {
			j = k
		}
		if j < 0 {
			j = len(strings.TrimRight(text, "\n"))
		}
		ans := text[:j]
		text = strings.TrimPrefix(text[j:], "\n")
		switch {
		case x.o.fails:
			if !strings.HasPrefix(ans, " ! ") {
				c.Fatal("%q: answer %q, must be an error", x.text, ans)
			}
		case !strings.HasPrefix(ans, " : "):
			c.Fatal("%q: answer %q, must be %v", x.text, ans, x.o.v.v)
		case x.o.kind != "func" && !x.o.v.wild:
			f, e := strconv.ParseFloat(ans[3:], 64)
			if e != nil || !close2(f, x.o.v, 1e-11) {
				c.Fatal("%q: answer %q, must be %v", x.text, ans, x.o.v.v)
			}
		}
	}
}

func tail(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}
