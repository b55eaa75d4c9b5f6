// Package gen generates grammar descriptions and inputs, and holds the reference semantics of
// the description language (an independent recogniser working directly on EBNF expressions).
package gen

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// Kind of expression.
type Kind int

const (
	KNode Kind = iota // node reference
	KTok              // token type
	KLit              // literal
	KEoi              // $
	KSeq              // sequence, explicit group if nested
	KAlt              // variants
	KOpt              // [ ], the only child is a sequence
	KRep              // { }, the only child is a sequence
)

// Expr is an EBNF expression.
type Expr struct {
	K    Kind
	Name string
	Subs []*Expr
	Id   int
}

// TokDef is a token type definition.
type TokDef struct {
	Name     string
	Re       string
	Side     bool
	Extern   bool
	Error    bool
	Caseless bool
	NoLit    bool // excluded with !literal
	Group    int  // 0 = default
	Samples  []string
}

// NodeDef is a node definition.
type NodeDef struct {
	Name string
	Body *Expr // KSeq
}

// Grammar is a generated description.
type Grammar struct {
	Toks     []TokDef
	Nodes    []NodeDef
	Listed   []string // literals given in !literal directives
	ListLast bool     // they go after reserved ones
	Reserved []string
	Layers   string
	Extra    string // extra directives
	exprs    []*Expr
	nodeIdx  map[string]int
	toks     map[string]*TokDef
	reserved map[string]bool
	nullable []bool
	first    []map[string]bool
	usesEoi  bool
}

// Tok is a reference token.
type Tok struct {
	Type string
	Text string
}

// EoiTok is the virtual token at the end of input.
var EoiTok = Tok{"-eoi-", ""}

func quote(s string) string {
	if !strings.Contains(s, "'") {
		return "'" + s + "'"
	}
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
	return "\"" + r.Replace(s) + "\""
}

func (e *Expr) render(b *strings.Builder, nested bool) {
	switch e.K {
	case KNode:
		b.WriteString(e.Name)
	case KTok:
		b.WriteString("$" + e.Name)
	case KLit:
		b.WriteString(quote(e.Name))
	case KEoi:
		b.WriteString("$")
	case KSeq:
		if nested {
			b.WriteString("(")
		}
		for i, s := range e.Subs {
			if i > 0 {
				b.WriteString(", ")
			}
			if s.K == KAlt && s.Id%2 == 0 {
				// "a | b, c" is the same as "(a | b), c"
				s.renderAlt(b)
			} else {
				s.render(b, true)
			}
		}
		if nested {
			b.WriteString(")")
		}
	case KAlt:
		b.WriteString("(")
		e.renderAlt(b)
		b.WriteString(")")
	case KOpt:
		b.WriteString("[")
		e.Subs[0].render(b, false)
		b.WriteString("]")
	case KRep:
		b.WriteString("{")
		e.Subs[0].render(b, false)
		b.WriteString("}")
	}
}

func (e *Expr) renderAlt(b *strings.Builder) {
	for i, s := range e.Subs {
		if i > 0 {
			b.WriteString(" | ")
		}
		s.render(b, true)
	}
}

// String renders an expression.
func (e *Expr) String() string {
	var b strings.Builder
	e.render(&b, false)
	return b.String()
}

// TokenPart renders everything but nodes.
func (g *Grammar) TokenPart() string {
	defs, dirs := g.Records()
	return strings.Join(defs, "") + strings.Join(dirs, "") + g.Extra + g.Layers
}

// Records renders token type definitions and directives, a record per item.
func (g *Grammar) Records() (defs, dirs []string) {
	var side, ext, errs, caseless []string
	groups := map[int][]string{}
	lits := []string{}
	hasNoLit := false
	for _, t := range g.Toks {
		if !t.Extern {
			defs = append(defs, fmt.Sprintf("$%s = /%s/;\n", t.Name, strings.ReplaceAll(t.Re, "/", "\\/")))
		}
		if t.Side {
			side = append(side, "$"+t.Name)
		}
		if t.Extern {
			ext = append(ext, "$"+t.Name)
		}
		if t.Error {
			errs = append(errs, "$"+t.Name)
		}
		if t.Caseless {
			caseless = append(caseless, "$"+t.Name)
		}
		if t.Group != 0 {
			groups[t.Group] = append(groups[t.Group], "$"+t.Name)
		}
		if t.NoLit {
			hasNoLit = true
		} else {
			lits = append(lits, "$"+t.Name)
		}
	}
	dir := func(name string, args []string) {
		if len(args) > 0 {
			dirs = append(dirs, fmt.Sprintf("!%s %s;\n", name, strings.Join(args, " ")))
		}
	}
	dir("side", side)
	dir("extern", ext)
	dir("error", errs)
	dir("caseless", caseless)
	gi := []int{}
	for i := range groups {
		gi = append(gi, i)
	}
	sort.Ints(gi)
	for _, i := range gi {
		dir("group", groups[i])
	}
	if hasNoLit {
		dir("literal", lits)
	}
	quoted := func(ss []string) []string {
		r := make([]string, len(ss))
		for i, s := range ss {
			r[i] = quote(s)
		}
		return r
	}
	if !g.ListLast {
		dir("literal", quoted(g.Listed))
	}
	dir("reserved", quoted(g.Reserved))
	if g.ListLast {
		dir("literal", quoted(g.Listed))
	}
	return
}

// NodePart renders node definitions.
func (g *Grammar) NodePart() string {
	var b strings.Builder
	for _, n := range g.Nodes {
		fmt.Fprintf(&b, "%s = %s;\n", n.Name, n.Body)
	}
	return b.String()
}

// Text renders the description.
func (g *Grammar) Text() string { return g.TokenPart() + g.NodePart() }

// Prepare must be called when all fields are filled.
func (g *Grammar) Prepare() {
	g.exprs = nil
	g.nodeIdx = map[string]int{}
	g.toks = map[string]*TokDef{}
	g.reserved = map[string]bool{}
	for i := range g.Toks {
		g.toks[g.Toks[i].Name] = &g.Toks[i]
	}
	for _, r := range g.Reserved {
		g.reserved[r] = true
	}
	g.usesEoi = false
	var walk func(e *Expr)
	walk = func(e *Expr) {
		e.Id = len(g.exprs)
		g.exprs = append(g.exprs, e)
		if e.K == KEoi {
			g.usesEoi = true
		}
		for _, s := range e.Subs {
			walk(s)
		}
	}
	for i, n := range g.Nodes {
		g.nodeIdx[n.Name] = i
		walk(n.Body)
	}
	g.computeNullable()
	g.computeFirst()
}

// Node returns body of named node.
func (g *Grammar) Node(name string) *Expr { return g.Nodes[g.nodeIdx[name]].Body }

// UsesEoi returns true if there is a $ item.
func (g *Grammar) UsesEoi() bool { return g.usesEoi }

// RepeatsEoi returns true if some repeated list may start with $.
func (g *Grammar) RepeatsEoi() bool {
	for _, e := range g.exprs {
		if e.K == KRep && g.first[e.Id][TermKey(&Expr{K: KEoi})] {
			return true
		}
	}
	return false
}

// Exprs returns all expressions.
func (g *Grammar) Exprs() []*Expr { return g.exprs }

func (g *Grammar) computeNullable() {
	// a referenced node always consumes something, so node references are not nullable
	g.nullable = make([]bool, len(g.exprs))
	for i := len(g.exprs) - 1; i >= 0; i-- { // children have higher ids
		e := g.exprs[i]
		r := false
		switch e.K {
		case KOpt, KRep:
			r = true
		case KSeq:
			r = true
			for _, s := range e.Subs {
				r = r && g.nullable[s.Id]
			}
		case KAlt:
			for _, s := range e.Subs {
				r = r || g.nullable[s.Id]
			}
		}
		g.nullable[i] = r
	}
}

// Nullable returns true if e may match nothing.
func (g *Grammar) Nullable(e *Expr) bool { return g.nullable[e.Id] }

// TermKey is a key of terminal in FIRST sets.
func TermKey(e *Expr) string {
	switch e.K {
	case KTok:
		return "$" + e.Name
	case KLit:
		return "'" + e.Name
	case KEoi:
		return "$"
	}
	return ""
}

func (g *Grammar) computeFirst() {
	g.first = make([]map[string]bool, len(g.exprs))
	for i := range g.first {
		g.first[i] = map[string]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(g.exprs) - 1; i >= 0; i-- {
			e := g.exprs[i]
			f := g.first[i]
			n := len(f)
			switch e.K {
			case KNode:
				if ni, has := g.nodeIdx[e.Name]; has {
					for k := range g.first[g.Nodes[ni].Body.Id] {
						f[k] = true
					}
				}
			case KTok, KLit, KEoi:
				f[TermKey(e)] = true
			case KSeq:
				for _, s := range e.Subs {
					for k := range g.first[s.Id] {
						f[k] = true
					}
					if !g.nullable[s.Id] {
						break
					}
				}
			default:
				for _, s := range e.Subs {
					for k := range g.first[s.Id] {
						f[k] = true
					}
				}
			}
			if len(f) != n {
				changed = true
			}
		}
	}
}

// First returns the set of terminals that may start e.
func (g *Grammar) First(e *Expr) map[string]bool { return g.first[e.Id] }

// Productive returns true if all nodes can derive some finite sentence.
func (g *Grammar) Productive() bool {
	prod := make([]bool, len(g.Nodes))
	var p func(e *Expr) bool
	p = func(e *Expr) bool {
		switch e.K {
		case KNode:
			return prod[g.nodeIdx[e.Name]]
		case KTok, KLit, KEoi, KOpt, KRep:
			return true
		case KSeq:
			for _, s := range e.Subs {
				if !p(s) {
					return false
				}
			}
			return true
		default:
			for _, s := range e.Subs {
				if p(s) {
					return true
				}
			}
			return false
		}
	}
	for changed := true; changed; {
		changed = false
		for i, n := range g.Nodes {
			if !prod[i] && p(n.Body) {
				prod[i] = true
				changed = true
			}
		}
	}
	for _, x := range prod {
		if !x {
			return false
		}
	}
	return true
}

// AllUseful returns true if no Opt/Rep/Alt branch is dead, i.e. every node reference is productive.
func (g *Grammar) leftRefs(e *Expr, out map[string]bool) {
	switch e.K {
	case KNode:
		out[e.Name] = true
	case KSeq:
		for _, s := range e.Subs {
			g.leftRefs(s, out)
			if !g.nullable[s.Id] {
				break
			}
		}
	case KAlt, KOpt, KRep:
		for _, s := range e.Subs {
			g.leftRefs(s, out)
		}
	}
}

// LeftRecursive returns true if some node is left-recursive.
func (g *Grammar) LeftRecursive() bool { return len(g.LeftRecursiveNodes()) > 0 }

// LeftRecursiveNodes lists nodes which may start with themselves.
func (g *Grammar) LeftRecursiveNodes() (res []string) {
	refs := map[string]map[string]bool{}
	for _, n := range g.Nodes {
		m := map[string]bool{}
		g.leftRefs(n.Body, m)
		refs[n.Name] = m
	}
	for changed := true; changed; {
		changed = false
		for _, m := range refs {
			for k := range m {
				for kk := range refs[k] {
					if !m[kk] {
						m[kk] = true
						changed = true
					}
				}
			}
		}
	}
	for _, n := range g.Nodes {
		if refs[n.Name][n.Name] {
			res = append(res, n.Name)
		}
	}
	return
}

// Unused returns true if there are nodes which cannot be reached from the root.
func (g *Grammar) Unused() bool { return len(g.UnusedNodes()) > 0 }

// UnusedNodes lists nodes which cannot be reached from the root.
func (g *Grammar) UnusedNodes() (res []string) {
	used := map[string]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.K == KNode && !used[e.Name] {
			used[e.Name] = true
			if i, has := g.nodeIdx[e.Name]; has {
				walk(g.Nodes[i].Body)
			}
		}
		for _, s := range e.Subs {
			walk(s)
		}
	}
	used[g.Nodes[0].Name] = true
	walk(g.Nodes[0].Body)
	for _, n := range g.Nodes {
		if !used[n.Name] {
			res = append(res, n.Name)
		}
	}
	return
}

// Undefined returns true if some node is referenced but not defined.
func (g *Grammar) Undefined() bool { return len(g.UndefinedNodes()) > 0 }

// UndefinedNodes lists nodes which are referenced but not defined.
func (g *Grammar) UndefinedNodes() (res []string) {
	seen := map[string]bool{}
	for _, e := range g.exprs {
		if e.K == KNode && !seen[e.Name] {
			seen[e.Name] = true
			if _, has := g.nodeIdx[e.Name]; !has {
				res = append(res, e.Name)
			}
		}
	}
	return
}

// Valid returns true if the description must be accepted.
func (g *Grammar) Valid() bool {
	return !g.Undefined() && !g.Unused() && g.Productive() && !g.LeftRecursive()
}

// NullableNode returns true if some non-root node may be empty.
func (g *Grammar) NullableNode() bool {
	for i, n := range g.Nodes {
		if i > 0 && g.nullable[n.Body.Id] {
			return true
		}
	}
	return false
}

func items(e *Expr) []*Expr {
	switch e.K {
	case KOpt, KRep:
		return e.Subs[0].Subs
	case KSeq:
		return e.Subs
	}
	return nil
}

// SharedEntry returns true if the grammar belongs to the class of known finding KF1:
// an optional group (or a repeated group made of a single item) containing more than one item on the way
// to a repeated group it starts with.
func (g *Grammar) SharedEntry() bool {
	for _, e := range g.exprs {
		if e.K != KOpt && !(e.K == KRep && len(items(e)) == 1) {
			continue
		}
		multi := false
		cur := e
		for {
			its := items(cur)
			if len(its) == 0 {
				break
			}
			if len(its) > 1 {
				multi = true
			}
			next := its[0]
			if next.K == KRep {
				if multi {
					return true
				}
				if len(items(next)) > 1 {
					break
				}
			}
			cur = next
		}
	}
	return false
}

// Match tells if a terminal matches a token, according to the language description.
func (g *Grammar) Match(e *Expr, t Tok) bool {
	switch e.K {
	case KEoi:
		return t == EoiTok
	case KTok:
		if t.Type != e.Name {
			return false
		}
		td := g.toks[t.Type]
		if td == nil || td.NoLit {
			return true
		}
		return !g.reserved[g.litText(t)]
	case KLit:
		td := g.toks[t.Type]
		return td != nil && !td.NoLit && g.litText(t) == e.Name
	}
	return false
}

func (g *Grammar) litText(t Tok) string {
	if td := g.toks[t.Type]; td != nil && td.Caseless {
		return strings.ToUpper(t.Text)
	}
	return t.Text
}

// TokDef returns definition by name.
func (g *Grammar) TokDef(name string) *TokDef { return g.toks[name] }

// OverlapTerms returns true if some literal in use also matches some token type in use.
func (g *Grammar) OverlapTerms(sampleType func(text string) string) bool {
	types := map[string]bool{}
	for _, e := range g.exprs {
		if e.K == KTok {
			types[e.Name] = true
		}
	}
	for _, e := range g.exprs {
		if e.K == KLit && !g.reserved[e.Name] && types[sampleType(e.Name)] {
			return true
		}
	}
	return false
}

// --- random structure

// Opts controls random expressions.
type Opts struct {
	Terms    []*Expr // terminals to use
	MaxNodes int
	Depth    int
	Width    int
	Eoi      bool // allow $ at the end of root
	EoiAny   int  // percentage of $ among items
	Conf     bool // make variants with common prefixes
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

func clone(e *Expr) *Expr {
	c := &Expr{K: e.K, Name: e.Name}
	for _, s := range e.Subs {
		c.Subs = append(c.Subs, clone(s))
	}
	return c
}

// Clone makes a deep copy.
func Clone(e *Expr) *Expr { return clone(e) }

type builder struct {
	r     *rand.Rand
	o     Opts
	nodes []string
}

func (b *builder) atom() *Expr {
	if len(b.nodes) > 0 && b.r.IntN(100) < 30 {
		return &Expr{K: KNode, Name: pick(b.r, b.nodes)}
	}
	if b.o.EoiAny > 0 && b.r.IntN(100) < b.o.EoiAny {
		return &Expr{K: KEoi}
	}
	return clone(pick(b.r, b.o.Terms))
}

func (b *builder) seq(depth, maxw int) *Expr {
	n := 1 + b.r.IntN(maxw)
	e := &Expr{K: KSeq}
	for range n {
		e.Subs = append(e.Subs, b.item(depth))
	}
	return e
}

func (b *builder) confAlt(depth int) *Expr {
	p := b.seq(depth-1, 3).Subs
	n := 2 + b.r.IntN(2)
	e := &Expr{K: KAlt}
	for range n {
		s := &Expr{K: KSeq}
		cut := len(p)
		if b.r.IntN(3) == 0 {
			cut = 1 + b.r.IntN(len(p))
		}
		for _, x := range p[:cut] {
			s.Subs = append(s.Subs, clone(x))
		}
		for range 1 + b.r.IntN(2) {
			s.Subs = append(s.Subs, b.atom())
		}
		e.Subs = append(e.Subs, s)
	}
	return e
}

func (b *builder) variant(depth int) *Expr {
	if depth <= 0 || b.r.IntN(100) < 55 {
		return b.atom()
	}
	switch b.r.IntN(6) {
	case 0, 1:
		return &Expr{K: KOpt, Subs: []*Expr{b.seq(depth-1, b.o.Width)}}
	case 2, 3:
		return &Expr{K: KRep, Subs: []*Expr{b.seq(depth-1, b.o.Width)}}
	default:
		return b.seq(depth-1, b.o.Width)
	}
}

func (b *builder) item(depth int) *Expr {
	if depth > 0 {
		x := b.r.IntN(100)
		if x < 22 {
			if b.o.Conf && b.r.IntN(100) < 60 {
				return b.confAlt(depth)
			}
			e := &Expr{K: KAlt}
			for range 2 + b.r.IntN(2) {
				e.Subs = append(e.Subs, b.variant(depth-1))
			}
			if b.o.EoiAny > 0 && b.r.IntN(3) == 0 {
				// more variants starting with end of input
				for range 1 + b.r.IntN(2) {
					e.Subs = append(e.Subs, &Expr{K: KEoi})
				}
				b.r.Shuffle(len(e.Subs), func(i, j int) { e.Subs[i], e.Subs[j] = e.Subs[j], e.Subs[i] })
			}
			return e
		}
	}
	return b.variant(depth)
}

// RawNodes fills g.Nodes with random definitions which may be invalid.
func (g *Grammar) RawNodes(r *rand.Rand, o Opts) {
	n := 1 + r.IntN(o.MaxNodes)
	names := []string{"root"}
	for i := 1; i < n; i++ {
		names = append(names, fmt.Sprintf("n%d", i))
	}
	refs := names
	if r.IntN(4) != 0 {
		refs = names[1:]
	}
	if r.IntN(10) == 0 {
		refs = append(append([]string{}, refs...), "undef")
	}
	chain := r.IntN(3) != 0
	g.Nodes = nil
	for i, name := range names {
		b := &builder{r: r, o: o, nodes: refs}
		body := b.seq(o.Depth, o.Width)
		if chain && i+1 < n {
			// make most nodes reachable
			k := r.IntN(len(body.Subs) + 1)
			ref := &Expr{K: KNode, Name: names[i+1]}
			body.Subs = append(body.Subs[:k], append([]*Expr{ref}, body.Subs[k:]...)...)
		}
		g.Nodes = append(g.Nodes, NodeDef{name, body})
	}
	if n > 2 {
		r.Shuffle(n-1, func(i, j int) { g.Nodes[i+1], g.Nodes[j+1] = g.Nodes[j+1], g.Nodes[i+1] })
	}
	g.Prepare()
}

// Unresolved returns true if it cannot be told what some node starts with.
func (g *Grammar) Unresolved() bool { return len(g.UnresolvedNodes()) > 0 }

// UnresolvedNodes lists nodes which can start with nothing.
func (g *Grammar) UnresolvedNodes() (res []string) {
	for _, n := range g.Nodes {
		if len(g.first[n.Body.Id]) == 0 {
			res = append(res, n.Name)
		}
	}
	return
}

// RandomNodes fills g.Nodes, retrying until the description is valid. Returns false if it cannot.
func (g *Grammar) RandomNodes(r *rand.Rand, o Opts, ok func(g *Grammar) bool) bool {
	for range 200 {
		n := 1 + r.IntN(o.MaxNodes)
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("n%d", i)
		}
		names[0] = "root"
		g.Nodes = nil
		for i := range names {
			b := &builder{r: r, o: o, nodes: names[1:]}
			body := b.seq(o.Depth, o.Width)
			if i == 0 {
				// make sure all nodes are used at least sometimes
				for _, nn := range names[1:] {
					if r.IntN(3) == 0 {
						body.Subs = append(body.Subs, &Expr{K: KNode, Name: nn})
					}
				}
				if o.Eoi && r.IntN(4) == 0 {
					switch r.IntN(3) {
					case 0:
						body.Subs = append(body.Subs, &Expr{K: KEoi})
					case 1:
						body.Subs = append(body.Subs, &Expr{K: KAlt, Subs: []*Expr{clone(pick(r, o.Terms)), {K: KEoi}}})
					default:
						body.Subs = append(body.Subs, &Expr{K: KAlt, Subs: []*Expr{{K: KEoi}, b.atom()}})
					}
				}
			}
			g.Nodes = append(g.Nodes, NodeDef{names[i], body})
		}
		if r.IntN(2) == 0 && n > 2 {
			r.Shuffle(n-1, func(i, j int) { g.Nodes[i+1], g.Nodes[j+1] = g.Nodes[j+1], g.Nodes[i+1] })
		}
		g.Prepare()
		if g.Valid() && (ok == nil || ok(g)) {
			return true
		}
	}
	return false
}

// Quote makes a double-quoted literal.
func Quote(s string) string { return quote(s) }
