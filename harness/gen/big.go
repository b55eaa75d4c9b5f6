package gen

import (
	"fmt"
	"math/rand/v2"
)

// BigOpts sets the size of a large grammar.
type BigOpts struct {
	Nodes   int // number of nodes
	Plain   int // number of keywords which choose nothing
	Width   int // items in a sequence
	Depth   int // nesting of groups
	Types   int // number of additional token types (used ones)
	Rep     int // percentage of optional and repeated parts
	Recurse int // percentage of references to nodes
	Any     int // percentage of references which may be recursive, of those in optional parts
}

type bigBuilder struct {
	r    *rand.Rand
	o    BigOpts
	g    *Grammar
	next int
	node int
	lits []string
	toks []string
}

// Word makes the i-th keyword, all lengths from 2 to 5 are used.
func Word(i int) string {
	s := make([]byte, 0, 5)
	for n := i; ; n /= 26 {
		s = append(s, byte('a'+n%26))
		if n < 26 {
			break
		}
	}
	for range 1 + i%3 {
		s = append(s, byte('a'+i%7))
	}
	// the number of significant letters is coded by the last one
	return string(s) + string(byte('p'+i%3+3*min(2, len(s)-1-1-i%3)))
}

func (b *bigBuilder) fresh() *Expr {
	for {
		w := Word(b.next)
		b.next++
		dup := false
		for _, x := range b.lits {
			dup = dup || x == w
		}
		if !dup {
			b.lits = append(b.lits, w)
			return &Expr{K: KLit, Name: w}
		}
	}
}

func (b *bigBuilder) plain() *Expr {
	x := b.r.IntN(b.o.Plain + len(b.toks))
	if x < b.o.Plain {
		return &Expr{K: KLit, Name: b.lits[x]}
	}
	return &Expr{K: KTok, Name: b.toks[x-b.o.Plain]}
}

func (b *bigBuilder) ref(any bool) *Expr {
	lo := b.node + 1
	if any {
		lo = 1
	}
	if lo >= b.o.Nodes {
		return b.plain()
	}
	return &Expr{K: KNode, Name: fmt.Sprintf("n%d", lo+b.r.IntN(b.o.Nodes-lo))}
}

// items makes a sequence of items, the first one is a fresh keyword if it is a variant.
func (b *bigBuilder) seq(depth int, choice, free bool) *Expr {
	e := &Expr{K: KSeq}
	if choice {
		e.Subs = append(e.Subs, b.fresh())
	}
	for range b.r.IntN(b.o.Width + 1) {
		e.Subs = append(e.Subs, b.item(depth, free))
	}
	if len(e.Subs) == 0 {
		e.Subs = append(e.Subs, b.plain())
	}
	return e
}

func (b *bigBuilder) item(depth int, free bool) *Expr {
	if len(b.lits) > 900 {
		depth = 0
	}
	x := b.r.IntN(100)
	switch {
	case depth > 0 && x < b.o.Rep/2:
		return &Expr{K: KOpt, Subs: []*Expr{b.seq(depth-1, true, true)}}
	case depth > 0 && x < b.o.Rep:
		return &Expr{K: KRep, Subs: []*Expr{b.seq(depth-1, true, true)}}
	case depth > 0 && x < b.o.Rep+12:
		e := &Expr{K: KAlt}
		for range 2 + b.r.IntN(b.o.Width+1) {
			s := b.seq(depth-1, true, true)
			if len(s.Subs) == 1 {
				s = s.Subs[0]
			}
			e.Subs = append(e.Subs, s)
		}
		// one of variants ends the recursion
		e.Subs = append(e.Subs, b.fresh())
		return e
	case x < b.o.Rep+12+b.o.Recurse:
		return b.ref(free && b.r.IntN(100) < b.o.Any)
	}
	return b.plain()
}

// Big makes a large grammar where every choice is made by a keyword used only there.
func Big(r *rand.Rand, o BigOpts) (*Grammar, Alphabet) {
	a := Std(r, AlphaOpts{Min: 1, Max: 1})
	a.Terms = nil
	a.Reserved = nil
	b := &bigBuilder{r: r, o: o}
	for range o.Plain {
		b.fresh()
	}
	b.toks = []string{"num", "op", "str", "name"}
	for i := range o.Types {
		t := fmt.Sprintf("typ%d", i)
		a.Toks = append(a.Toks, TokDef{Name: t, Re: fmt.Sprintf("%%%d[A-Z]*%%", i)})
		a.Texts[t] = []string{fmt.Sprintf("%%%dA%%", i), fmt.Sprintf("%%%d%%", i)}
		b.toks = append(b.toks, t)
	}
	a.Texts["name"] = []string{"foo", "q", "zz", "bar"}
	for try := 0; ; try++ {
		g := a.New()
		b.g = g
		b.next, b.lits = o.Plain, b.lits[:o.Plain]
		for i := range o.Nodes {
			b.node = i
			name := fmt.Sprintf("n%d", i)
			if i == 0 {
				name = "root"
			}
			body := b.seq(o.Depth, i > 0, false)
			if i == 0 {
				for j := 1; j < o.Nodes; j++ {
					// make all nodes reachable
					body.Subs = append(body.Subs, &Expr{K: KOpt, Subs: []*Expr{{K: KSeq, Subs: []*Expr{b.fresh(), {K: KNode, Name: fmt.Sprintf("n%d", j)}}}}})
				}
				body = &Expr{K: KSeq, Subs: []*Expr{{K: KRep, Subs: []*Expr{{K: KSeq, Subs: append([]*Expr{b.fresh()}, body.Subs...)}}}, b.plain()}}
			}
			g.Nodes = append(g.Nodes, NodeDef{name, body})
		}
		g.Reserved = append([]string{}, b.lits...)
		g.Prepare()
		if try > 20 || g.Valid() && !g.SharedEntry() && g.LL1() {
			a.Reserved = g.Reserved
			for _, l := range b.lits {
				a.Terms = append(a.Terms, &Expr{K: KLit, Name: l})
			}
			for _, t := range b.toks {
				a.Terms = append(a.Terms, &Expr{K: KTok, Name: t})
			}
			if try > 20 {
				return nil, a
			}
			return g, a
		}
	}
}

const longNode = "long"

func cloneExpr(e *Expr) *Expr {
	c := &Expr{K: e.K, Name: e.Name}
	for _, s := range e.Subs {
		c.Subs = append(c.Subs, cloneExpr(s))
	}
	return c
}

// Conflict makes a pair of grammars of the same language out of the grammar made by Big. Variants of the first one
// differ in the last token only, the other one is predictive. The function converts trees of the second grammar.
func Conflict(r *rand.Rand, g *Grammar, a Alphabet) (*Grammar, *Grammar, func(*Tree, []Tok) *Tree) {
	body := cloneExpr(g.Nodes[0].Body)
	body.Subs = append([]*Expr{cloneExpr(body.Subs[len(body.Subs)-1])}, body.Subs...)
	x := pick(r, []string{longNode, longNode, "x"})
	ref, conf := a.New(), a.New()
	nodes := append([]NodeDef{{x, body}}, g.Nodes[1:]...)
	ends, vars := &Expr{K: KAlt}, &Expr{K: KAlt}
	kind := map[string]int{}
	name := map[string]string{}
	var own []NodeDef
	shared := false
	total := 2 + r.IntN(4)
	for i := range total {
		end := fmt.Sprintf("end%c", 'a'+i)
		ends.Subs = append(ends.Subs, &Expr{K: KLit, Name: end})
		k := r.IntN(5)
		if i == total-1 && !shared && k != 0 && k != 2 {
			k = 2 * r.IntN(2)
		}
		shared = shared || k == 0 || k == 2
		kind[end] = k
		n := fmt.Sprintf("v%d", i)
		name[end] = n
		nx := &Expr{K: KNode, Name: x}
		lit := &Expr{K: KLit, Name: end}
		copied := cloneExpr(body)
		switch k {
		case 0: // a node having a shared part
			own = append(own, NodeDef{n, &Expr{K: KSeq, Subs: []*Expr{nx, lit}}})
		case 1: // a node having its own copy
			copied.Subs = append(copied.Subs, lit)
			own = append(own, NodeDef{n, copied})
		case 2: // a shared node in a group
			vars.Subs = append(vars.Subs, &Expr{K: KSeq, Subs: []*Expr{nx, lit}})
		case 3: // its own copy in a group
			copied.Subs = append(copied.Subs, lit)
			vars.Subs = append(vars.Subs, copied)
		default: // a node having its own node
			own = append(own, NodeDef{n, &Expr{K: KSeq, Subs: []*Expr{{K: KNode, Name: n + "x"}, lit}}}, NodeDef{n + "x", copied})
		}
		if k != 2 && k != 3 {
			vars.Subs = append(vars.Subs, &Expr{K: KNode, Name: n})
		}
		ref.Reserved = append(ref.Reserved[:len(ref.Reserved):len(ref.Reserved)], end)
	}
	r.Shuffle(len(vars.Subs), func(i, j int) { vars.Subs[i], vars.Subs[j] = vars.Subs[j], vars.Subs[i] })
	conf.Reserved = ref.Reserved
	stmt := &Expr{K: KSeq, Subs: []*Expr{{K: KNode, Name: x}, ends}}
	root, croot := stmt, &Expr{K: KSeq, Subs: []*Expr{vars}}
	if r.IntN(3) != 0 {
		root = &Expr{K: KSeq, Subs: []*Expr{{K: KRep, Subs: []*Expr{stmt}}}}
		croot = &Expr{K: KSeq, Subs: []*Expr{{K: KRep, Subs: []*Expr{croot}}}}
	}
	for _, n := range nodes {
		ref.Nodes = append(ref.Nodes, NodeDef{n.Name, cloneExpr(n.Body)})
	}
	ref.Nodes = append([]NodeDef{{"root", root}}, ref.Nodes...)
	conf.Nodes = append([]NodeDef{{"root", croot}}, append(own, nodes...)...)
	for i, n := range conf.Nodes {
		conf.Nodes[i].Body = cloneExpr(n.Body)
	}
	ref.Prepare()
	conf.Prepare()
	return conf, ref, func(t *Tree, toks []Tok) *Tree {
		res := &Tree{Node: t.Node, Tok: t.Tok}
		for i := 0; i+1 < len(t.Kids); i += 2 {
			sub, end := t.Kids[i], t.Kids[i+1]
			text := toks[end.Tok].Text
			switch kind[text] {
			case 0:
				res.Kids = append(res.Kids, &Tree{Node: name[text], Tok: sub.Tok, Kids: []*Tree{sub, end}})
			case 1:
				res.Kids = append(res.Kids, &Tree{Node: name[text], Tok: sub.Tok, Kids: append(sub.Kids, end)})
			case 2:
				res.Kids = append(res.Kids, sub, end)
			case 3:
				res.Kids = append(append(res.Kids, sub.Kids...), end)
			default:
				sub.Node = name[text] + "x"
				res.Kids = append(res.Kids, &Tree{Node: name[text], Tok: sub.Tok, Kids: []*Tree{sub, end}})
			}
		}
		return res
	}
}

// BigSentence makes a sentence of a large grammar; deep makes recursion preferred.
func (g *Grammar) BigSentence(r *rand.Rand, a Alphabet, size, maxDepth int, deep bool) []Tok {
	ml := g.minLens()
	var out []Tok
	var ex func(e *Expr, depth int)
	// nodes which can contain themselves
	reach := map[string]map[string]bool{}
	for _, n := range g.Nodes {
		m := map[string]bool{}
		var refs func(e *Expr)
		refs = func(e *Expr) {
			if e.K == KNode && !m[e.Name] {
				m[e.Name] = true
				refs(g.Node(e.Name))
			}
			for _, s := range e.Subs {
				refs(s)
			}
		}
		if deep {
			refs(n.Body)
		}
		reach[n.Name] = m
	}
	loops := map[string]bool{}
	for n, m := range reach {
		for k := range m {
			loops[n] = loops[n] || reach[k][k]
		}
	}
	hasNode := map[int]int{} // 1 - yes, 2 - no
	var contains func(e *Expr) bool
	contains = func(e *Expr) bool {
		if v := hasNode[e.Id]; v != 0 {
			return v == 1
		}
		v := 2
		if e.K == KNode && loops[e.Name] {
			v = 1
		}
		for _, s := range e.Subs {
			if contains(s) {
				v = 1
			}
		}
		hasNode[e.Id] = v
		return v == 1
	}
	ex = func(e *Expr, depth int) {
		low := len(out) >= size || depth > maxDepth
		switch e.K {
		case KNode:
			if e.Name == longNode {
				ex(g.Node(e.Name), depth)
				return
			}
			ex(g.Node(e.Name), depth+1)
		case KTok, KLit:
			out = append(out, a.TokFor(r, e))
		case KSeq:
			for _, s := range e.Subs {
				ex(s, depth)
			}
		case KAlt:
			best, c := inf, []*Expr{}
			for _, s := range e.Subs {
				best = min(best, ml[s.Id])
			}
			for _, s := range e.Subs {
				if low && ml[s.Id] == best || !low && (!deep || contains(s)) {
					c = append(c, s)
				}
			}
			if len(c) == 0 {
				c = e.Subs
			}
			ex(pick(r, c), depth)
		case KOpt:
			if !low && (r.IntN(2) == 0 || deep && contains(e)) {
				ex(e.Subs[0], depth)
			}
		case KRep:
			n := r.IntN(4)
			if deep {
				n = 1
			}
			if depth == 0 {
				n = size
			}
			for i := 0; i < n && len(out) < size && depth <= maxDepth; i++ {
				ex(e.Subs[0], depth)
			}
		}
	}
	ex(g.Nodes[0].Body, 0)
	return out
}

// LLParse is a predictive parser for LL(1) grammars having no $ items. Returns the tree and the number of consumed tokens,
// or nil and the index of the first token which cannot be a part of the root node. All literals must be reserved.
func (g *Grammar) LLParse(toks []Tok) (*Tree, int) {
	i := 0
	starts := func(e *Expr) bool {
		if i >= len(toks) {
			return false
		}
		t := toks[i]
		if g.reserved[t.Text] {
			return g.first[e.Id]["'"+t.Text]
		}
		return g.first[e.Id][TermKey(&Expr{K: KTok, Name: t.Type})]
	}
	var ex func(e *Expr, t *Tree) bool
	ex = func(e *Expr, t *Tree) bool {
		switch e.K {
		case KNode:
			c := &Tree{Node: e.Name, Tok: i}
			if !ex(g.Node(e.Name), c) {
				return false
			}
			t.Kids = append(t.Kids, c)
		case KTok, KLit:
			if i >= len(toks) || !g.Match(e, toks[i]) {
				return false
			}
			t.Kids = append(t.Kids, &Tree{Tok: i})
			i++
		case KSeq:
			for _, s := range e.Subs {
				if !ex(s, t) {
					return false
				}
			}
		case KAlt:
			for _, s := range e.Subs {
				if starts(s) {
					return ex(s, t)
				}
			}
			return g.nullable[e.Id]
		case KOpt:
			if starts(e) {
				return ex(e.Subs[0], t)
			}
		case KRep:
			for starts(e) {
				if !ex(e.Subs[0], t) {
					return false
				}
			}
		}
		return true
	}
	t := &Tree{Node: g.Nodes[0].Name}
	if !ex(g.Nodes[0].Body, t) {
		return nil, i
	}
	return t, i
}
