package gen

import (
	"fmt"
	"math/rand/v2"
)

// ChainNodes fills g.Nodes with a long chain of n nodes, each one starts with (or contains) the next one.
// Links back and forth are added sometimes, so the description may be invalid.
func (g *Grammar) ChainNodes(r *rand.Rand, terms []*Expr, n int, loop bool) {
	name := func(i int) string {
		if i == 0 {
			return "root"
		}
		return fmt.Sprintf("n%d", i)
	}
	term := func() *Expr { return clone(pick(r, terms)) }
	ref := func(i int) *Expr { return &Expr{K: KNode, Name: name(i)} }
	prefixed, suffixed, optional := r.IntN(3), r.IntN(3), r.IntN(3)
	some := func(level int) bool { return level > 0 && r.IntN(100) < []int{0, 3, 40}[level] }
	g.Nodes = nil
	for i := range n {
		body := &Expr{K: KSeq}
		if some(optional) {
			body.Subs = append(body.Subs, &Expr{K: KOpt, Subs: []*Expr{term()}})
		}
		if some(prefixed) {
			body.Subs = append(body.Subs, term())
		}
		if i+1 < n {
			var e *Expr = ref(i + 1)
			if i+2 < n && r.IntN(100) < 4 {
				e = &Expr{K: KAlt, Subs: []*Expr{ref(i + 1), ref(i + 2 + r.IntN(n-i-2))}}
			}
			body.Subs = append(body.Subs, e)
		} else {
			body.Subs = append(body.Subs, term())
		}
		if some(suffixed) {
			body.Subs = append(body.Subs, term())
		}
		g.Nodes = append(g.Nodes, NodeDef{name(i), body})
	}
	if loop {
		// a link back, at the very start of a node or somewhere further
		i := r.IntN(n)
		j := r.IntN(i + 1)
		if j == 0 && n > 1 && r.IntN(2) == 0 {
			i, j = max(i, 1), 1
		}
		body := g.Nodes[i].Body
		back := &Expr{K: KOpt, Subs: []*Expr{ref(j)}}
		k := r.IntN(len(body.Subs) + 1)
		body.Subs = append(body.Subs[:k], append([]*Expr{back}, body.Subs[k:]...)...)
	}
	if n > 2 && r.IntN(2) == 0 {
		r.Shuffle(n-1, func(i, j int) { g.Nodes[i+1], g.Nodes[j+1] = g.Nodes[j+1], g.Nodes[i+1] })
	}
	g.Prepare()
}
