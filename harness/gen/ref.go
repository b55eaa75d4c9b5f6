package gen

import "strings"

// Matcher decides membership, ambiguity, and viable prefixes for one token sequence.
type Matcher struct {
	g    *Grammar
	toks []Tok // including EoiTok at the end
	n    int
	cnt  []int8 // memo: number of non-empty derivations of expr over [i, j), capped at 2; -1 unknown
	via  []int8 // memo: [i, k) is a viable prefix of expr
}

// NewMatcher prepares a matcher for toks (no end-of-input token expected).
func (g *Grammar) NewMatcher(toks []Tok) *Matcher {
	t := make([]Tok, 0, len(toks)+1)
	t = append(t, toks...)
	t = append(t, EoiTok)
	m := &Matcher{g: g, toks: t, n: len(t)}
	sz := len(g.exprs) * (m.n + 1) * (m.n + 1)
	m.cnt = make([]int8, sz)
	m.via = make([]int8, sz)
	for i := range m.cnt {
		m.cnt[i] = -1
		m.via[i] = -1
	}
	return m
}

func (m *Matcher) at(e *Expr, i, j int) int { return (e.Id*(m.n+1)+i)*(m.n+1) + j }

func cap2(x int) int {
	if x > 2 {
		return 2
	}
	return x
}

// seqCount counts derivations of items over [i, j), possibly empty (canonical empty derivation).
func (m *Matcher) seqCount(its []*Expr, i, j int) int {
	if len(its) == 0 {
		if i == j {
			return 1
		}
		return 0
	}
	if i == j {
		for _, e := range its {
			if !m.g.nullable[e.Id] {
				return 0
			}
		}
		return 1
	}
	res := 0
	e := its[0]
	if m.g.nullable[e.Id] {
		res += m.seqCount(its[1:], i, j)
	}
	for k := i + 1; k <= j && res < 2; k++ {
		c := m.Count(e, i, k)
		if c > 0 {
			res += c * m.seqCount(its[1:], k, j)
		}
	}
	return cap2(res)
}

// Count returns number of non-empty derivations of e over [i, j), capped at 2.
func (m *Matcher) Count(e *Expr, i, j int) int {
	if i >= j {
		return 0
	}
	p := m.at(e, i, j)
	if m.cnt[p] >= 0 {
		return int(m.cnt[p])
	}
	m.cnt[p] = 0 // no left recursion, except for dead ends
	r := 0
	switch e.K {
	case KNode:
		r = m.Count(m.g.Node(e.Name), i, j)
	case KTok, KLit, KEoi:
		if j == i+1 && m.g.Match(e, m.toks[i]) {
			r = 1
		}
	case KSeq:
		r = m.seqCount(e.Subs, i, j)
	case KAlt:
		for _, s := range e.Subs {
			r += m.Count(s, i, j)
		}
	case KOpt:
		r = m.Count(e.Subs[0], i, j)
	case KRep:
		r = m.Count(e.Subs[0], i, j)
		for k := i + 1; k < j && r < 2; k++ {
			c := m.Count(e.Subs[0], i, k)
			if c > 0 {
				r += c * m.Count(e, k, j)
			}
		}
	}
	r = cap2(r)
	m.cnt[p] = int8(r)
	return r
}

// Viable returns true if [i, k) is a prefix of some string derived from e (all strings if i == k).
func (m *Matcher) Viable(e *Expr, i, k int) bool {
	if i >= k {
		return true
	}
	p := m.at(e, i, k)
	if m.via[p] >= 0 {
		return m.via[p] == 1
	}
	m.via[p] = 0
	r := false
	switch e.K {
	case KNode:
		r = m.Viable(m.g.Node(e.Name), i, k)
	case KTok, KLit, KEoi:
		r = k == i+1 && m.g.Match(e, m.toks[i])
	case KSeq:
		r = m.seqViable(e.Subs, i, k)
	case KAlt, KOpt:
		for _, s := range e.Subs {
			r = r || m.Viable(s, i, k)
		}
	case KRep:
		r = m.Viable(e.Subs[0], i, k)
		for l := i + 1; l < k && !r; l++ {
			r = m.Count(e.Subs[0], i, l) > 0 && m.Viable(e, l, k)
		}
	}
	if r {
		m.via[p] = 1
	}
	return r
}

func (m *Matcher) seqViable(its []*Expr, i, k int) bool {
	if i >= k {
		return true
	}
	if len(its) == 0 {
		return false
	}
	if m.Viable(its[0], i, k) {
		return true
	}
	if m.g.nullable[its[0].Id] && m.seqViable(its[1:], i, k) {
		return true
	}
	for l := i + 1; l < k; l++ {
		if m.Count(its[0], i, l) > 0 && m.seqViable(its[1:], l, k) {
			return true
		}
	}
	return false
}

// RootCount returns number of derivations of exactly the first k tokens (the end-of-input token may be used as well
// if k is the number of tokens).
func (m *Matcher) RootCount(k int) int {
	root := m.g.Nodes[0].Body
	r := m.Count(root, 0, k)
	if k == 0 && m.g.nullable[root.Id] {
		r++
	}
	if k == m.n-1 {
		r += m.Count(root, 0, m.n)
	}
	return cap2(r)
}

// RootViable returns true if the first k tokens are a viable prefix of some sentence.
func (m *Matcher) RootViable(k int) bool {
	return m.Viable(m.g.Nodes[0].Body, 0, k)
}

// Deriv is a derivation of expression.
type Deriv struct {
	E    *Expr
	I, J int
	Kids []*Deriv // sequence items (nil for those matched nothing), iterations, or the only child
}

func (m *Matcher) seqDerive(its []*Expr, i, j int) []*Deriv {
	if len(its) == 0 || i == j {
		return make([]*Deriv, len(its))
	}
	e := its[0]
	if m.g.nullable[e.Id] && m.seqCount(its[1:], i, j) > 0 {
		return append([]*Deriv{nil}, m.seqDerive(its[1:], i, j)...)
	}
	for k := i + 1; k <= j; k++ {
		if m.Count(e, i, k) > 0 && m.seqCount(its[1:], k, j) > 0 {
			return append([]*Deriv{m.derive(e, i, k)}, m.seqDerive(its[1:], k, j)...)
		}
	}
	return nil
}

func (m *Matcher) derive(e *Expr, i, j int) *Deriv {
	d := &Deriv{E: e, I: i, J: j}
	switch e.K {
	case KNode:
		d.Kids = []*Deriv{m.derive(m.g.Node(e.Name), i, j)}
	case KSeq:
		d.Kids = m.seqDerive(e.Subs, i, j)
	case KAlt:
		for _, s := range e.Subs {
			if m.Count(s, i, j) > 0 {
				d.Kids = []*Deriv{m.derive(s, i, j)}
				break
			}
		}
	case KOpt:
		d.Kids = []*Deriv{m.derive(e.Subs[0], i, j)}
	case KRep:
		for i < j {
			for k := i + 1; k <= j; k++ {
				if m.Count(e.Subs[0], i, k) > 0 && (k == j || m.Count(e, k, j) > 0) {
					d.Kids = append(d.Kids, m.derive(e.Subs[0], i, k))
					i = k
					break
				}
			}
		}
	}
	return d
}

// RootDeriv returns a derivation of the first k tokens, RootCount(k) must be positive.
// Returns nil for empty derivation.
func (m *Matcher) RootDeriv(k int) *Deriv {
	root := m.g.Nodes[0].Body
	if m.Count(root, 0, k) > 0 {
		return m.derive(root, 0, k)
	}
	if k == m.n-1 && m.Count(root, 0, m.n) > 0 {
		return m.derive(root, 0, m.n)
	}
	return nil
}

// Tree is a syntax tree, a token if Node is empty.
type Tree struct {
	Node string
	Tok  int // index of token
	Kids []*Tree
}

// Tree converts derivation to syntax tree of the root node.
func (m *Matcher) Tree(d *Deriv) *Tree {
	t := &Tree{Node: m.g.Nodes[0].Name}
	if d != nil {
		collect(d, t)
	}
	return t
}

func collect(d *Deriv, t *Tree) {
	switch d.E.K {
	case KNode:
		c := &Tree{Node: d.E.Name, Tok: d.I}
		t.Kids = append(t.Kids, c)
		for _, k := range d.Kids {
			collect(k, c)
		}
	case KTok, KLit, KEoi:
		t.Kids = append(t.Kids, &Tree{Tok: d.I})
	default:
		for _, k := range d.Kids {
			if k != nil {
				collect(k, t)
			}
		}
	}
}

// Guaranteed returns true if the given (unique) derivation never needs a choice to be revised after a node or a nested group
// has ended: whenever a node or a group ends, the next token cannot continue it.
func (m *Matcher) Guaranteed(d *Deriv) bool {
	root := m.g.Nodes[0].Body
	j := 0
	if d != nil {
		j = d.J
		if !m.tailsOk(d, false) {
			return false
		}
	}
	return m.nodeEndOk(root, 0, j)
}

func (m *Matcher) nodeEndOk(body *Expr, i, j int) bool {
	return j >= m.n || !m.Viable(body, i, j+1)
}

func (m *Matcher) firstMatches(e *Expr, t Tok) bool {
	for k := range m.g.first[e.Id] {
		if m.termMatches(k, t) {
			return true
		}
	}
	return false
}

func (m *Matcher) termMatches(key string, t Tok) bool {
	var e Expr
	switch {
	case key == "$":
		e.K = KEoi
	case key[0] == '$':
		e.K = KTok
		e.Name = key[1:]
	default:
		e.K = KLit
		e.Name = key[1:]
	}
	return m.g.Match(&e, t)
}

// tailsOk checks all nested groups and nodes of a derivation.
func (m *Matcher) tailsOk(d *Deriv, nested bool) bool {
	switch d.E.K {
	case KNode:
		if !m.nodeEndOk(m.g.Node(d.E.Name), d.I, d.J) {
			return false
		}
	case KSeq:
		if d.J < m.n {
			t := m.toks[d.J]
			for x := len(d.Kids) - 1; x >= 0; x-- {
				if d.Kids[x] != nil {
					if d.E.Subs[x].K == KRep && m.firstMatches(d.E.Subs[x], t) {
						return false
					}
					break
				}
				if m.firstMatches(d.E.Subs[x], t) {
					return false
				}
			}
		}
	case KRep:
		// iteration boundaries inside a repeated group: handled by the sequence it contains
	case KAlt:
		// the chosen variant may be a repeated group itself
		k := d.Kids[0]
		if k.E.K == KRep && d.J < m.n && m.firstMatches(k.E, m.toks[d.J]) {
			return false
		}
	}
	for _, k := range d.Kids {
		if k != nil && !m.tailsOk(k, true) {
			return false
		}
	}
	return true
}

// ValidNode decides if a list of children may belong to given node: used to check reported trees.
// kids: node names (for nodes) or token indexes.
func (m *Matcher) ValidNode(name string, kids []*Tree, allowEmpty bool) bool {
	body := m.g.Node(name)
	n := len(kids)
	if n == 0 {
		return allowEmpty && m.g.nullable[body.Id]
	}
	type key struct{ id, i, j int }
	memo := map[key]bool{}
	var match func(e *Expr, i, j int) bool
	var seq func(its []*Expr, i, j int) bool
	seq = func(its []*Expr, i, j int) bool {
		if len(its) == 0 {
			return i == j
		}
		for k := i; k <= j; k++ {
			if match(its[0], i, k) && seq(its[1:], k, j) {
				return true
			}
		}
		return false
	}
	match = func(e *Expr, i, j int) bool {
		if i == j {
			return m.g.nullable[e.Id]
		}
		kk := key{e.Id, i, j}
		if r, has := memo[kk]; has {
			return r
		}
		r := false
		switch e.K {
		case KNode:
			r = j == i+1 && kids[i].Node == e.Name
		case KTok, KLit, KEoi:
			r = j == i+1 && kids[i].Node == "" && m.g.Match(e, m.toks[kids[i].Tok])
		case KSeq:
			r = seq(e.Subs, i, j)
		case KAlt, KOpt:
			for _, s := range e.Subs {
				r = r || match(s, i, j)
			}
		case KRep:
			r = match(e.Subs[0], i, j)
			for k := i + 1; k < j && !r; k++ {
				r = match(e.Subs[0], i, k) && match(e, k, j)
			}
		}
		memo[kk] = r
		return r
	}
	return match(body, 0, n)
}

// ValidTree checks a whole tree, returns an empty string or a reason.
func (m *Matcher) ValidTree(t *Tree) string {
	var walk func(t *Tree, root bool) string
	walk = func(t *Tree, root bool) string {
		if !m.ValidNode(t.Node, t.Kids, root) {
			return "children of node " + t.Node + " do not match its definition: " + t.String(m.toks)
		}
		for _, k := range t.Kids {
			if k.Node != "" {
				if s := walk(k, false); s != "" {
					return s
				}
			}
		}
		return ""
	}
	return walk(t, true)
}

// String renders a tree.
func (t *Tree) String(toks []Tok) string {
	var b strings.Builder
	var w func(t *Tree)
	w = func(t *Tree) {
		if t.Node == "" {
			if t.Tok < len(toks) {
				b.WriteString(toks[t.Tok].Text)
				if toks[t.Tok] == EoiTok {
					b.WriteString("<eoi>")
				}
			} else {
				b.WriteString("?")
			}
			return
		}
		b.WriteString(t.Node + "(")
		for i, k := range t.Kids {
			if i > 0 {
				b.WriteString(" ")
			}
			w(k)
		}
		b.WriteString(")")
	}
	w(t)
	return b.String()
}

// Paths estimates the number of parallel variants a parser may have to follow: the maximal number of
// (possibly partial) derivations of the same prefix.
func (m *Matcher) Paths() float64 {
	n1 := m.n + 1
	full := make([]float64, len(m.g.exprs)*n1*n1)
	part := make([]float64, len(m.g.exprs)*n1*n1)
	for i := range full {
		full[i] = -1
		part[i] = -1
	}
	var f, p func(e *Expr, i, j int) float64
	var fs, ps func(its []*Expr, i, j int) float64
	f = func(e *Expr, i, j int) float64 {
		if i >= j {
			return 0
		}
		x := m.at(e, i, j)
		if full[x] >= 0 {
			return full[x]
		}
		full[x] = 0
		r := 0.0
		switch e.K {
		case KNode:
			r = f(m.g.Node(e.Name), i, j)
		case KTok, KLit, KEoi:
			if j == i+1 && m.g.Match(e, m.toks[i]) {
				r = 1
			}
		case KSeq:
			r = fs(e.Subs, i, j)
		case KAlt, KOpt:
			for _, s := range e.Subs {
				r += f(s, i, j)
			}
		case KRep:
			r = f(e.Subs[0], i, j)
			for k := i + 1; k < j; k++ {
				if c := f(e.Subs[0], i, k); c > 0 {
					r += c * f(e, k, j)
				}
			}
		}
		full[x] = r
		return r
	}
	fs = func(its []*Expr, i, j int) float64 {
		if len(its) == 0 {
			if i == j {
				return 1
			}
			return 0
		}
		r := 0.0
		if m.g.nullable[its[0].Id] {
			r = fs(its[1:], i, j)
		}
		for k := i + 1; k <= j; k++ {
			if c := f(its[0], i, k); c > 0 {
				r += c * fs(its[1:], k, j)
			}
		}
		return r
	}
	p = func(e *Expr, i, j int) float64 {
		if i >= j {
			return 1
		}
		x := m.at(e, i, j)
		if part[x] >= 0 {
			return part[x]
		}
		part[x] = 0
		r := 0.0
		switch e.K {
		case KNode:
			r = p(m.g.Node(e.Name), i, j)
		case KTok, KLit, KEoi:
			if j == i+1 && m.g.Match(e, m.toks[i]) {
				r = 1
			}
		case KSeq:
			r = ps(e.Subs, i, j)
		case KAlt, KOpt:
			for _, s := range e.Subs {
				r += p(s, i, j)
			}
		case KRep:
			r = p(e.Subs[0], i, j)
			for k := i + 1; k < j; k++ {
				if c := f(e.Subs[0], i, k); c > 0 {
					r += c * p(e, k, j)
				}
			}
		}
		part[x] = r
		return r
	}
	ps = func(its []*Expr, i, j int) float64 {
		if len(its) == 0 {
			return 0
		}
		r := p(its[0], i, j)
		if m.g.nullable[its[0].Id] {
			r += ps(its[1:], i, j)
		}
		for k := i + 1; k < j; k++ {
			if c := f(its[0], i, k); c > 0 {
				r += c * ps(its[1:], k, j)
			}
		}
		return r
	}
	best := 0.0
	for k := 1; k <= m.n; k++ {
		best = max(best, p(m.g.Nodes[0].Body, 0, k))
	}
	return best
}
