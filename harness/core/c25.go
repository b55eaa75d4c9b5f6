package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

func init() {
	register(&mon.Check{
		ID: "C25",
		Rule: "random sequences of all editing functions over a pool of node, token and foreign elements (moves within and between trees, wrapping, unwrapping, parentless siblings, nil and foreign arguments), up to 400 elements and 1000 operations in large cases; " +
			"after each operation all links of all elements are compared with nested lists; non-trivial: distinct sequences ending with at least 5 linked elements",
		Quick: 300000, Thorough: 6000000,
		Need: []string{"add_child", "remove_child", "remove_foreign", "detach", "detach_root", "append_child", "append_sibling", "prepend_sibling", "replace", "replace_nil", "moved_between", "swapped_neighbours", "parentless", "unwrapped", "built", "self", "noop_before", "big_cases", "alien_nodes"},
		Run:  runC25,
	})
	register(&mon.Check{
		ID: "C26",
		Rule: "random trees (up to 1500 elements, more than a thousand levels in large cases) with empty nodes walked in both directions with random stop and skip answers, token queries for every element, random selectors made of all combinators; " +
			"everything is compared with recursive definitions over nested lists; non-trivial: distinct trees of at least 5 elements",
		Quick: 150000, Thorough: 3000000,
		Need: []string{"walks", "stops", "skip_children", "skip_siblings", "skip_both", "rtl", "inner_roots", "token_queries", "empty_nodes", "selectors", "selected", "duplicates_removed", "nested_combinators", "search", "deep_search", "big_cases", "large_selections", "alien_nodes"},
		Run:  runC26,
	})
	register(&mon.Check{
		ID: "C27",
		Rule: "trees built by tree.NodeHook for accepted random texts (also cut into several sources), with and without side tokens; texts of token elements joined from left to right are compared with the text, structure with a recorder of node events, " +
			"initial tokens with first non-side descendants, links with child lists; non-trivial: distinct (grammar, text) with at least 3 nodes",
		Quick: 12000, Thorough: 300000,
		Need: []string{"big_parses", "wide_grammars", "trees", "with_sides", "until_eoi", "lasted_until_end", "leading_sides", "inner_sides", "several_sources", "empty_roots", "nested"},
		Run:  runC27,
	})
}

// --- models

// el is a model of an element.
type el struct {
	id     int
	e      tree.Element
	isNode bool
	name   string
	tok    *lexer.Token
	up     *el  // parent
	row    *row // siblings, the element itself included
	kids   *row // children of a node
	first  *el  // unused for tokens
	inRows bool
}

type row struct {
	owner *el
	els   []*el
}

func (r *row) index(x *el) int {
	for i, y := range r.els {
		if y == x {
			return i
		}
	}
	return -1
}

func (x *el) root() *el {
	for x.up != nil {
		x = x.up
	}
	return x
}

// within tells if x is y or its descendant.
func (x *el) within(y *el) bool {
	for ; x != nil; x = x.up {
		if x == y {
			return true
		}
	}
	return false
}

// alone moves the element to its own list.
func (x *el) alone() {
	i := x.row.index(x)
	x.row.els = append(append([]*el{}, x.row.els[:i]...), x.row.els[i+1:]...)
	x.up = nil
	x.row = &row{els: []*el{x}}
}

// insert puts a lonely element to a list.
func (x *el) insert(r *row, i int) {
	r.els = append(append(append([]*el{}, r.els[:i]...), x), r.els[i:]...)
	x.row = r
	x.up = r.owner
}

func (x *el) label() string {
	if x == nil {
		return "nil"
	}
	return fmt.Sprintf("%s%d", x.name, x.id)
}

func (x *el) String() string {
	if !x.isNode {
		return x.label()
	}
	var ss []string
	for _, k := range x.kids.els {
		ss = append(ss, k.String())
	}
	return x.label() + "(" + strings.Join(ss, " ") + ")"
}

// alien is an implementation of token element made by a user of the library.
type alien struct {
	p    tree.NodeElement
	a, b tree.Element
	t    *lexer.Token
}

func (a *alien) IsNode() bool                 { return false }
func (a *alien) TypeName() string             { return a.t.TypeName() }
func (a *alien) Token() *lexer.Token          { return a.t }
func (a *alien) Parent() tree.NodeElement     { return a.p }
func (a *alien) Prev() tree.Element           { return a.a }
func (a *alien) Next() tree.Element           { return a.b }
func (a *alien) SetParent(p tree.NodeElement) { a.p = p }
func (a *alien) SetPrev(e tree.Element)       { a.a = e }
func (a *alien) SetNext(e tree.Element)       { a.b = e }

// alienNode is an implementation of node element made by a user of the library, it keeps a list of children.
type alienNode struct {
	alien
	name string
	kids []tree.Element
}

func (a *alienNode) IsNode() bool     { return true }
func (a *alienNode) TypeName() string { return a.name }
func (a *alienNode) index(e tree.Element) int {
	return slices.Index(a.kids, e)
}
func (a *alienNode) FirstChild() tree.Element {
	if len(a.kids) == 0 {
		return nil
	}
	return a.kids[0]
}
func (a *alienNode) LastChild() tree.Element {
	if len(a.kids) == 0 {
		return nil
	}
	return a.kids[len(a.kids)-1]
}
func (a *alienNode) AddChild(e, before tree.Element) {
	i := len(a.kids)
	if before != nil {
		i = a.index(before)
	}
	if e == nil || i < 0 {
		return
	}
	e.SetParent(a)
	e.SetPrev(nil)
	e.SetNext(nil)
	if i > 0 {
		e.SetPrev(a.kids[i-1])
		a.kids[i-1].SetNext(e)
	}
	if i < len(a.kids) {
		e.SetNext(a.kids[i])
		a.kids[i].SetPrev(e)
	}
	a.kids = slices.Insert(a.kids, i, e)
}
func (a *alienNode) RemoveChild(e tree.Element) {
	i := -1
	if e != nil {
		i = a.index(e)
	}
	if i < 0 {
		return
	}
	prev, next := e.Prev(), e.Next()
	e.SetParent(nil)
	e.SetPrev(nil)
	e.SetNext(nil)
	if prev != nil {
		prev.SetNext(next)
	}
	if next != nil {
		next.SetPrev(prev)
	}
	a.kids = slices.Delete(a.kids, i, i+1)
}

var typeNames = []string{"a", "b", "c", "d"}

func newEl(c *mon.Ctx, id int, nodePct int, made []*el) *el {
	x := &el{id: id, name: pick(c.Rand, typeNames)}
	var like *el // has the same token
	if len(made) > 0 && c.Chance(25) {
		like = pick(c.Rand, made)
	}
	if c.Chance(nodePct) {
		x.isNode = true
		if c.Chance(50) {
			x.tok = lexer.NewToken(1, "t", []byte("tt"), source.Pos{})
		}
		if like != nil {
			x.tok = like.tok
		}
		x.e = tree.NewNodeElement(x.name, x.tok)
		if c.Chance(25) {
			x.e = &alienNode{alien: alien{t: x.tok}, name: x.name}
			c.Count("alien_nodes", 1)
		}
		x.kids = &row{owner: x}
	} else {
		x.tok = lexer.NewToken(2, x.name, []byte(pick(c.Rand, []string{"", "x", "y", "a"})), source.Pos{})
		if like != nil && !like.isNode {
			x.tok, x.name = like.tok, like.name
		}
		if c.Chance(25) {
			x.e = &alien{t: x.tok}
		} else {
			x.e = tree.NewTokenElement(x.tok)
		}
	}
	x.row = &row{els: []*el{x}}
	return x
}

func (x *el) node() tree.NodeElement { return x.e.(tree.NodeElement) }

// pool is a set of elements together with their models.
type pool struct {
	els   []*el
	index map[tree.Element]*el
	kept  [][]*el          // lists kept by user extractors
	lists [][]tree.Element // the same
}

// keep makes a list parts of which are returned by user extractors.
func (p *pool) keep(c *mon.Ctx) (es []tree.Element, xs []*el) {
	for range 1 + c.IntN(8) {
		x := pick(c.Rand, p.els)
		xs, es = append(xs, x), append(es, x.e)
	}
	p.kept, p.lists = append(p.kept, xs), append(p.lists, es)
	c.Count("kept_lists", 1)
	return
}

// checkKept says whether kept lists are changed.
func (p *pool) checkKept() string {
	for i, xs := range p.kept {
		if a, b := p.names(p.lists[i]), labels(xs); a != b {
			return fmt.Sprintf("the list (%s) kept by an extractor is changed to (%s)", b, a)
		}
	}
	return ""
}

func newPool(c *mon.Ctx, n, nodePct int) *pool {
	p := &pool{index: map[tree.Element]*el{}}
	for i := range n {
		x := newEl(c, i, nodePct, p.els)
		p.els = append(p.els, x)
		p.index[x.e] = x
	}
	return p
}

func (p *pool) name(e tree.Element) string {
	if e == nil {
		return "nil"
	}
	if x := p.index[e]; x != nil {
		return x.label()
	}
	return "unknown element"
}

// check compares all links with the model.
func (p *pool) check() string {
	same := func(got tree.Element, want *el) bool {
		if want == nil {
			return got == nil
		}
		return got == want.e
	}
	for _, x := range p.els {
		i := x.row.index(x)
		var prev, next *el
		if i > 0 {
			prev = x.row.els[i-1]
		}
		if i < len(x.row.els)-1 {
			next = x.row.els[i+1]
		}
		if got := x.e.Prev(); !same(got, prev) {
			return fmt.Sprintf("previous sibling of %s is %s, not %s", x.label(), p.name(got), prev.label())
		}
		if got := x.e.Next(); !same(got, next) {
			return fmt.Sprintf("next sibling of %s is %s, not %s", x.label(), p.name(got), next.label())
		}
		pa := x.e.Parent()
		if x.up == nil && pa != nil || x.up != nil && pa != x.up.e {
			return fmt.Sprintf("parent of %s is wrong, must be %s", x.label(), x.up.label())
		}
		if x.e.Token() != x.tok || x.e.TypeName() != x.name || x.e.IsNode() != x.isNode {
			return fmt.Sprintf("contents of %s changed", x.label())
		}
		kids := tree.Children(x.e)
		if !x.isNode {
			if kids != nil {
				return fmt.Sprintf("token %s has children", x.label())
			}
			continue
		}
		var first, last *el
		if n := len(x.kids.els); n > 0 {
			first, last = x.kids.els[0], x.kids.els[n-1]
		}
		if got := x.node().FirstChild(); !same(got, first) {
			return fmt.Sprintf("first child of %s is %s, not %s", x.label(), p.name(got), first.label())
		}
		if got := x.node().LastChild(); !same(got, last) {
			return fmt.Sprintf("last child of %s is %s, not %s", x.label(), p.name(got), last.label())
		}
	}
	// links of siblings are right, so lists are finite
	for _, x := range p.els {
		if x.isNode {
			kids := tree.Children(x.e)
			if len(kids) != len(x.kids.els) {
				return fmt.Sprintf("%s has %d children, not %d", x.label(), len(kids), len(x.kids.els))
			}
			for i, k := range kids {
				if k != x.kids.els[i].e {
					return fmt.Sprintf("child %d of %s is %s, not %s", i, x.label(), p.name(k), x.kids.els[i].label())
				}
			}
		}
	}
	return ""
}

// --- C25

func runC25(c *mon.Ctx) {
	n, ops := 3+c.IntN(12)+c.IntN(2)*c.IntN(25), 40
	nodePct := 45
	if c.Idx%1000 == 7 {
		n, ops = logInt(c, 40, 400), logInt(c, 40, 1000)
		nodePct = pick(c.Rand, []int{2, 45, 95})
		c.Count("big_cases", 1)
	}
	p := newPool(c, n, nodePct)
	var nodes []*el
	for _, x := range p.els {
		if x.isNode {
			nodes = append(nodes, x)
		}
	}
	if len(nodes) == 0 {
		return
	}
	deep := c.Chance(50)
	var log []string
	if c.Chance(20) {
		c25Build(c, p)
	}
	for range 5 + c.IntN(ops) {
		x := pick(c.Rand, p.els)
		y := pick(c.Rand, p.els)
		if c.Chance(30) { // relatives are more interesting
			switch {
			case len(x.row.els) > 1 && c.Chance(60):
				y = pick(c.Rand, x.row.els)
			case x.isNode && len(x.kids.els) > 0:
				y = pick(c.Rand, x.kids.els)
			case x.up != nil:
				y = pick(c.Rand, x.up.row.els)
			}
		}
		node := pick(c.Rand, nodes)
		step := ""
		note := func(f string, args ...any) {
			step = fmt.Sprintf(f, args...)
			log = append(log, step)
			c.Put("operations", strings.Join(log, "\n"))
		}
		moved := func(n *el, to *row) {
			if n.up != nil && n.up != to.owner {
				c.Count("moved_between", 1)
			}
		}
		k := c.IntN(9)
		if ops > 40 && c.Chance(75) {
			k = 3
			switch {
			case deep && nodes[len(nodes)-1].up == nil:
				for node = nodes[0]; len(node.kids.els) > 0 && node.kids.els[len(node.kids.els)-1].isNode; {
					node = node.kids.els[len(node.kids.els)-1]
				}
				for range 5 {
					if !x.isNode || x.up != nil {
						x = pick(c.Rand, p.els)
					}
				}
			case c.Chance(80):
				node = nodes[0]
			}
		}
		switch k {
		case 0: // AddChild of a detached element
			for range 5 {
				if len(x.row.els) > 1 || x.up != nil || node.within(x) {
					x = pick(c.Rand, p.els)
				}
			}
			if len(x.row.els) > 1 || x.up != nil || node.within(x) {
				continue
			}
			var before *el
			if len(node.kids.els) > 0 && c.Chance(70) {
				before = pick(c.Rand, node.kids.els)
			} else if c.Chance(20) {
				before = y
			}
			if before == nil {
				note("%s.AddChild(%s, nil)", node.label(), x.label())
				node.node().AddChild(x.e, nil)
				x.insert(node.kids, len(node.kids.els))
			} else {
				note("%s.AddChild(%s, %s)", node.label(), x.label(), before.label())
				node.node().AddChild(x.e, before.e)
				if before.up == node {
					x.insert(node.kids, node.kids.index(before))
				} else {
					c.Count("noop_before", 1)
				}
			}
			c.Count("add_child", 1)
		case 1:
			if len(node.kids.els) > 0 && c.Chance(70) {
				x = pick(c.Rand, node.kids.els)
			}
			note("%s.RemoveChild(%s)", node.label(), x.label())
			node.node().RemoveChild(x.e)
			if x.up == node {
				x.alone()
				c.Count("remove_child", 1)
			} else {
				c.Count("remove_foreign", 1)
			}
		case 2:
			if c.Chance(60) {
				continue
			}
			note("Detach(%s)", x.label())
			tree.Detach(x.e)
			if x.up == nil && len(x.row.els) == 1 {
				c.Count("detach_root", 1)
			}
			x.alone()
			c.Count("detach", 1)
		case 3:
			if node.within(x) {
				continue
			}
			note("AppendChild(%s, %s)", node.label(), x.label())
			moved(x, node.kids)
			tree.AppendChild(node.node(), x.e)
			x.alone()
			x.insert(node.kids, len(node.kids.els))
			c.Count("append_child", 1)
		case 4, 5:
			if x != y && x.within(y) {
				continue
			}
			if x.up == nil && !c.Chance(30) {
				continue
			}
			after := 0
			if k == 4 {
				after = 1
				note("AppendSibling(%s, %s)", x.label(), y.label())
				tree.AppendSibling(x.e, y.e)
				c.Count("append_sibling", 1)
			} else {
				note("PrependSibling(%s, %s)", x.label(), y.label())
				tree.PrependSibling(x.e, y.e)
				c.Count("prepend_sibling", 1)
			}
			if x == y {
				c.Count("self", 1)
				break
			}
			moved(y, x.row)
			if x.row == y.row && len(x.row.els) > 2 {
				c.Count("swapped_neighbours", 1)
			}
			if x.up == nil {
				c.Count("parentless", 1)
			}
			y.alone()
			y.insert(x.row, x.row.index(x)+after)
		case 6, 7:
			if x != y && x.within(y) {
				continue
			}
			note("Replace(%s, %s)", x.label(), y.label())
			if y != x && y.within(x) {
				c.Count("unwrapped", 1)
			}
			tree.Replace(x.e, y.e)
			c.Count("replace", 1)
			if x == y || x.up == nil && len(x.row.els) == 1 {
				break
			}
			moved(y, x.row)
			r := x.row
			y.alone()
			i := r.index(x)
			x.alone()
			y.insert(r, i)
		case 8:
			switch c.IntN(8) {
			case 0:
				note("Replace(%s, nil)", x.label())
				tree.Replace(x.e, nil)
				x.alone()
				c.Count("replace_nil", 1)
			case 1:
				note("Replace(nil, %s)", x.label())
				tree.Replace(nil, x.e)
			case 2:
				note("AppendSibling(%s, nil)", x.label())
				tree.AppendSibling(x.e, nil)
				tree.PrependSibling(x.e, nil)
			case 3:
				note("AppendSibling(nil, %s)", x.label())
				tree.AppendSibling(nil, x.e)
				tree.PrependSibling(nil, x.e)
			case 4:
				note("AppendChild(%s, nil)", node.label())
				tree.AppendChild(node.node(), nil)
				node.node().AddChild(nil, nil)
				node.node().RemoveChild(nil)
			case 5:
				note("AppendChild(nil, %s)", x.label())
				tree.AppendChild(nil, x.e)
			case 6:
				note("Detach(nil)")
				tree.Detach(nil)
				tree.Replace(nil, nil)
				tree.AppendSibling(nil, nil)
				tree.PrependSibling(nil, nil)
				tree.AppendChild(nil, nil)
			default: // wrapping
				if x.up == nil || x.within(node) || node.within(x) || len(node.kids.els) > 0 {
					continue
				}
				note("Replace(%s, %s) and AppendChild", x.label(), node.label())
				tree.Replace(x.e, node.e)
				tree.AppendChild(node.node(), x.e)
				r := x.row
				node.alone()
				i := r.index(x)
				x.alone()
				node.insert(r, i)
				x.insert(node.kids, 0)
			}
		}
		c.Eval()
		if s := p.check(); s != "" {
			c.Fail("after %s: %s", step, s)
			return
		}
	}
	linked := 0
	if ops > 40 {
		depth, kids := 0, 0
		for _, x := range p.els {
			n := 0
			for y := x; y.up != nil; y = y.up {
				n++
			}
			depth = max(depth, n)
			kids = max(kids, len(x.row.els))
		}
		c.Max("big_depth", depth)
		c.Max("big_row", kids)
	}
	for _, x := range p.els {
		if x.up != nil {
			linked++
		}
	}
	c.Max("linked", linked)
	if linked >= 5 {
		c.Distinct(strings.Join(log, ";"))
	}
	if c.Idx < 2 {
		c.Sample("%s", strings.Join(log, "; "))
	}
}

// c25Build makes nodes with tree.HookInstance.
func c25Build(c *mon.Ctx, p *pool) {
	for range 1 + c.IntN(2) {
		name := pick(c.Rand, typeNames)
		var tok *lexer.Token
		if c.Chance(50) {
			tok = lexer.NewToken(1, "t", []byte("tt"), source.Pos{})
		}
		hi := tree.NewHookInstance(name, tok)
		x := &el{id: len(p.els), name: name, isNode: true, tok: tok}
		x.kids = &row{owner: x}
		x.row = &row{els: []*el{x}}
		for range c.IntN(5) {
			var k *el
			if c.Chance(40) {
				k = pick(c.Rand, p.els)
				if len(k.row.els) > 1 || k.up != nil {
					continue
				}
				if e := hi.HandleNode(k.name, k.e); e != nil {
					c.Fatal("HandleNode: %v", e)
				}
			} else {
				t := lexer.NewToken(2, pick(c.Rand, typeNames), []byte("z"), source.Pos{})
				k = &el{id: len(p.els), name: t.TypeName(), tok: t}
				k.row = &row{els: []*el{k}}
				if e := hi.HandleToken(t); e != nil {
					c.Fatal("HandleToken: %v", e)
				}
				p.els = append(p.els, k)
			}
			k.insert(x.kids, len(x.kids.els))
		}
		if e := hi.HandleNode("x", "not an element"); e == nil {
			c.Fail("a result which is not an element is accepted")
		}
		res, e := hi.EndNode()
		x.e, _ = res.(tree.Element)
		if e != nil || x.e == nil {
			c.Fatal("EndNode: %v, %v", res, e)
		}
		x.id = len(p.els)
		p.els = append(p.els, x)
		kids := tree.Children(x.e)
		if len(kids) != len(x.kids.els) {
			c.Fatal("built node has %d children, not %d", len(kids), len(x.kids.els))
		}
		for i, k := range x.kids.els {
			if k.e == nil {
				k.e = kids[i]
			}
		}
		for _, y := range p.els {
			p.index[y.e] = y
		}
		c.Count("built", 1)
	}
	if s := p.check(); s != "" {
		c.Fatal("built node: %s", s)
	}
}

// --- C26

// randTree links elements of a pool at random.
func randTree(c *mon.Ctx, p *pool) {
	deep, strange := 30, 4
	if len(p.els) > 25 {
		deep, strange = pick(c.Rand, []int{0, 30, 90, 99, 100, 100}), c.IntN(2)
	}
	for i, x := range p.els {
		if i == 0 {
			continue
		}
		if c.Chance(strange) { // another tree or a parentless sibling
			if c.Chance(50) {
				tree.AppendSibling(p.els[0].root().row.els[len(p.els[0].root().row.els)-1].e, x.e)
				r := p.els[0].root().row
				x.insert(r, len(r.els))
			}
			continue
		}
		for try := range 20 {
			n := p.els[c.IntN(i)]
			if c.Chance(deep) {
				n = p.els[max(0, i-1-c.IntN(3))]
				if deep == 100 && try == 0 {
					n = p.els[i-1]
				}
			}
			if n.isNode {
				j := c.IntN(len(n.kids.els) + 1)
				var before tree.Element
				if j < len(n.kids.els) {
					before = n.kids.els[j].e
				}
				n.node().AddChild(x.e, before)
				x.insert(n.kids, j)
				break
			}
		}
	}
}

type step struct {
	x     *el
	level int
}

// walkRef is the definition of traversing.
func walkRef(x *el, level int, rtl bool, visit func(x *el, level int) int) (flags int, stop bool) {
	f := visit(x, level)
	if f&tree.WalkerStop != 0 {
		return f, true
	}
	if x.isNode && f&tree.WalkerSkipChildren == 0 {
		n := len(x.kids.els)
		for i := range n {
			k := x.kids.els[i]
			if rtl {
				k = x.kids.els[n-1-i]
			}
			kf, s := walkRef(k, level+1, rtl, visit)
			if s {
				return f, true
			}
			if kf&tree.WalkerSkipSiblings != 0 {
				break
			}
		}
	}
	return f, false
}

func runC26(c *mon.Ctx) {
	n := 1 + c.IntN(25)
	big := c.Idx%300 == 7
	if big {
		n = logInt(c, 30, 1500)
		if c.Chance(60) {
			n = 300 + c.IntN(1200)
		}
		c.Count("big_cases", 1)
	}
	nodePct := 30 + c.IntN(50)
	if big {
		nodePct = pick(c.Rand, []int{10, 50, 90, 99})
	}
	p := newPool(c, n, nodePct)
	randTree(c, p)
	c.Put("tree", p.els[0].root().String())
	if s := p.check(); s != "" {
		c.Fatal("tree: %s", s)
	}
	if len(p.els) >= 5 {
		c.Distinct(p.els[0].root().String())
	}
	for _, x := range p.els {
		if x.isNode && len(x.kids.els) == 0 {
			c.Count("empty_nodes", 1)
		}
	}
	c26Walk(c, p)
	c26Tokens(c, p)
	for range 3 {
		c26Select(c, p)
	}
	if s := p.check(); s != "" {
		c.Fatal("reading changes the tree: %s", s)
	}
	if c.Idx < 3 {
		c.Sample("%s", p.els[0].root())
	}
}

func c26Walk(c *mon.Ctx, p *pool) {
	for range 6 {
		x := pick(c.Rand, p.els)
		if c.Chance(30) {
			x = p.els[0].root()
		}
		if x.up != nil {
			c.Count("inner_roots", 1)
		}
		mode := tree.WalkLtr
		if c.Chance(50) {
			mode = tree.WalkRtl
			c.Count("rtl", 1)
		}
		flags := map[*el]int{}
		pct := c.IntN(60)
		if len(p.els) > 25 && c.Chance(80) {
			pct = 0
		}
		for _, y := range p.els {
			f := 0
			if c.Chance(pct / 3) {
				f |= tree.WalkerSkipChildren
			}
			if c.Chance(pct / 3) {
				f |= tree.WalkerSkipSiblings
			}
			if c.Chance(pct / 12) {
				f |= tree.WalkerStop
			}
			flags[y] = f
		}
		if len(p.els) > 25 && pct == 0 && c.Chance(60) {
			// a few ones
			for range 1 + c.IntN(8) {
				flags[pick(c.Rand, p.els)] = 1 + c.IntN(3)
			}
		}
		var want, got []step
		walkRef(x, 0, mode == tree.WalkRtl, func(y *el, level int) int {
			want = append(want, step{y, level})
			c.Max("level", level)
			f := flags[y]
			if f&tree.WalkerStop != 0 {
				c.Count("stops", 1)
			}
			switch f &^ tree.WalkerStop {
			case tree.WalkerSkipChildren:
				c.Count("skip_children", 1)
			case tree.WalkerSkipSiblings:
				c.Count("skip_siblings", 1)
			case tree.WalkerSkipChildren | tree.WalkerSkipSiblings:
				c.Count("skip_both", 1)
			}
			return f
		})
		limit := len(p.els)*2 + 2
		how := ""
		switch c.IntN(3) {
		case 0, 1:
			how = "Walk"
			v := func(s tree.WalkStat) int {
				got = append(got, step{p.index[s.Element], s.Level})
				if len(got) > limit {
					return tree.WalkerStop
				}
				return flags[p.index[s.Element]]
			}
			if c.Chance(50) {
				tree.Walk(x.e, mode, v)
			} else {
				tree.NewWalker(x.e, mode).Walk(v)
			}
		case 2:
			how = "Step"
			w := tree.NewWalker(x.e, mode)
			f := 0
			if c.Chance(30) { // ignored before the first element
				f = pick(c.Rand, []int{tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerSkipChildren | tree.WalkerSkipSiblings})
			}
			if c.Chance(3) {
				f |= tree.WalkerStop
				want = nil
			}
			for len(got) <= limit {
				var s tree.WalkStat
				if f == 0 {
					s = w.Next()
				} else {
					s = w.Step(f)
				}
				if s.Element == nil {
					break
				}
				y := p.index[s.Element]
				got = append(got, step{y, s.Level})
				f = flags[y]
			}
			for range 2 {
				if s := w.Step(c.IntN(8)); s.Element != nil {
					c.Fail("finished walker returns %s", p.name(s.Element))
					return
				}
			}
		}
		c.Eval()
		c.Count("walks", 1)
		show := func(ss []step) string {
			var b strings.Builder
			for _, s := range ss {
				fmt.Fprintf(&b, " %s/%d", s.x.label(), s.level)
			}
			return b.String()
		}
		if a, b := show(got), show(want); a != b {
			var fs []string
			for _, y := range p.els {
				if flags[y] != 0 {
					fs = append(fs, fmt.Sprintf("%s:%d", y.label(), flags[y]))
				}
			}
			c.Fail("%s from %s of %s, rtl %v, answers %v: visited%s, must be%s", how, x.label(), x.root(), mode == tree.WalkRtl, fs, a, b)
			return
		}
	}
	if s := tree.NewWalker(nil, tree.WalkLtr).Next(); s.Element != nil {
		c.Fail("walker of nil returns an element")
	}
}

func leaves(x *el, out []*el) []*el {
	if !x.isNode {
		return append(out, x)
	}
	for _, k := range x.kids.els {
		out = leaves(k, out)
	}
	return out
}

func c26Tokens(c *mon.Ctx, p *pool) {
	same := func(what string, x *el, got tree.Element, want *el) {
		c.Eval()
		c.Count("token_queries", 1)
		if want == nil && got != nil || want != nil && got != want.e {
			c.Fail("%s of %s in %s is %s, not %s", what, x.label(), x.root(), p.name(got), want.label())
		}
	}
	for _, x := range p.els {
		if len(p.els) > 60 && !c.Chance(3000/len(p.els)) {
			continue
		}
		var all, before, own []*el
		for _, y := range x.root().row.els {
			all = leaves(y, all)
		}
		own = leaves(x, nil)
		// tokens before the element
		var count func(y *el) bool
		count = func(y *el) bool {
			if y == x {
				return true
			}
			if !y.isNode {
				before = append(before, y)
				return false
			}
			for _, k := range y.kids.els {
				if count(k) {
					return true
				}
			}
			return false
		}
		for _, y := range x.root().row.els {
			if count(y) {
				break
			}
		}
		after := all[len(before)+len(own):]
		at := func(ys []*el, i int) *el {
			if len(ys) == 0 {
				return nil
			}
			if i < 0 {
				i = len(ys) - 1
			}
			return ys[i]
		}
		same("first token", x, tree.FirstTokenElement(x.e), at(own, 0))
		same("last token", x, tree.LastTokenElement(x.e), at(own, -1))
		same("next token", x, tree.NextTokenElement(x.e), at(after, 0))
		same("previous token", x, tree.PrevTokenElement(x.e), at(before, -1))
		var up, prev, next []*el
		for y := x.up; y != nil; y = y.up {
			up = append(up, y)
		}
		i := x.row.index(x)
		for j := i - 1; j >= 0; j-- {
			prev = append(prev, x.row.els[j])
		}
		next = x.row.els[i+1:]
		list := func(what string, got []tree.Element, want []*el) {
			c.Eval()
			if a, b := p.names(got), labels(want); a != b {
				c.Fail("%s of %s in %s: %s, must be %s", what, x.label(), x.root(), a, b)
			}
		}
		list("ancestors", tree.Ancestors(x.e), up)
		list("previous siblings", tree.PrevSiblings(x.e), prev)
		list("next siblings", tree.NextSiblings(x.e), next)
		if x.isNode {
			list("children", tree.Children(x.e), x.kids.els)
		}
	}
	if tree.FirstTokenElement(nil) != nil || tree.LastTokenElement(nil) != nil || tree.NextTokenElement(nil) != nil || tree.PrevTokenElement(nil) != nil ||
		len(tree.Ancestors(nil))+len(tree.PrevSiblings(nil))+len(tree.NextSiblings(nil))+len(tree.Children(nil)) > 0 {
		c.Fail("a query for nil returns something")
	}
}

func (p *pool) names(es []tree.Element) string {
	var ss []string
	for _, e := range es {
		ss = append(ss, p.name(e))
	}
	return strings.Join(ss, " ")
}

func labels(xs []*el) string {
	var ss []string
	for _, x := range xs {
		ss = append(ss, x.label())
	}
	return strings.Join(ss, " ")
}

// fil and ext are a filter or an extractor with their definitions.
type fil struct {
	f    tree.Filter
	ref  func(x *el) bool
	text string
}

type ext struct {
	f    tree.Extractor
	ref  func(x *el) []*el
	text string
}

func randFilter(c *mon.Ctx, p *pool, depth int) fil {
	sub := func() (fs []tree.Filter, rs []func(*el) bool, text string) {
		for range c26Some(c, depth) {
			f := randFilter(c, p, depth-1)
			fs = append(fs, f.f)
			rs = append(rs, f.ref)
			text += f.text + ","
		}
		return
	}
	k := c.IntN(7)
	if depth == 0 {
		k = c.IntN(4)
	}
	switch k {
	case 0:
		names := c26Pad(c, subset(c, typeNames))
		return fil{tree.IsA(names...), func(x *el) bool { return contains(names, x.name) }, fmt.Sprintf("IsA%v", names)}
	case 1:
		texts := c26Pad(c, subset(c, []string{"", "x", "y", "a", "tt"}))
		return fil{tree.IsALiteral(texts...), func(x *el) bool { return !x.isNode && contains(texts, x.tok.Text()) }, fmt.Sprintf("IsALiteral%q", texts)}
	case 2:
		m := 1 + c.IntN(3)
		return fil{func(e tree.Element) bool { return p.must(e).id%m == 0 }, func(x *el) bool { return x.id%m == 0 }, fmt.Sprintf("id%%%d", m)}
	case 3:
		return fil{func(e tree.Element) bool { return e.IsNode() }, func(x *el) bool { return x.isNode }, "isNode"}
	case 4:
		f := randFilter(c, p, depth-1)
		c.Count("nested_combinators", 1)
		return fil{tree.IsNot(f.f), func(x *el) bool { return !f.ref(x) }, "not " + f.text}
	case 5:
		fs, rs, t := sub()
		return fil{tree.IsAny(fs...), func(x *el) bool {
			for _, r := range rs {
				if r(x) {
					return true
				}
			}
			return false
		}, "any(" + t + ")"}
	default:
		fs, rs, t := sub()
		return fil{tree.IsAll(fs...), func(x *el) bool {
			for _, r := range rs {
				if !r(x) {
					return false
				}
			}
			return true
		}, "all(" + t + ")"}
	}
}

func (p *pool) must(e tree.Element) *el {
	x := p.index[e]
	if x == nil {
		panic("an element out of the tree is passed to a filter or an extractor")
	}
	return x
}

// c26Pad mixes a list with strings which are not used by trees.
func c26Pad(c *mon.Ctx, ss []string) []string {
	if c.Chance(90) {
		return ss
	}
	for i := range c.IntN(40) {
		ss = append(ss, fmt.Sprintf("unused%d", i))
	}
	c.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	return ss
}

// c26Some returns the number of arguments of a combinator.
func c26Some(c *mon.Ctx, depth int) int {
	if depth == 1 && c.Chance(10) {
		return c.IntN(20)
	}
	return c.IntN(4)
}

func subset(c *mon.Ctx, ss []string) (res []string) {
	for _, s := range ss {
		if c.Chance(40) {
			res = append(res, s)
		}
	}
	c.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func randExtractor(c *mon.Ctx, p *pool, depth int) ext {
	sub := func() (fs []tree.Extractor, rs []func(*el) []*el, text string) {
		for range c26Some(c, depth) {
			f := randExtractor(c, p, depth-1)
			fs = append(fs, f.f)
			rs = append(rs, f.ref)
			text += f.text + ","
		}
		return
	}
	k := c.IntN(10)
	if depth == 0 {
		k = pick(c.Rand, []int{0, 1, 2, 3, 4, 5, 9})
	}
	switch k {
	case 9: // returns a part of the same list every time
		es, xs := p.keep(c)
		a := c.IntN(len(es) + 1)
		b := a + c.IntN(len(es)-a+1)
		m := 1 + c.IntN(3)
		return ext{func(e tree.Element) []tree.Element {
			if p.must(e).id%m > 0 {
				return es[:a]
			}
			return es[a:b]
		}, func(x *el) []*el {
			if x.id%m > 0 {
				return xs[:a]
			}
			return xs[a:b]
		}, fmt.Sprintf("kept(%s)[%d:%d]", labels(xs), a, b)}
	case 0:
		return ext{tree.Ancestors, func(x *el) (res []*el) {
			for y := x.up; y != nil; y = y.up {
				res = append(res, y)
			}
			return
		}, "ancestors"}
	case 1:
		return ext{tree.PrevSiblings, func(x *el) (res []*el) {
			for j := x.row.index(x) - 1; j >= 0; j-- {
				res = append(res, x.row.els[j])
			}
			return
		}, "prev"}
	case 2:
		return ext{tree.NextSiblings, func(x *el) []*el { return x.row.els[x.row.index(x)+1:] }, "next"}
	case 3:
		return ext{tree.Children, func(x *el) []*el {
			if !x.isNode {
				return nil
			}
			return x.kids.els
		}, "children"}
	case 4: // returns the same elements several times
		return ext{func(e tree.Element) []tree.Element { return []tree.Element{e, p.els[0].e, e} }, func(x *el) []*el { return []*el{x, p.els[0], x} }, "double"}
	case 5:
		return ext{func(tree.Element) []tree.Element { return nil }, func(*el) []*el { return nil }, "none"}
	case 6:
		fs, rs, t := sub()
		c.Count("nested_combinators", 1)
		return ext{tree.Any(fs...), func(x *el) []*el {
			for _, r := range rs {
				if ys := r(x); len(ys) > 0 {
					return ys
				}
			}
			return nil
		}, "any(" + t + ")"}
	case 7:
		fs, rs, t := sub()
		c.Count("nested_combinators", 1)
		return ext{tree.All(fs...), func(x *el) (res []*el) {
			for _, r := range rs {
				res = append(res, r(x)...)
			}
			return
		}, "all(" + t + ")"}
	default:
		f := randExtractor(c, p, depth-1)
		var ns []int
		for range c.IntN(4) {
			ns = append(ns, c.IntN(6)-1)
		}
		return ext{tree.Nth(f.f, ns...), func(x *el) (res []*el) {
			ys := f.ref(x)
			for _, n := range ns {
				if n >= 0 && n < len(ys) {
					res = append(res, ys[n])
				}
			}
			return
		}, fmt.Sprintf("nth(%s %v)", f.text, ns)}
	}
}

func c26Select(c *mon.Ctx, p *pool) {
	s := tree.NewSelector()
	var refs []func(*el) []*el
	text := ""
	unique := false
	for range c.IntN(4) {
		switch c.IntN(5) {
		case 0, 1:
			x := randExtractor(c, p, 2)
			s = s.Extract(x.f)
			refs = append(refs, x.ref)
			text += " Extract " + x.text
		case 2:
			f := randFilter(c, p, 2)
			s = s.Filter(f.f)
			refs = append(refs, func(x *el) []*el {
				if f.ref(x) {
					return []*el{x}
				}
				return nil
			})
			text += " Filter " + f.text
		default:
			f := randFilter(c, p, 2)
			deep := c.Chance(50)
			if deep {
				s = s.DeepSearch(f.f)
				text += " DeepSearch " + f.text
				c.Count("deep_search", 1)
			} else {
				s = s.Search(f.f)
				text += " Search " + f.text
				c.Count("search", 1)
			}
			refs = append(refs, func(x *el) []*el {
				var res []*el
				var visit func(y *el)
				visit = func(y *el) {
					if f.ref(y) {
						res = append(res, y)
						if !deep {
							return
						}
					}
					if y.isNode {
						for _, k := range y.kids.els {
							visit(k)
						}
					}
				}
				visit(x)
				return res
			})
		}
		if c.Chance(15) {
			s = s.Unique()
			unique = true
			text += " Unique"
		}
		if c.Chance(5) {
			s.Extract(nil)
		}
	}
	c.Put("selector", text)
	for range 2 {
		var in []tree.Element
		var want []*el
		for range c.IntN(4) {
			x := pick(c.Rand, p.els)
			if c.Chance(40) {
				x = p.els[0].root()
			}
			in = append(in, x.e)
			if c.Chance(10) {
				in = append(in, nil)
			}
			ys := []*el{x}
			for _, r := range refs {
				var zs []*el
				for _, y := range ys {
					zs = append(zs, r(y)...)
					if len(zs) > 20000 {
						return
					}
				}
				ys = zs
			}
			want = append(want, ys...)
		}
		if unique {
			seen := map[*el]bool{}
			var w []*el
			for _, x := range want {
				if !seen[x] {
					seen[x] = true
					w = append(w, x)
				}
			}
			if len(w) < len(want) {
				c.Count("duplicates_removed", len(want)-len(w))
			}
			want = w
		}
		given := p.names(in)
		got := s.Apply(in...)
		c.Eval()
		c.Count("selectors", 1)
		c.Count("selected", len(got))
		if len(want) > 256 {
			c.Count("large_selections", 1)
		}
		c.Max("selection", len(want))
		if a, b := p.names(got), labels(want); a != b {
			c.Fail("selector%s for %s in %s gives %s, must be %s", text, given, p.els[0].root(), a, b)
			return
		}
		if p.names(in) != given {
			c.Fail("selector%s changes its arguments", text)
		}
		for i := range got { // results are independent of the tree and of each other
			got[i] = nil
		}
		if s := p.checkKept(); s != "" {
			c.Fatal("selector%s: %s", text, s)
		}
	}
}

// --- C27

func runC27(c *mon.Ctx) {
	if c.Idx%60 == 7 {
		runBig(c)
		return
	}
	if c.Idx%60 == 38 {
		runWide(c)
		return
	}
	g, a := genGrammar(c, gen.AlphaOpts{Min: 2, Max: 5, Groups: c.Chance(20)}, randOpts(c), func(g *gen.Grammar) bool { return !g.SharedEntry() })
	p := compileOrFail(c, g.Text())
	plain := noConflicts(c, g)
	for range 6 {
		seq := g.Sentence(c.Rand, a, 2+c.IntN(20))
		if len(seq) > 40 || g.NewMatcher(seq).Paths() > 2000 {
			continue
		}
		text, spans := gen.Render(c.Rand, seq, gen.RenderOpts{Dense: c.Chance(20)})
		if c.Chance(40) { // side tokens at the very beginning
			t, ss := gen.Render(c.Rand, nil, gen.RenderOpts{})
			for i := range spans {
				spans[i].Pos += len(t)
			}
			text, spans = t+text, append(ss, spans...)
		}
		if len(spans) > 1 && spans[0].Side && spans[0].Type == "space" && spans[1].Side && spans[1].Type == "space" {
			continue
		}
		pieces := []piece{{"input", text, 0}}
		if c.Chance(30) && text != "" {
			pieces = cutText(c, text, spans, 5)
		}
		c.Put("input", text)
		for _, sides := range []bool{true, false} {
			if c.Failed() {
				return
			}
			var opts []parser.ParseOption
			full := c.Chance(50)
			if full {
				opts = append(opts, parser.WithFullSource())
			}
			if sides {
				opts = append(opts, parser.WithSides())
			}
			rec := &hx.Recorder{}
			hooks := rec.Hooks()
			until := untilEnd(rec, &hooks)
			if _, e := p.Parse(bg, queueOf(pieces), hooks, mixOpts(c, opts)...); e != nil {
				c.Count("rejected", 1)
				continue
			}
			c.Eval()
			res, e := p.Parse(bg, queueOf(pieces), parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, mixOpts(c, opts)...)
			root, ok := res.(tree.NodeElement)
			if e != nil || !ok {
				c.Fail("result of parsing with tree.NodeHook: %v, %v", res, e)
				return
			}
			c.Count("trees", 1)
			if sides {
				c.Count("with_sides", 1)
			}
			if len(pieces) > 1 {
				c.Count("several_sources", 1)
			}
			c27One(c, g, root, rec, text, spans, pieces, sides, full, plain && *until)
			if n := countNodes(rec.Root); n >= 3 && sides {
				c.Count("nested", 1)
				c.Distinct(g.NodePart(), text)
			}
		}
		if c.Idx < 5 {
			c.Sample("%s\ninput: %q", g.NodePart(), text)
		}
	}
}

func c27One(c *mon.Ctx, g *gen.Grammar, root tree.NodeElement, rec *hx.Recorder, text string, spans []gen.Span, pieces []piece, sides, full, until bool) {
	fail := func(f string, args ...any) {
		c.Put("tree", elString(root))
		c.Fail(f+"; tree %s, text %q, sides %v, grammar:\n%s", append(args, elString(root), text, sides, strings.TrimSpace(g.NodePart()))...)
	}
	if root.Parent() != nil || root.Prev() != nil || root.Next() != nil {
		fail("root has relatives")
		return
	}
	// same structure as reported
	if a, b := elString(root), rnodeString(rec.Root); a != b {
		fail("tree differs from reported events %s", b)
		return
	}
	// links and initial tokens
	var toks []*lexer.Token
	var visit func(n tree.NodeElement) (*lexer.Token, string)
	visit = func(n tree.NodeElement) (first *lexer.Token, s string) {
		var prev tree.Element
		for k := n.FirstChild(); k != nil; k = k.Next() {
			if k.Parent() != n || k.Prev() != prev {
				return nil, "links of " + k.TypeName() + " are wrong"
			}
			prev = k
			var f *lexer.Token
			if k.IsNode() {
				if f, s = visit(k.(tree.NodeElement)); s != "" {
					return
				}
			} else {
				toks = append(toks, k.Token())
				if !isSide(k.Token()) {
					f = k.Token()
				}
			}
			if first == nil {
				first = f
			}
		}
		if n.LastChild() != prev {
			return nil, "last child of " + n.TypeName() + " is wrong"
		}
		if first != nil && n.Token() != first && !(n == root && n.Token() != nil && n.Token().Text() == "") {
			return nil, fmt.Sprintf("initial token of %s is %s, the first non-side token is %s", n.TypeName(), hx.TokName(n.Token()), hx.TokName(first))
		}
		return
	}
	first, s := visit(root)
	if s != "" {
		fail("%s", s)
		return
	}
	if first == nil {
		c.Count("empty_roots", 1)
	}
	eoi := false
	if n := len(toks); n > 0 && toks[n-1].Type() == lexer.EoiTokenType {
		eoi = true
		toks = toks[:n-1]
	}
	var b strings.Builder
	last := 0 // end of the parsed part
	for _, t := range toks {
		b.WriteString(t.Text())
		if t.Type() < 0 {
			fail("special token %s inside", hx.TokName(t))
			return
		}
		for _, p := range pieces {
			if t.SourceName() == p.name {
				last = p.from + t.Pos().Pos() + len(t.Text())
			}
		}
	}
	if eoi {
		c.Count("until_eoi", 1)
		last = len(text)
	} else if until {
		c.Count("lasted_until_end", 1)
		last = len(text)
	}
	var want strings.Builder
	lastTok := 0
	for _, s := range spans {
		if s.Pos >= last {
			break
		}
		if sides || !s.Side {
			want.WriteString(s.Text)
		}
		if sides && s.Side {
			c.Count("inner_sides", 1)
			if s.Pos == 0 {
				c.Count("leading_sides", 1)
			}
		}
		lastTok++
	}
	if b.String() != want.String() {
		fail("texts of tokens are %q, parsed text is %q", b.String(), want.String())
		return
	}
	if full {
		for _, s := range spans[lastTok:] {
			if !s.Side {
				fail("token %q is left out", s.Text)
				return
			}
		}
	}
}

func elString(e tree.Element) string {
	if !e.IsNode() {
		return hx.TokName(e.Token())
	}
	var ss []string
	for k := e.(tree.NodeElement).FirstChild(); k != nil; k = k.Next() {
		ss = append(ss, elString(k))
	}
	return e.TypeName() + "(" + strings.Join(ss, " ") + ")"
}

func rnodeString(n *hx.RNode) string {
	var ss []string
	for _, k := range n.Kids {
		switch x := k.(type) {
		case *lexer.Token:
			ss = append(ss, hx.TokName(x))
		case *hx.RNode:
			ss = append(ss, rnodeString(x))
		}
	}
	return n.Name + "(" + strings.Join(ss, " ") + ")"
}
