// Package hx contains run-time monitors attached to a parser through its hooks.
package hx

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// Compile makes a parser for a grammar description.
func Compile(text string, opts ...parser.Option) (*parser.Parser, error) {
	g, e := langdef.ParseString("grammar", text)
	if e != nil {
		return nil, e
	}
	return parser.New(g, opts...)
}

// RNode is a syntax tree node rebuilt from hook events.
type RNode struct {
	Name   string
	First  *lexer.Token
	Kids   []any // *RNode or *lexer.Token
	Parent *RNode
	ended  bool
	Hooked bool
	// Stack is the node stack reported when the node was created, it is nil if nobody asked for it.
	Stack []string
}

// Recorder rebuilds trees from node hook events, checking the event protocol on the way.
type Recorder struct {
	Root    *RNode
	Events  []string
	Errors  []string
	Tokens  []*lexer.Token // in order of HandleToken calls
	N       int            // number of hook calls
	open    []*RNode
	pending *announce
	ended   *RNode // the node which has just ended, its result is to be delivered to the parent
	// Partial is set if some nodes have no hooks, the protocol is checked only for those which have
	Partial bool
	// Fault: fail at this event (1-based), the error to return
	FaultAt  int
	FaultErr error
	OnEvent  func(n int)
	After    int // events seen after the fault
	KeepLog  bool
	// Nil tells whether a node must return nil as its result
	Nil func(node string) bool
	// NoStack tells whether not to look at the node stack this time, used by partial recorders
	NoStack func() bool
	All     []*RNode // in order of creation
}

func (r *Recorder) value(n *RNode) any {
	if r.Nil != nil && r.Nil(n.Name) {
		return nil
	}
	return n
}

type announce struct {
	node string
	tok  *lexer.Token
}

func (r *Recorder) errorf(f string, args ...any) {
	if len(r.Errors) < 5 {
		r.Errors = append(r.Errors, fmt.Sprintf(f, args...))
	}
}

func tokName(t *lexer.Token) string {
	if t == nil {
		return "nil"
	}
	return fmt.Sprintf("%s:%q@%d", t.TypeName(), t.Text(), t.Pos().Pos())
}

// TokName describes a token.
func TokName(t *lexer.Token) string { return tokName(t) }

func (r *Recorder) event(f string, args ...any) error {
	r.N++
	if r.KeepLog {
		r.Events = append(r.Events, fmt.Sprintf(f, args...))
	}
	if r.OnEvent != nil {
		r.OnEvent(r.N)
	}
	if r.FaultAt > 0 {
		if r.N == r.FaultAt {
			return r.FaultErr
		}
		if r.N > r.FaultAt {
			r.After++
		}
	}
	return nil
}

// Hook is a parser.NodeHook.
func (r *Recorder) Hook(ctx context.Context, node string, tok *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
	if e := r.event("hook %s %s", node, tokName(tok)); e != nil {
		return nil, e
	}
	var stack []string
	look := !r.Partial || r.NoStack == nil || !r.NoStack()
	if look {
		stack = nc.NodeStack()
	}
	if !r.Partial {
		want := make([]string, 0, len(r.open))
		for i := len(r.open) - 1; i >= 0; i-- {
			want = append(want, r.open[i].Name)
		}
		if strings.Join(want, ",") != strings.Join(stack, ",") {
			r.errorf("node stack at creation of %q is %v, open nodes are %v", node, stack, want)
		}
		if len(r.open) > 0 {
			if r.pending == nil {
				r.errorf("node %q created without announcement to its parent", node)
			} else if r.pending.node != node || r.pending.tok != tok {
				r.errorf("node %q with token %s created, but %q with token %s was announced", node, tokName(tok), r.pending.node, tokName(r.pending.tok))
			}
		}
		r.pending = nil
		if r.ended != nil {
			r.errorf("node %q created before the result of %q is delivered", node, r.ended.Name)
		}
	} else if look {
		j := len(r.open) - 1
		for _, name := range stack {
			if j >= 0 && r.open[j].Name == name {
				j--
			}
		}
		if j >= 0 {
			r.errorf("open hooked node %q is missing in node stack %v", r.open[j].Name, stack)
		}
	}
	n := &RNode{Name: node, First: tok, Hooked: true}
	if look && len(stack) <= 1000 { // copies of huge stacks take too much memory
		n.Stack = append([]string{}, stack...)
	}
	r.All = append(r.All, n)
	if len(r.open) > 0 {
		n.Parent = r.open[len(r.open)-1]
	} else {
		if r.Root != nil && !r.Partial {
			r.errorf("second root node %q", node)
		}
		if r.Root == nil {
			r.Root = n
		}
	}
	r.open = append(r.open, n)
	return &inst{r, n}, nil
}

type inst struct {
	r *Recorder
	n *RNode
}

func (i *inst) top(what string) {
	r := i.r
	if i.n.ended {
		r.errorf("%s for finished node %q", what, i.n.Name)
		return
	}
	if len(r.open) == 0 || r.open[len(r.open)-1] != i.n {
		r.errorf("%s for node %q which is not the innermost open node", what, i.n.Name)
	}
	if !r.Partial && r.pending != nil {
		r.errorf("%s for node %q after node %q was announced but not created", what, i.n.Name, r.pending.node)
	}
}

func (i *inst) NewNode(node string, tok *lexer.Token) error {
	if e := i.r.event("new %s>%s %s", i.n.Name, node, tokName(tok)); e != nil {
		return e
	}
	i.top("announcement")
	if i.r.ended != nil && !i.r.Partial {
		i.r.errorf("node %q announced before the result of %q is delivered", node, i.r.ended.Name)
	}
	i.r.pending = &announce{node, tok}
	return nil
}

func (i *inst) HandleNode(node string, result any) error {
	r := i.r
	if e := r.event("node %s>%s", i.n.Name, node); e != nil {
		return e
	}
	if r.Partial {
		r.pending = nil
	}
	i.top("child result")
	if !r.Partial {
		if r.ended == nil {
			r.errorf("unexpected child result of %q for node %q", node, i.n.Name)
		} else {
			if r.ended.Name != node {
				r.errorf("result of node %q is reported as a result of %q", r.ended.Name, node)
			}
			if result != r.value(r.ended) {
				r.errorf("node %q received a wrong result of %q", i.n.Name, node)
			}
			if r.ended.Parent != i.n {
				r.errorf("result of %q is delivered to a wrong node %q", node, i.n.Name)
			}
			i.n.Kids = append(i.n.Kids, r.ended)
		}
		r.ended = nil
		return nil
	}
	i.n.Kids = append(i.n.Kids, &Result{node, result})
	return nil
}

// Result is a child result of a partially hooked tree.
type Result struct {
	Node  string
	Value any
}

func (i *inst) HandleToken(tok *lexer.Token) error {
	r := i.r
	if e := r.event("token %s>%s", i.n.Name, tokName(tok)); e != nil {
		return e
	}
	i.top("token " + tokName(tok))
	if r.ended != nil && !r.Partial {
		r.errorf("token %s delivered before the result of %q", tokName(tok), r.ended.Name)
	}
	r.Tokens = append(r.Tokens, tok)
	i.n.Kids = append(i.n.Kids, tok)
	return nil
}

func (i *inst) EndNode() (any, error) {
	r := i.r
	if e := r.event("end %s", i.n.Name); e != nil {
		return nil, e
	}
	if r.Partial {
		r.pending = nil
	}
	i.top("end")
	if r.ended != nil && !r.Partial {
		r.errorf("node %q ended before the result of %q is delivered", i.n.Name, r.ended.Name)
	}
	i.n.ended = true
	if len(r.open) > 0 {
		r.open = r.open[:len(r.open)-1]
	}
	if len(r.open) > 0 {
		r.ended = i.n
	}
	return r.value(i.n), nil
}

// Finish makes final checks after a successful parse.
func (r *Recorder) Finish(result any) {
	if len(r.open) != 0 {
		r.errorf("%d node(s) never ended", len(r.open))
	}
	if r.Root == nil {
		r.errorf("no root node")
		return
	}
	if !r.Partial && result != r.value(r.Root) {
		r.errorf("parse result is not the value returned for the root node")
	}
	if !r.Partial {
		checkFirst(r, r.Root, true)
	}
}

// firstNonSide returns the first token inside a node.
func firstTok(n *RNode, side func(*lexer.Token) bool) *lexer.Token {
	for _, k := range n.Kids {
		switch x := k.(type) {
		case *lexer.Token:
			if !side(x) {
				return x
			}
		case *RNode:
			if t := firstTok(x, side); t != nil {
				return t
			}
		}
	}
	return nil
}

func checkFirst(r *Recorder, n *RNode, root bool) {
	if !root {
		t := firstTok(n, func(*lexer.Token) bool { return false })
		if t != n.First {
			r.errorf("node %q created with token %s, but its first token is %s", n.Name, tokName(n.First), tokName(t))
		}
	}
	for _, k := range n.Kids {
		if c, ok := k.(*RNode); ok {
			checkFirst(r, c, false)
		}
	}
}

// Hooks returns hooks for all nodes.
func (r *Recorder) Hooks() parser.Hooks {
	return parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: r.Hook}}
}

// String renders a tree.
func (n *RNode) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *RNode) write(b *strings.Builder) {
	b.WriteString(n.Name + "(")
	for i, k := range n.Kids {
		if i > 0 {
			b.WriteString(" ")
		}
		switch x := k.(type) {
		case *RNode:
			x.write(b)
		case *lexer.Token:
			b.WriteString(x.Text())
			if x.Type() == lexer.EoiTokenType {
				b.WriteString("<eoi>")
			}
		case *Result:
			fmt.Fprintf(b, "%s=", x.Node)
			if v, ok := x.Value.(*RNode); ok {
				v.write(b)
			} else {
				fmt.Fprintf(b, "%v", x.Value)
			}
		}
	}
	b.WriteString(")")
}

// LLX returns library error or nil.
func LLX(e error) *llx.Error {
	var le *llx.Error
	if errors.As(e, &le) {
		return le
	}
	return nil
}

// CheckErrPos checks that position of a lexical/syntax error exists in the source.
func CheckErrPos(e *llx.Error, src *source.Source) string {
	if e.SourceName != src.Name() {
		return fmt.Sprintf("error names source %q instead of %q", e.SourceName, src.Name())
	}
	p := src.Pos(e.Line, e.Col)
	l, c := src.LineCol(p)
	if e.Line < 1 || e.Col < 1 || l != e.Line || c != e.Col {
		return fmt.Sprintf("error position %d:%d does not exist in source", e.Line, e.Col)
	}
	return ""
}

// Node returns the node a hook instance belongs to.
func (i *inst) Node() *RNode { return i.n }

// NodeOf returns the node of a hook instance made by Recorder.
func NodeOf(h parser.NodeHookInstance) *RNode {
	if i, ok := h.(*inst); ok {
		return i.n
	}
	return nil
}
