// Command core runs the monitors which need nothing but the public API of the library.
package main

import (
	"context"

	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
)

var checks []*mon.Check

func register(c *mon.Check) { checks = append(checks, c) }

func main() { mon.Main(checks...) }

var bg = context.Background()

func knownFindings(prop string) []mon.Known { return mon.KnownFindings(prop) }

// toTree converts a recorded tree; spans are non-side tokens, sorted by position, pos maps positions to their indexes.
func toTree(n *hx.RNode, pos map[int]int, eoi int) (*gen.Tree, string) {
	t := &gen.Tree{Node: n.Name}
	for _, k := range n.Kids {
		switch x := k.(type) {
		case *hx.RNode:
			c, s := toTree(x, pos, eoi)
			if s != "" {
				return nil, s
			}
			t.Kids = append(t.Kids, c)
		case *lexer.Token:
			if x.Type() == lexer.EoiTokenType {
				t.Kids = append(t.Kids, &gen.Tree{Tok: eoi})
				continue
			}
			i, has := pos[x.Pos().Pos()]
			if !has {
				return nil, "reported token is not a token of the text: " + hx.TokName(x)
			}
			t.Kids = append(t.Kids, &gen.Tree{Tok: i})
		}
	}
	return t, ""
}

// flat lists token indexes of a tree.
func flat(t *gen.Tree, out []int) []int {
	if t.Node == "" {
		return append(out, t.Tok)
	}
	for _, k := range t.Kids {
		out = flat(k, out)
	}
	return out
}

// layout is a text with its reference tokens.
type layout struct {
	text  string
	spans []gen.Span
	toks  []gen.Tok
	pos   map[int]int // position of non-side token -> index
}

func newLayout(text string, spans []gen.Span) *layout {
	l := &layout{text: text, spans: spans, pos: map[int]int{}}
	for _, s := range spans {
		if !s.Side {
			l.pos[s.Pos] = len(l.toks)
			l.toks = append(l.toks, s.Tok)
		}
	}
	return l
}

// posOf returns position of i-th non-side token or the length of text.
func (l *layout) posOf(i int) int {
	n := 0
	for _, s := range l.spans {
		if !s.Side {
			if n == i {
				return s.Pos
			}
			n++
		}
	}
	return len(l.text)
}
