package main

import (
	"bytes"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/parser"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

func pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

// mutate makes a small random change to a token sequence.
func mutate(r *rand.Rand, a gen.Alphabet, toks []gen.Tok) []gen.Tok {
	res := append([]gen.Tok(nil), toks...)
	for {
		i := r.IntN(len(res) + 1)
		switch r.IntN(5) {
		case 0:
			res = append(res[:i], append([]gen.Tok{a.RandTok(r)}, res[i:]...)...)
		case 1:
			if i < len(res) {
				res = append(res[:i], res[i+1:]...)
			}
		case 2:
			if i < len(res) {
				res[i] = a.RandTok(r)
			}
		case 3:
			res = res[:i]
		default:
			if i+1 < len(res) {
				res[i], res[i+1] = res[i+1], res[i]
			}
		}
		if r.IntN(3) != 0 {
			return res
		}
	}
}

// randBytes makes a random byte string out of pieces.
func randBytes(r *rand.Rand, n int) []byte {
	pieces := []string{"a", "b", "foo", " ", "\n", "\r\n", "\r", "\t", "1", "22", "+", "-", "(", ")", "\"", "'", "\\", "#x;", "#", ";", "\x00", "\xff", "\xc3", "ж", "€", "😀", "\xed\xa0\x80", "{", "}", "=", ","}
	var b []byte
	for len(b) < n {
		if r.IntN(10) == 0 {
			b = append(b, byte(r.IntN(256)))
		} else {
			b = append(b, pick(r, pieces)...)
		}
	}
	return b
}

func joinLines(s []string) string { return strings.Join(s, "\n") }

type tplImpl struct{ l parser.HookLayer }

func (t tplImpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	return t.l, nil
}

// tplFunc makes a template always returning the same layer.
func tplFunc(l parser.HookLayer) parser.HookLayerTemplate { return tplImpl{l} }

// mentionsWord tells if a message contains a name.
func mentionsWord(msg, name string) bool {
	isWord := func(c byte) bool {
		return c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
	}
	for at := 0; ; {
		i := strings.Index(msg[at:], name)
		if i < 0 {
			return false
		}
		i += at
		j := i + len(name)
		if (i == 0 || !isWord(msg[i-1])) && (j == len(msg) || !isWord(msg[j])) {
			return true
		}
		at = i + 1
	}
}

// mixOpts changes the order of parsing options and repeats some of them.
func mixOpts(c *mon.Ctx, opts []parser.ParseOption) []parser.ParseOption {
	if len(opts) == 0 || c.Chance(50) {
		return opts
	}
	res := append([]parser.ParseOption{}, opts...)
	for range c.IntN(3) {
		res = append(res, pick(c.Rand, opts))
	}
	c.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}
