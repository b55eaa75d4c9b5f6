package gen

import (
	"fmt"
	"math/rand/v2"
)

// Wide makes a grammar of statements, all variants of which are alternatives in the same state.
// There are a given number of keywords starting a statement, each of them starts up to maxVars variants
// having a common middle part and different last literals.
// The sentence maker and the parser know the structure, the latter works as LLParse.
func Wide(r *rand.Rand, keys, maxVars int) (*Grammar, Alphabet, func(n int) []Tok, func([]Tok) (*Tree, int)) {
	a := Std(r, AlphaOpts{Min: 1, Max: 1})
	a.Terms = nil
	a.Texts["name"] = []string{"foo", "q", "zz", "bar"}
	g := a.New()
	seen := map[string]bool{"end": true}
	next := 0
	word := func() string {
		for {
			w := Word(next)
			next++
			if !seen[w] {
				seen[w] = true
				return w
			}
		}
	}
	lit := func(w string) *Expr { return &Expr{K: KLit, Name: w} }
	type stmt struct {
		mid  []string // empty string means a number
		node map[string]string
	}
	lasts := make([]string, maxVars)
	for i := range lasts {
		lasts[i] = word()
	}
	words := append([]string{"end"}, lasts...)
	mids := []string{"", word(), word()}
	words = append(words, mids[1:]...)
	stmts := map[string]*stmt{}
	vars := &Expr{K: KAlt}
	var keyList []string
	for range keys {
		k := word()
		words = append(words, k)
		keyList = append(keyList, k)
		s := &stmt{node: map[string]string{}}
		stmts[k] = s
		for range r.IntN(4) {
			s.mid = append(s.mid, pick(r, mids))
		}
		for _, i := range r.Perm(maxVars)[:1+r.IntN(maxVars)] {
			e := &Expr{K: KSeq, Subs: []*Expr{lit(k)}}
			for _, m := range s.mid {
				if m == "" {
					e.Subs = append(e.Subs, &Expr{K: KTok, Name: "num"})
				} else {
					e.Subs = append(e.Subs, lit(m))
				}
			}
			e.Subs = append(e.Subs, lit(lasts[i]))
			s.node[lasts[i]] = ""
			if r.IntN(3) == 0 {
				n := fmt.Sprintf("v%d", len(g.Nodes))
				s.node[lasts[i]] = n
				g.Nodes = append(g.Nodes, NodeDef{n, e})
				e = &Expr{K: KNode, Name: n}
			}
			vars.Subs = append(vars.Subs, e)
		}
	}
	r.Shuffle(len(vars.Subs), func(i, j int) { vars.Subs[i], vars.Subs[j] = vars.Subs[j], vars.Subs[i] })
	root := &Expr{K: KSeq, Subs: []*Expr{{K: KRep, Subs: []*Expr{{K: KSeq, Subs: []*Expr{vars}}}}, lit("end")}}
	g.Nodes = append([]NodeDef{{"root", root}}, g.Nodes...)
	g.Reserved = words
	a.Reserved = words
	for _, w := range words {
		a.Terms = append(a.Terms, lit(w))
	}
	a.Terms = append(a.Terms, &Expr{K: KTok, Name: "num"})
	g.Prepare()

	match := func(m string, t Tok) bool {
		if m == "" {
			return t.Type == "num"
		}
		return t.Type == "name" && t.Text == m
	}
	sentence := func(n int) (res []Tok) {
		put := func(m string) {
			if m == "" {
				res = append(res, Tok{"num", pick(r, a.Texts["num"])})
			} else {
				res = append(res, Tok{"name", m})
			}
		}
		for len(res) < n {
			k := pick(r, keyList)
			s := stmts[k]
			put(k)
			for _, m := range s.mid {
				put(m)
			}
			for {
				l := pick(r, lasts)
				if _, ok := s.node[l]; ok {
					put(l)
					break
				}
			}
		}
		put("end")
		return
	}
	parse := func(toks []Tok) (*Tree, int) {
		t := &Tree{Node: "root"}
		i := 0
		for i < len(toks) {
			at := i
			if match("end", toks[i]) {
				t.Kids = append(t.Kids, &Tree{Tok: i})
				return t, i + 1
			}
			s := stmts[toks[i].Text]
			if s == nil || toks[i].Type != "name" {
				return nil, i
			}
			i++
			for _, m := range s.mid {
				if i >= len(toks) || !match(m, toks[i]) {
					return nil, i
				}
				i++
			}
			if i >= len(toks) || toks[i].Type != "name" {
				return nil, i
			}
			node, ok := s.node[toks[i].Text]
			if !ok {
				return nil, i
			}
			i++
			p := t
			if node != "" {
				p = &Tree{Node: node, Tok: at}
				t.Kids = append(t.Kids, p)
			}
			for ; at < i; at++ {
				p.Kids = append(p.Kids, &Tree{Tok: at})
			}
		}
		return nil, i
	}
	return g, a, sentence, parse
}
