package gen

import "math/rand/v2"

// LL1 checks that every choice is determined by the next token.
func (g *Grammar) LL1() bool {
	follow := make([]map[string]bool, len(g.exprs))
	for i := range follow {
		follow[i] = map[string]bool{}
	}
	nodeFollow := map[string]map[string]bool{}
	for _, n := range g.Nodes {
		nodeFollow[n.Name] = map[string]bool{}
	}
	nodeFollow[g.Nodes[0].Name]["$"] = true
	add := func(dst, src map[string]bool) bool {
		n := len(dst)
		for k := range src {
			dst[k] = true
		}
		return len(dst) != n
	}
	for changed := true; changed; {
		changed = false
		for _, n := range g.Nodes {
			changed = add(follow[n.Body.Id], nodeFollow[n.Name]) || changed
		}
		for _, e := range g.exprs {
			switch e.K {
			case KNode:
				changed = add(nodeFollow[e.Name], follow[e.Id]) || changed
			case KSeq:
				for i, s := range e.Subs {
					f := follow[s.Id]
					tail := true
					for _, x := range e.Subs[i+1:] {
						changed = add(f, g.first[x.Id]) || changed
						if !g.nullable[x.Id] {
							tail = false
							break
						}
					}
					if tail {
						changed = add(f, follow[e.Id]) || changed
					}
				}
			case KAlt, KOpt:
				for _, s := range e.Subs {
					changed = add(follow[s.Id], follow[e.Id]) || changed
				}
			case KRep:
				changed = add(follow[e.Subs[0].Id], follow[e.Id]) || changed
				changed = add(follow[e.Subs[0].Id], g.first[e.Id]) || changed
			}
		}
	}
	meets := func(a, b map[string]bool) bool {
		for k := range a {
			if b[k] {
				return true
			}
		}
		return false
	}
	for _, e := range g.exprs {
		switch e.K {
		case KAlt:
			seen := map[string]bool{}
			nulls := 0
			for _, s := range e.Subs {
				if meets(g.first[s.Id], seen) {
					return false
				}
				add(seen, g.first[s.Id])
				if g.nullable[s.Id] {
					nulls++
				}
			}
			if nulls > 1 || nulls == 1 && meets(seen, follow[e.Id]) {
				return false
			}
		case KOpt, KRep:
			if g.nullable[e.Subs[0].Id] || meets(g.first[e.Subs[0].Id], follow[e.Id]) {
				return false
			}
		}
	}
	for i, n := range g.Nodes {
		if i > 0 && g.nullable[n.Body.Id] {
			return false
		}
	}
	return true
}

// Unfactor turns "P, (A | B)" sequences into "(P, A | P, B)" variants with common prefixes.
// Returns number of changes. Prepare is called if there were any.
func (g *Grammar) Unfactor(r *rand.Rand) int {
	cnt := 0
	var walk func(e *Expr)
	walk = func(e *Expr) {
		for _, s := range e.Subs {
			walk(s)
		}
		if e.K != KSeq {
			return
		}
		for i := 1; i < len(e.Subs); i++ {
			if e.Subs[i].K != KAlt || r.IntN(4) == 0 {
				continue
			}
			from := i - 1 - r.IntN(i)
			prefix := e.Subs[from:i]
			alt := &Expr{K: KAlt}
			for _, v := range e.Subs[i].Subs {
				s := &Expr{K: KSeq}
				for _, p := range prefix {
					s.Subs = append(s.Subs, clone(p))
				}
				if v.K == KSeq {
					s.Subs = append(s.Subs, v.Subs...)
				} else {
					s.Subs = append(s.Subs, v)
				}
				alt.Subs = append(alt.Subs, s)
			}
			rest := append([]*Expr{alt}, e.Subs[i+1:]...)
			e.Subs = append(append([]*Expr{}, e.Subs[:from]...), rest...)
			cnt++
			break
		}
	}
	for _, n := range g.Nodes {
		walk(n.Body)
	}
	if cnt > 0 {
		g.Prepare()
	}
	return cnt
}
