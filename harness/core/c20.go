package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C20",
		Rule: "random valid descriptions with directives, layers, up to 7 mutually dependent nodes (50 in large ones) and ambiguous variants are compiled several times and with random layout and comments; " +
			"every compiled table is checked for structural invariants; non-trivial: distinct descriptions having at least 2 nodes and 5 states",
		Quick: 20000, Thorough: 500000,
		Need: []string{"grammars", "states", "rules", "multirules", "nodes", "literals", "extern_types", "extra_types", "relayouts", "layers", "big_grammars"},
		Run:  runC20,
	})
	register(&mon.Check{
		ID: "C31",
		Rule: "random node structures without any validity filter (undefined, unused, left-recursive, unresolvable nodes in any number and order), and random single mistakes put into token and node definitions; " +
			"the error must have the kind, the place and the name of one of mistakes present, no error if there are none; non-trivial: distinct descriptions with a mistake",
		Quick: 150000, Thorough: 3000000,
		Need: []string{"valid", "code_3", "code_4", "code_5", "code_6", "code_7", "code_8", "code_9", "code_10", "code_11", "code_12", "code_13", "code_14", "code_15", "code_16", "code_17", "code_18", "code_19", "code_20", "code_21", "many_nodes", "big_grammars", "located", "long_chains", "caseless_literals"},
		Run:  runC31,
	})
}

var langRe = regexp.MustCompile(`(?s)\A(?:("(?:[^\\"]|\\.)*"|'[^']*'|/(?:[^\\/]|\\.)+/)|(\$\$?[a-zA-Z_][a-zA-Z_0-9-]*|![a-z]+|[a-zA-Z_][a-zA-Z_0-9-]*|\$)|([(){}\[\]=|,;@]))`)

// langTokens splits a description.
func langTokens(text string) (res []string) {
	for {
		text = strings.TrimLeft(text, " \t\r\n\f")
		if strings.HasPrefix(text, "#") {
			k := strings.IndexByte(text, '\n')
			if k < 0 {
				return
			}
			text = text[k+1:]
			continue
		}
		if text == "" {
			return
		}
		m := langRe.FindString(text)
		if m == "" {
			panic("cannot split " + text)
		}
		res = append(res, m)
		text = text[len(m):]
	}
}

func wordChar(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '-' || b == '$'
}

// relayout puts random spaces and comments between tokens of a description.
func relayout(c *mon.Ctx, toks []string) string {
	var b strings.Builder
	spaces := []string{" ", "\n", "\t", "\r\n", "\f", "  ", "#\n", "# a 'b \" c /\n", "#; $x = /y/;\n", "# ж\n"}
	for i, t := range toks {
		n := c.IntN(3)
		if i > 0 && n == 0 && wordChar(toks[i-1][len(toks[i-1])-1]) && wordChar(t[0]) {
			n = 1
		}
		for range n {
			b.WriteString(pick(c.Rand, spaces))
		}
		b.WriteString(t)
	}
	if c.Chance(30) {
		b.WriteString(pick(c.Rand, []string{" ", "\n", "# end", "# end\n", "\t\n"}))
	}
	return b.String()
}

func randLayers(c *mon.Ctx) string {
	var b strings.Builder
	layers, cmds, args := 3, 3, 4
	if c.Chance(3) {
		layers, cmds, args = logInt(c, 3, 50), logInt(c, 3, 30), logInt(c, 4, 50)
	}
	for range c.IntN(layers) {
		b.WriteString("@" + pick(c.Rand, []string{"indent", "x", "some-layer", "_1"}))
		for range c.IntN(cmds) {
			b.WriteString(" " + pick(c.Rand, []string{"cmd", "on-space", "foo", "_"}) + "(")
			for i := range c.IntN(args) {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(pick(c.Rand, []string{"name", "'a b'", `"x\n\"\x00"`, "' '", "''", `"\u0436"`, `"\xff"`, `'%d\n'`, "'`'"}))
			}
			b.WriteString(")")
		}
		b.WriteString(";\n")
	}
	return b.String()
}

// validDescr makes a random valid description.
func validDescr(c *mon.Ctx) *gen.Grammar {
	if c.Chance(2) {
		g, _ := bigGrammar(c)
		g.Layers = randLayers(c)
		c.Count("big_grammars", 1)
		c.Max("big_nodes", len(g.Nodes))
		return g
	}
	for range 20 {
		var a gen.Alphabet
		if c.Chance(60) {
			a, _ = dirAlphabet(c)
		} else {
			a = gen.Std(c.Rand, gen.AlphaOpts{Min: 1, Max: 6, Groups: c.Chance(30), Overlap: c.Chance(30)})
		}
		g := a.New()
		if c.Chance(15) {
			manyTypes(c, g)
		}
		if c.Chance(30) {
			// types which are not used in rules
			c.Count("extra_types", 1)
			for i := range min(1+c.IntN(4), 60-len(g.Toks)) {
				t := gen.TokDef{Name: fmt.Sprintf("extra%d", i), Re: fmt.Sprintf("~x%d~", i), Side: c.Chance(50)}
				if c.Chance(50) {
					t.Re = ""
					t.Extern = true
				}
				t.Error = !t.Side && !t.Extern && c.Chance(30)
				t.Caseless = c.Chance(20)
				k := c.IntN(len(g.Toks) + 1)
				if t.Extern {
					k = len(g.Toks)
				}
				g.Toks = append(g.Toks[:k:k], append([]gen.TokDef{t}, g.Toks[k:]...)...)
			}
		}
		o := gen.Opts{Terms: a.Terms, MaxNodes: 1 + c.IntN(7), Depth: c.IntN(5), Width: 1 + c.IntN(4), Eoi: true, Conf: c.Chance(40)}
		if g.RandomNodes(c.Rand, o, nil) {
			if c.Chance(30) {
				g.Layers = randLayers(c)
			}
			return g
		}
	}
	c.Abort()
	return nil
}

func runC20(c *mon.Ctx) {
	g := validDescr(c)
	text := g.Text()
	c.Put("grammar", text)
	c.Eval()
	gr, e := langdef.ParseString("g", text)
	if e != nil {
		c.Fatal("valid description is rejected: %v\n%s", e, text)
	}
	c.Count("grammars", 1)
	fail := func(format string, args ...any) {
		b, _ := json.MarshalIndent(gr, "", " ")
		c.Put("compiled", string(b))
		c.Fatal(format+"; description:\n%s", append(args, text)...)
	}
	if s := checkTables(gr, g); s != "" {
		fail("%s", s)
	}
	buf := []byte(text)
	src := source.New("g", buf)
	again := func() (*grammar.Grammar, error) {
		switch c.IntN(3) {
		case 0:
			return langdef.ParseString("g", text)
		case 1:
			return langdef.ParseBytes("g", buf)
		}
		return langdef.Parse(src)
	}
	for range 3 {
		c.Eval()
		g2, e := again()
		if string(buf) != text {
			c.Put("grammar2", string(buf))
			fail("compilation changes the description")
		}
		if e != nil || !reflect.DeepEqual(gr, g2) {
			b, _ := json.Marshal(g2)
			c.Put("compiled2", string(b))
			fail("repeated compilation gives another result (error %v)", e)
		}
	}
	toks := langTokens(text)
	for range 2 {
		other := relayout(c, toks)
		c.Eval()
		if g2, e := langdef.ParseString("g", other); e != nil || !reflect.DeepEqual(gr, g2) {
			b, _ := json.Marshal(g2)
			c.Put("compiled2", string(b))
			c.Put("grammar2", other)
			fail("layout matters (error %v), text %q", e, other)
		}
		c.Count("relayouts", 1)
	}
	c.Count("states", len(gr.States))
	c.Count("rules", len(gr.Rules))
	c.Count("multirules", len(gr.MultiRules))
	c.Count("nodes", len(gr.Nodes))
	c.Count("layers", len(gr.Layers))
	for _, t := range gr.Tokens {
		if t.Flags&grammar.LiteralToken != 0 {
			c.Count("literals", 1)
		} else if t.Flags&grammar.ExternalToken != 0 {
			c.Count("extern_types", 1)
		}
	}
	if len(gr.Nodes) > 1 && len(gr.States) > 4 {
		c.Distinct(text)
	}
}

// checkTables checks a compiled grammar against structural invariants and the source of it.
func checkTables(gr *grammar.Grammar, g *gen.Grammar) string {
	// tokens: defined, external, literals
	nTypes := len(g.Toks)
	var defined, extern []gen.TokDef
	for _, t := range g.Toks {
		if t.Extern {
			extern = append(extern, t)
		} else {
			defined = append(defined, t)
		}
	}
	if len(gr.Tokens) < nTypes {
		return fmt.Sprintf("%d tokens for %d types", len(gr.Tokens), nTypes)
	}
	noLit := false
	for _, t := range g.Toks {
		noLit = noLit || t.NoLit
	}
	flags := func(t gen.TokDef) (f grammar.TokenFlags) {
		if t.Side {
			f |= grammar.SideToken
		}
		if t.Error {
			f |= grammar.ErrorToken
		}
		if t.Extern {
			f |= grammar.ExternalToken
		}
		if t.Caseless {
			f |= grammar.CaselessToken
		}
		if t.NoLit {
			f |= grammar.NoLiteralsToken
		}
		return
	}
	group := map[int]int{0: 0}
	for i, t := range gr.Tokens[:nTypes] {
		var want gen.TokDef
		if i < len(defined) {
			want = defined[i]
			if t.Name != want.Name {
				return fmt.Sprintf("token %d is %q, %q is defined there", i, t.Name, want.Name)
			}
			if t.Re != want.Re && t.Re != strings.ReplaceAll(want.Re, "/", `\/`) {
				return fmt.Sprintf("token %q has expression %q", t.Name, t.Re)
			}
		} else {
			for _, x := range extern {
				if x.Name == t.Name {
					want = x
				}
			}
			if want.Name == "" {
				return fmt.Sprintf("token %d is %q instead of an external one", i, t.Name)
			}
			if t.Re != "" {
				return fmt.Sprintf("external token %q has an expression", t.Name)
			}
		}
		if t.Flags != flags(want) {
			return fmt.Sprintf("token %q has flags %b instead of %b", t.Name, t.Flags, flags(want))
		}
		if x, has := group[want.Group]; has && x != t.Group {
			return fmt.Sprintf("token %q is in group %d, others of this group are in %d", t.Name, t.Group, x)
		}
		group[want.Group] = t.Group
	}
	seen := map[int]bool{}
	for _, x := range group {
		if x < 0 || seen[x] {
			return fmt.Sprintf("groups %v are joined", group)
		}
		seen[x] = true
	}
	names := map[string]bool{}
	for _, t := range gr.Tokens[:nTypes] {
		if names[t.Name] {
			return "duplicate type " + t.Name
		}
		names[t.Name] = true
	}
	lits := map[string]bool{}
	for _, t := range gr.Tokens[nTypes:] {
		if lits[t.Name] {
			return "duplicate literal " + t.Name
		}
		lits[t.Name] = true
		want := grammar.LiteralToken
		for _, r := range g.Reserved {
			if r == t.Name {
				want |= grammar.ReservedToken
			}
		}
		if t.Flags != want || t.Re != "" {
			return fmt.Sprintf("literal %q has flags %b instead of %b, expression %q", t.Name, t.Flags, want, t.Re)
		}
	}
	wantLits := map[string]bool{}
	for _, r := range g.Reserved {
		wantLits[r] = true
	}
	for _, e := range g.Exprs() {
		if e.K == gen.KLit {
			wantLits[e.Name] = true
		}
	}
	if !reflect.DeepEqual(lits, wantLits) {
		return fmt.Sprintf("literals are %v instead of %v", lits, wantLits)
	}
	// nodes
	if len(gr.Nodes) != len(g.Nodes) || gr.Nodes[0].Name != g.Nodes[0].Name {
		return fmt.Sprintf("wrong nodes %v", gr.Nodes)
	}
	nn := map[string]bool{}
	for i, n := range gr.Nodes {
		if nn[n.Name] {
			return "duplicate node " + n.Name
		}
		nn[n.Name] = true
		if n.FirstState < 0 || n.FirstState >= len(gr.States) {
			return fmt.Sprintf("first state of node %d is %d", i, n.FirstState)
		}
		if i == 0 && n.FirstState != 0 || i > 0 && n.FirstState <= gr.Nodes[i-1].FirstState {
			return fmt.Sprintf("states are not grouped by node: %v", gr.Nodes)
		}
	}
	for _, n := range g.Nodes {
		if !nn[n.Name] {
			return "no node " + n.Name
		}
	}
	owner := make([]int, len(gr.States))
	for i := range gr.Nodes {
		hi := len(gr.States)
		if i+1 < len(gr.Nodes) {
			hi = gr.Nodes[i+1].FirstState
		}
		for s := gr.Nodes[i].FirstState; s < hi; s++ {
			owner[s] = i
		}
	}
	// states
	sides := grammar.BitSet(0)
	for i, t := range gr.Tokens[:nTypes] {
		if t.Flags&grammar.SideToken != 0 {
			sides |= 1 << i
		}
	}
	firsts := nodeFirsts(gr, g)
	usedRule := make([]int, len(gr.Rules))
	usedMulti := make([]int, len(gr.MultiRules))
	succ := make([][]int, len(gr.States))
	typesOf := func(tok int) (b grammar.BitSet) {
		if tok < 0 {
			return 0
		}
		if tok < nTypes {
			return 1 << tok
		}
		l := gr.Tokens[tok].Name
		for i, t := range gr.Tokens[:nTypes] {
			if t.Re == "" || t.Flags&(grammar.NoLiteralsToken|grammar.SideToken|grammar.ErrorToken) != 0 || t.Flags&grammar.CaselessToken != 0 && strings.ToUpper(l) != l {
				continue
			}
			if cachedRe(t.Re).FindString(l) == l {
				b |= 1 << i
			}
		}
		return
	}
	for si, s := range gr.States {
		where := fmt.Sprintf("state %d of %q", si, gr.Nodes[owner[si]].Name)
		if s.LowRule < 0 || s.HighRule < s.LowRule || s.HighRule > len(gr.Rules) || s.LowMultiRule < 0 || s.HighMultiRule < s.LowMultiRule || s.HighMultiRule > len(gr.MultiRules) {
			return fmt.Sprintf("%s has wrong ranges %v", where, s)
		}
		if s.TokenTypes&sides != sides {
			return fmt.Sprintf("%s does not accept side tokens: %b", where, s.TokenTypes)
		}
		if nTypes < 64 && s.TokenTypes>>nTypes != 0 {
			return fmt.Sprintf("%s accepts unknown types: %b", where, s.TokenTypes)
		}
		if s.LowRule == s.HighRule && s.LowMultiRule == s.HighMultiRule {
			return where + " has no rules"
		}
		rule := func(r grammar.Rule, multi bool) string {
			desc := fmt.Sprintf("%s, rule %v", where, r)
			if r.Token < 0 && r.Token != grammar.AnyToken && r.Token != lexer.EoiTokenType || r.Token >= len(gr.Tokens) {
				return desc + " has wrong token"
			}
			if r.Token >= 0 && gr.Tokens[r.Token].Flags&(grammar.SideToken|grammar.ErrorToken) != 0 {
				return desc + " uses a side or error token"
			}
			if r.State < grammar.FinalState || r.State >= len(gr.States) {
				return desc + " has wrong state"
			}
			if r.State >= 0 && owner[r.State] != owner[si] {
				return desc + " leads to a state of another node"
			}
			if r.Node < grammar.SameNode || r.Node >= len(gr.Nodes) {
				return desc + " has wrong node"
			}
			if r.Token == grammar.AnyToken && (r.Node >= 0 || multi) {
				return desc + " is a fallback rule with a node or variants"
			}
			if r.Node >= 0 && !firsts[r.Node][r.Token] {
				return desc + fmt.Sprintf(" enters node %q which cannot start with this token", gr.Nodes[r.Node].Name)
			}
			if b := typesOf(r.Token); s.TokenTypes&b != b {
				return desc + fmt.Sprintf(" needs token types %b, state has %b", b, s.TokenTypes)
			}
			if r.State >= 0 {
				succ[si] = append(succ[si], r.State)
			}
			if r.Node >= 0 {
				succ[si] = append(succ[si], gr.Nodes[r.Node].FirstState)
			}
			return ""
		}
		keys := map[int]bool{}
		for i := s.LowRule; i < s.HighRule; i++ {
			r := gr.Rules[i]
			usedRule[i]++
			if i > s.LowRule && r.Token <= gr.Rules[i-1].Token {
				return where + " has unsorted rules"
			}
			keys[r.Token] = true
			if e := rule(r, false); e != "" {
				return e
			}
		}
		for i := s.LowMultiRule; i < s.HighMultiRule; i++ {
			m := gr.MultiRules[i]
			usedMulti[i]++
			if i > s.LowMultiRule && m.Token <= gr.MultiRules[i-1].Token {
				return where + " has unsorted variants"
			}
			if keys[m.Token] {
				return fmt.Sprintf("%s has both a rule and variants for token %d", where, m.Token)
			}
			if m.LowRule < 0 || m.HighRule > len(gr.Rules) || m.HighRule-m.LowRule < 2 {
				return fmt.Sprintf("%s has wrong range of variants %v", where, m)
			}
			for k := m.LowRule; k < m.HighRule; k++ {
				usedRule[k]++
				if gr.Rules[k].Token != m.Token {
					return fmt.Sprintf("%s: variant %d for token %d has token %d", where, k, m.Token, gr.Rules[k].Token)
				}
				if e := rule(gr.Rules[k], true); e != "" {
					return e
				}
			}
		}
	}
	for i, n := range usedRule {
		if n != 1 {
			return fmt.Sprintf("rule %d is used %d times", i, n)
		}
	}
	for i, n := range usedMulti {
		if n != 1 {
			return fmt.Sprintf("multi-rule %d is used %d times", i, n)
		}
	}
	// reachability
	reached := make([]bool, len(gr.States))
	todo := []int{0}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if !reached[s] {
			reached[s] = true
			todo = append(todo, succ[s]...)
		}
	}
	for i, r := range reached {
		if !r {
			return fmt.Sprintf("state %d of node %q is unreachable", i, gr.Nodes[owner[i]].Name)
		}
	}
	return ""
}

// nodeFirsts lists tokens each compiled node may start with, according to the description.
func nodeFirsts(gr *grammar.Grammar, g *gen.Grammar) []map[int]bool {
	index := map[string]int{"$": lexer.EoiTokenType}
	for i, t := range gr.Tokens {
		if t.Flags&grammar.LiteralToken != 0 {
			index["'"+t.Name] = i
		} else {
			index["$"+t.Name] = i
		}
	}
	res := make([]map[int]bool, len(gr.Nodes))
	for i, n := range gr.Nodes {
		res[i] = map[int]bool{}
		for k := range g.First(g.Node(n.Name)) {
			res[i][index[k]] = true
		}
	}
	return res
}

// --- C31

var wordRe = regexp.MustCompile(`[a-zA-Z_][a-zA-Z_0-9-]*`)

// refOffset finds a place of a text, -1 if there is no such place.
func refOffset(text string, line, col int) int {
	off := 0
	for ; line > 1; line-- {
		k := strings.IndexByte(text[off:], '\n')
		if k < 0 {
			return -1
		}
		off += k + 1
	}
	for i := range text[off:] {
		if col == 1 {
			return off + i
		}
		col--
	}
	return -1
}

func runC31(c *mon.Ctx) {
	var a gen.Alphabet
	var g *gen.Grammar
	if c.Chance(50) {
		a, _ = dirAlphabet(c)
	} else {
		a = gen.Std(c.Rand, gen.AlphaOpts{Min: 1, Max: 6, Groups: c.Chance(30)})
	}
	g = a.New()
	o := gen.Opts{Terms: a.Terms, MaxNodes: 1 + c.IntN(6), Depth: c.IntN(4), Width: 1 + c.IntN(3)}
	if c.Chance(1) {
		o.MaxNodes = 2 + c.IntN(60)
		o.Depth, o.Width = 1, 2
		c.Count("many_nodes", 1)
	}
	if c.Chance(1) {
		g, a = bigGrammar(c)
		c.Count("big_grammars", 1)
	} else if c.Chance(2) {
		n := 10 + c.IntN(50)
		if c.Chance(10) {
			n += c.IntN(200)
		}
		g.ChainNodes(c.Rand, a.Terms, n, c.Chance(40))
		c.Count("long_chains", 1)
	} else if c.Chance(60) {
		g.RawNodes(c.Rand, o)
	} else if !g.RandomNodes(c.Rand, o, nil) {
		c.Abort()
	}
	codes := map[int]string{}
	words := map[int][]string{} // one of them must be mentioned
	at := map[int][]string{}    // the error is at one of them
	guilty := func(code int, names []string, what string) {
		if len(names) > 0 {
			codes[code] = what
			words[code] = append(words[code], names...)
		}
	}
	guilty(langdef.UnknownNodeError, g.UndefinedNodes(), "undefined node")
	guilty(langdef.UnusedNodeError, g.UnusedNodes(), "unused node")
	if !g.Undefined() {
		guilty(langdef.UnresolvedError, g.UnresolvedNodes(), "unresolved node")
		guilty(langdef.RecursionError, g.LeftRecursiveNodes(), "left recursion")
	}
	blame := func(code int, word, pos string) {
		if word != "" {
			words[code] = append(words[code], word)
		}
		if pos != "" {
			at[code] = append(at[code], pos)
		}
	}
	defs, dirs := g.Records()
	var recs []string
	recs = append(recs, defs...)
	recs = append(recs, dirs...)
	nodes := make([]string, len(g.Nodes))
	for i, n := range g.Nodes {
		nodes[i] = fmt.Sprintf("%s = %s;\n", n.Name, n.Body)
	}
	addItem := func(item string) {
		i := c.IntN(len(nodes))
		s := strings.TrimSuffix(nodes[i], ";\n")
		switch c.IntN(3) {
		case 0:
			s += ", [" + item + "]"
		case 1:
			s += ", " + item
		default:
			s += ", {(" + item + " | " + item + ")}"
		}
		nodes[i] = s + ";\n"
	}
	putRec := func(s string, from int) {
		i := from + c.IntN(len(recs)+1-from)
		recs = append(recs[:i], append([]string{s}, recs[i:]...)...)
	}
	anyType := func(f func(t gen.TokDef) bool) string {
		var names []string
		for _, t := range g.Toks {
			if f(t) {
				names = append(names, t.Name)
			}
		}
		if len(names) == 0 {
			return ""
		}
		return pick(c.Rand, names)
	}
	hasLitDir := false
	for _, t := range g.Toks {
		hasLitDir = hasLitDir || t.NoLit
	}
	mistakes, tooMany := 0, false
	if c.Chance(60) {
		mistakes = 1
	}
	if c.Chance(10) {
		mistakes = 2
	}
	for round := range mistakes {
		switch c.IntN(18) {
		case 0:
			t := pick(c.Rand, []string{"undef", "nam", "Name", "space-", "root"})
			addItem("$" + t)
			blame(langdef.UnknownTokenError, t, "$"+t)
			codes[langdef.UnknownTokenError] = "undefined token in a rule"
		case 1:
			if t := anyType(func(t gen.TokDef) bool { return t.Side || t.Error }); t != "" {
				addItem("$" + t)
				blame(langdef.WrongTokenError, t, "$"+t)
				codes[langdef.WrongTokenError] = "side or error token in a rule"
			}
		case 2:
			if t := anyType(func(t gen.TokDef) bool { return !t.Extern }); t != "" {
				putRec("$"+t+" = /"+pick(c.Rand, []string{"x", "[a-z]+", "1"})+"/;\n", 0)
				blame(langdef.TokenDefinedError, t, "$"+t)
				codes[langdef.TokenDefinedError] = "token defined twice"
			}
		case 3:
			n := pick(c.Rand, nodes)
			name := n[:strings.IndexByte(n, ' ')]
			i := c.IntN(len(nodes) + 1)
			body := n[strings.IndexByte(n, ' '):]
			if c.Chance(50) {
				body = " = 'a';\n"
				if t := anyType(func(t gen.TokDef) bool { return !t.Side && !t.Error }); t != "" {
					body = " = $" + t + ";\n"
				}
			}
			nodes = append(nodes[:i], append([]string{name + body}, nodes[i:]...)...)
			blame(langdef.NodeDefinedError, name, name)
			codes[langdef.NodeDefinedError] = "node defined twice"
		case 4:
			re := "/" + pick(c.Rand, []string{`(`, `[a`, `a)`, `*`, `\Q\p{x}\E\p{xx}`, `a{2,1}`, `(?P<`, `\8`, `a**`, `x)(y`}) + "/"
			putRec("$wrong"+pick(c.Rand, []string{"", "1"})+" = "+re+";\n", 0)
			blame(langdef.WrongRegexpError, "", re)
			codes[langdef.WrongRegexpError] = "wrong expression"
		case 5:
			d := pick(c.Rand, []string{"side", "error", "caseless", "group", "literal"})
			if d == "literal" && !hasLitDir {
				continue
			}
			putRec(fmt.Sprintf("!%s $undef%d;\n", d, round), 0)
			blame(langdef.UndefinedTokenError, fmt.Sprintf("undef%d", round), "")
			codes[langdef.UndefinedTokenError] = "directive lists undefined token"
		case 6:
			if mistakes > 1 {
				continue // mistakes would hide each other
			}
			// whitelist without some literal
			seen := map[string]bool{}
			var lits []string
			for _, e := range g.Exprs() {
				if e.K == gen.KLit && !seen[e.Name] {
					seen[e.Name] = true
					lits = append(lits, e.Name)
				}
			}
			sort.Strings(lits)
			if len(lits) < 2 {
				continue
			}
			skip := c.IntN(len(lits) + 1) // none is skipped if it is the length
			s := "!literal"
			for i, l := range lits {
				if i == skip {
					res := false
					for _, r := range g.Reserved {
						res = res || r == l
					}
					if !res { // reserved literals are listed as well
						blame(langdef.UnknownLiteralError, l, "")
						codes[langdef.UnknownLiteralError] = "literal is not whitelisted"
					}
				} else {
					s += " '" + l + "'"
				}
			}
			if strings.Count(s, "'") != 2*len(lits) && skip == len(lits) {
				continue
			}
			ok := true
			for _, l := range lits {
				if strings.ContainsRune(l, '\'') {
					ok = false
				}
			}
			if ok {
				putRec(s+";\n", 0)
			} else {
				delete(codes, langdef.UnknownLiteralError)
			}
		case 7, 8:
			// literals which cannot be produced
			l := pick(c.Rand, []string{"?", "foo bar?", "", "~~", "a~", "\x01", "1~", "ж~", "<<~"})
			fine := false
			if !tooMany && c.Chance(30) {
				// caseless type produces no lowercase letters
				l = pick(c.Rand, []string{"~Ab", "~ab", "~aB", "~Жд", "~1aX", "~AB", "~ДЖ", "~1X"})
				fine = l == strings.ToUpper(l) && !hasLitDir
				if fine && mistakes > 1 {
					c.Abort() // the other one may exclude the type
				}
				putRec(fmt.Sprintf("$cl%d = /~[\\dA-Za-zА-Яа-я]+/;\n!caseless $cl%d;\n", round, round), 0)
				c.Count("caseless_literals", 1)
			}
			if c.Chance(50) {
				addItem("'" + l + "'")
			} else {
				putRec("!reserved '"+l+"';\n", 0)
			}
			can := false
			for _, t := range g.Toks {
				if !t.Extern && cachedRe(t.Re).MatchString(l) && cachedRe(t.Re).FindString(l) == l {
					can = true
				}
			}
			if can {
				c.Abort()
			}
			if fine {
				continue
			}
			guilty(langdef.UnresolvedTokenTypesError, []string{l}, "literal cannot be produced")
		case 9:
			// excluded types
			if hasLitDir {
				continue
			}
			putRec("$only = /=====+/; !literal $only;\n", 0)
			for _, e := range g.Exprs() {
				if e.K == gen.KLit {
					blame(langdef.UnresolvedTokenTypesError, e.Name, "")
					codes[langdef.UnresolvedTokenTypesError] = "literal types are excluded"
				}
			}
			for _, r := range g.Reserved {
				blame(langdef.UnresolvedTokenTypesError, r, "")
				codes[langdef.UnresolvedTokenTypesError] = "literal types are excluded"
			}
			hasLitDir = true
		case 10:
			if t := anyType(func(t gen.TokDef) bool { return t.Group == 0 && !t.Side }); t != "" {
				if c.Chance(50) {
					putRec("!group $"+t+";\n", 0)
					putRec("!group $"+t+";\n", 0)
				} else {
					putRec("!group $"+t+" $"+t+";\n", 0)
				}
				blame(langdef.ReassignedGroupError, t, "")
				codes[langdef.ReassignedGroupError] = "token grouped twice"
			}
		case 11:
			if tooMany {
				continue
			}
			tooMany = true
			n := 0
			for _, r := range recs {
				if strings.HasPrefix(r, "$") && !strings.HasPrefix(r, "$$") {
					n++
				}
			}
			n += strings.Count(strings.Join(recs, ""), "$ind") // possible external types
			total := pick(c.Rand, []int{55, 60, 65, 66, 80, 130})
			for i := n; i < total; i++ {
				if c.Chance(20) {
					putRec(fmt.Sprintf("!extern $t%d;\n", i), 0)
				} else {
					putRec(fmt.Sprintf("$t%d = /~t%d~/;\n", i, i), 0)
				}
			}
			if total > 64 {
				codes[langdef.TokenTypeNumberError] = "too many types"
			}
		case 12:
			i := c.IntN(len(recs) + 1)
			recs = append(recs[:i], append([]string{"$$tt = /x/;\n"}, recs[i:]...)...)
			putRec("$$tt = /y/;\n", i+1)
			blame(langdef.TemplateDefinedError, "tt", "$$tt")
			codes[langdef.TemplateDefinedError] = "template defined twice"
		case 13:
			if c.Chance(50) {
				putRec("$uses = /x/ tpl;\n", 0)
			} else {
				i := c.IntN(len(recs) + 1)
				recs = append(recs[:i], append([]string{"$$uses = tpl /x/;\n"}, recs[i:]...)...)
				putRec("$$tpl = /y/;\n", i+1)
			}
			blame(langdef.UnknownTemplateError, "tpl", "tpl")
			codes[langdef.UnknownTemplateError] = "template is not defined"
		case 14:
			d := "!" + pick(c.Rand, []string{"foo", "sides", "sid", "literals", "groups", "external", "aside"})
			blame(langdef.UnknownDirectiveError, d, d)
			putRec(d+pick(c.Rand, []string{" $name", " 'a'", ""})+";\n", 0)
			codes[langdef.UnknownDirectiveError] = "unknown directive"
		case 15:
			esc := `"a` + pick(c.Rand, []string{`\q`, `\0`, `\'`, `\x1`, `\xgg`, `\u12`, `\u 123`, `\U0000004`, `\N`, `\/`}) + `"`
			addItem(esc)
			blame(langdef.InvalidEscapeError, "", esc)
			codes[langdef.InvalidEscapeError] = "invalid escape"
		case 16:
			esc := pick(c.Rand, []string{`\ud800`, `\udfff`, `\U00110000`, `\UFFFFFFFF`, `\U0000dABC`})
			addItem(`"` + esc + `"`)
			blame(langdef.InvalidRuneError, `"`+esc[2:]+`"`, `"`+esc)
			codes[langdef.InvalidRuneError] = "invalid rune"
		default:
			n := pick(c.Rand, []string{"undef-node", "Root", "root1", "name"})
			addItem(n)
			blame(langdef.UnknownNodeError, n, "")
			codes[langdef.UnknownNodeError] = "undefined node"
		}
	}
	text := strings.Join(recs, "") + strings.Join(nodes, "")
	c.Put("grammar", text)
	c.Crumb()
	c.Eval()
	gr, e := langdef.ParseString("g", text)
	if len(codes) == 0 {
		c.Count("valid", 1)
		if e != nil {
			c.Fatal("correct description is rejected: %v\n%s", e, text)
		}
		return
	}
	c.Distinct(text)
	var found []string
	for k, s := range codes {
		found = append(found, fmt.Sprintf("%d (%s)", k, s))
	}
	sort.Strings(found)
	if c.Idx < 20 {
		c.Sample("%v: %v\n%s", found, e, text)
	}
	if e == nil {
		b, _ := json.Marshal(gr)
		c.Put("compiled", string(b))
		c.Fatal("wrong description is accepted, mistakes are %v:\n%s", found, text)
	}
	le := hx.LLX(e)
	if le == nil || codes[le.Code] == "" {
		c.Fatal("error is %v, mistakes are %v:\n%s", e, found, text)
	}
	ws := words[le.Code]
	ok := len(ws) == 0
	for _, w := range ws {
		ok = ok || mentions(le, w)
	}
	if !ok {
		c.Fatal("error %v mentions none of %q:\n%s", e, ws, text)
	}
	if le.Code == langdef.UnknownNodeError || le.Code == langdef.UnusedNodeError {
		list := wordRe.FindAllString(le.Message, -1)
		for _, n := range g.Nodes {
			if contains(list, n.Name) && !contains(ws, n.Name) {
				c.Fatal("error %v mentions %q, wrong ones are %q:\n%s", e, n.Name, ws, text)
			}
		}
		for _, w := range ws {
			if !contains(list, w) {
				c.Fatal("error %v does not mention %q, wrong ones are %q:\n%s", e, w, ws, text)
			}
		}
		c.Max("listed_nodes", len(ws))
	}
	if ps := at[le.Code]; len(ps) > 0 {
		c.Count("located", 1)
		ok = false
		off := refOffset(text, le.Line, le.Col)
		for _, p := range ps {
			ok = ok || off >= 0 && strings.HasPrefix(text[off:], p)
		}
		if !ok {
			c.Fatal("error %v at %d:%d is not at one of %q:\n%s", e, le.Line, le.Col, ps, text)
		}
	}
	c.Count(fmt.Sprintf("code_%d", le.Code-langdef.UnexpectedEofError+1), 1)
}
