package main

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/hx"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

func init() {
	register(&mon.Check{
		ID: "C17",
		Rule: "random token types with overlapping expressions, groups, caseless, reserved, whitelisted, external and error types, directives placed at random among definitions; sentences, mutations and " +
			"recased texts of random LL(1) grammars are judged by an independent reading of directives; non-trivial: distinct (description, accepted text) where some directive matters",
		Quick: 8000, Thorough: 200000,
		Need:        []string{"accepted", "rejected", "must_accept", "caseless_tokens", "reserved_tokens", "group_tokens", "extern_tokens", "nolit_tokens", "listed_literals", "error_tokens", "reordered", "mixed_directives", "split_directives", "repeated_items"},
		Run:         runC17,
		Assumptions: []string{"acceptance is claimed if at each token the only type expected and found by some group is the intended one, and no literal in use is also matched by a type in use unless it is reserved"},
	})
	register(&mon.Check{
		ID: "C18",
		Rule: "random string literals of both quoting styles with all kinds of escapes, random broken escapes, literals as layer arguments and as grammar items parsed against equal and near-equal inputs; " +
			"random template chains; non-trivial: distinct literal texts with an escape or a non-ASCII byte, distinct template chains",
		Quick: 40000, Thorough: 1000000,
		Need: []string{"literals", "escapes", "broken", "matched", "not_matched", "templates", "template_errors"},
		Run:  runC18,
	})
}

type dirType struct {
	name    string
	re      string
	texts   []string
	literal []string
	rx      *regexp.Regexp
}

var dirTypes = []dirType{
	{name: "name", re: `[a-z]+`, texts: []string{"foo", "q", "zz", "if", "end"}, literal: []string{"if", "end", "a"}},
	{name: "num", re: `-?[0-9]+`, texts: []string{"1", "-2", "30", "-44"}, literal: []string{"1", "-2"}},
	{name: "nat", re: `[0-9]+`, texts: []string{"5", "60", "777"}, literal: []string{"5", "60"}},
	{name: "dec", re: `[0-9]+\.[0-9]+`, texts: []string{"1.5", "0.0"}, literal: []string{"1.5"}},
	{name: "op", re: `[-+*.]`, texts: []string{"-", "+", "*", "."}, literal: []string{"-", "+", "."}},
	{name: "cmp", re: `<<|<|==|=`, texts: []string{"<", "<<", "=", "=="}, literal: []string{"<", "<<", "=="}},
	{name: "lt", re: `[<=]`, texts: []string{"<", "="}, literal: []string{"<", "="}},
	{name: "raw", re: `[^;\n# ][^;\n#]*`, texts: []string{"raw text", "foo", "1 + 2", "if", "+"}, literal: []string{"if", "+", "a b"}},
	{name: "str", re: `"[^"]*"`, texts: []string{`"s"`, `""`, `"IF"`}, literal: []string{`"s"`}},
	{name: "semi", re: `[;,]`, texts: []string{";", ","}, literal: []string{";", ","}},
	{name: "word", re: `[A-Za-z]+`, texts: []string{"foo", "Foo", "BAR", "If", "ж"[:0] + "then"}, literal: []string{"IF", "THEN", "X"}},
	{name: "key", re: `\$[A-Za-zÀ-ÿ]+`, texts: []string{"$aa", "$Bb", "$é"}, literal: []string{"$AA", "$É"}},
	{name: "at", re: `(?i)at|by`, texts: []string{"at", "AT", "By"}, literal: []string{"AT", "BY"}},
}

const extMark = "mark"

func (d *dirType) compile() {
	if d.rx == nil {
		d.rx = compileRe(d.re)
	}
}

type dirLex struct {
	g      *gen.Grammar
	rx     map[string]*regexp.Regexp
	groups int
}

// found lists types found by groups at the start of text, in order of groups.
func (l *dirLex) found(text string) (types []string, texts []string) {
	for gr := 0; gr <= l.groups; gr++ {
		for _, t := range l.g.Toks {
			if t.Extern || t.Group != gr {
				continue
			}
			if loc := l.rx[t.Name].FindStringIndex(text); loc != nil {
				types = append(types, t.Name)
				texts = append(texts, text[:loc[1]])
				break
			}
		}
	}
	return
}

func swapCase(c *mon.Ctx, s string) string {
	var b strings.Builder
	for _, r := range s {
		x := string(r)
		switch c.IntN(3) {
		case 0:
			x = strings.ToUpper(x)
		case 1:
			x = strings.ToLower(x)
		}
		b.WriteString(x)
	}
	return b.String()
}

// dirAlphabet makes random token types with directives.
func dirAlphabet(c *mon.Ctx) (gen.Alphabet, *dirLex) {
	a := gen.Alphabet{Texts: map[string][]string{}, LitType: map[string]string{}, LitTexts: map[string][]string{}}
	lx := &dirLex{rx: map[string]*regexp.Regexp{}}
	n := 2 + c.IntN(5)
	perm := c.Perm(len(dirTypes))[:n]
	a.Toks = []gen.TokDef{
		{Name: "space", Re: `[ \n\t]+`, Side: true},
		{Name: "comment", Re: `#[a-z]*;`, Side: true},
	}
	hasExt := c.Chance(25)
	if hasExt {
		a.Toks = append(a.Toks, gen.TokDef{Name: extMark, Re: `@[a-z]+@`, Side: true})
	}
	hasErr := c.Chance(25)
	if hasErr {
		a.Toks = append(a.Toks, gen.TokDef{Name: "err", Re: `%.{0,3}`, Error: true})
	}
	groups := 0
	if c.Chance(50) {
		groups = 1 + c.IntN(3)
	}
	for _, i := range perm {
		d := &dirTypes[i]
		d.compile()
		t := gen.TokDef{Name: d.name, Re: d.re}
		if (d.name == "word" || d.name == "key" || d.name == "at") && c.Chance(85) || c.Chance(5) {
			t.Caseless = true
		}
		if groups > 0 && c.Chance(50) {
			t.Group = 1 + c.IntN(groups)
		}
		a.Toks = append(a.Toks, t)
	}
	used := map[int]int{}
	for gr := 1; gr <= groups; gr++ {
		for _, t := range a.Toks {
			if t.Group == gr && used[gr] == 0 {
				used[gr] = len(used) + 1
			}
		}
	}
	for i := range a.Toks {
		a.Toks[i].Group = used[a.Toks[i].Group]
	}
	lx.groups = len(used)
	for _, t := range a.Toks {
		lx.rx[t.Name] = cachedRe(t.Re)
	}
	// terminals
	lits := map[string]bool{}
	for _, i := range perm {
		d := &dirTypes[i]
		if c.Chance(50) {
			a.Terms = append(a.Terms, &gen.Expr{K: gen.KTok, Name: d.name})
		}
		a.Texts[d.name] = d.texts
		if c.Chance(60) {
			l := pick(c.Rand, d.literal)
			if t := tokDef(a.Toks, d.name); t.Caseless && l != strings.ToUpper(l) {
				continue
			}
			if !lits[l] {
				lits[l] = true
				a.Terms = append(a.Terms, &gen.Expr{K: gen.KLit, Name: l})
			}
		}
	}
	if hasExt {
		for _, n := range []string{"ind", "ded"} {
			a.Toks = append(a.Toks, gen.TokDef{Name: n, Extern: true})
			a.Texts[n] = []string{""}
			a.Terms = append(a.Terms, &gen.Expr{K: gen.KTok, Name: n})
		}
	}
	if len(a.Terms) == 0 {
		a.Terms = append(a.Terms, &gen.Expr{K: gen.KTok, Name: dirTypes[perm[0]].name})
	}
	// types which can produce a literal
	if c.Chance(35) {
		for i := range a.Toks {
			if i >= 2 && !a.Toks[i].Extern && c.Chance(40) {
				a.Toks[i].NoLit = true
			}
		}
	}
	var terms []*gen.Expr
	for _, t := range a.Terms {
		if t.K == gen.KLit {
			var types []string
			for _, td := range a.Toks {
				if canProduce(td, lx.rx[td.Name], t.Name) {
					types = append(types, td.Name)
				}
			}
			if len(types) == 0 {
				continue
			}
			a.LitType[t.Name] = pick(c.Rand, types)
			if td := tokDef(a.Toks, a.LitType[t.Name]); td.Caseless {
				for range 4 {
					s := swapCase(c, t.Name)
					if lx.rx[td.Name].FindString(s) == s && strings.ToUpper(s) == t.Name {
						a.LitTexts[t.Name] = append(a.LitTexts[t.Name], s)
					}
				}
			}
		}
		terms = append(terms, t)
	}
	if len(terms) == 0 {
		for _, td := range a.Toks {
			if !td.Side && !td.Error {
				terms = append(terms, &gen.Expr{K: gen.KTok, Name: td.Name})
				break
			}
		}
	}
	a.Terms = terms
	for _, t := range a.Terms {
		if t.K == gen.KLit && c.Chance(60) {
			a.Reserved = append(a.Reserved, t.Name)
		}
	}
	if c.Chance(10) {
		a.Reserved = append(a.Reserved, pick(c.Rand, []string{"foo", "FOO", "777", "zz"}))
		// a reserved literal must be producible as well
		l := a.Reserved[len(a.Reserved)-1]
		ok := false
		for _, td := range a.Toks {
			ok = ok || canProduce(td, lx.rx[td.Name], l)
		}
		if !ok {
			a.Reserved = a.Reserved[:len(a.Reserved)-1]
		}
	}
	return a, lx
}

func tokDef(ts []gen.TokDef, name string) gen.TokDef {
	for _, t := range ts {
		if t.Name == name {
			return t
		}
	}
	return gen.TokDef{}
}

// canProduce tells if tokens of some type can have the text denoted by a literal.
func canProduce(t gen.TokDef, rx *regexp.Regexp, lit string) bool {
	if t.Extern || t.Error || t.Side || t.NoLit {
		return false
	}
	if t.Caseless && strings.ToUpper(lit) != lit {
		return false
	}
	return rx.FindString(lit) == lit
}

// respell makes equivalent directives: lists are split, types and texts are mixed, items are repeated.
func respell(c *mon.Ctx, dirs []string) (res []string) {
	type dir struct {
		name string
		args []string
	}
	var ds []dir
	for _, d := range dirs {
		ts := langTokens(d)
		ds = append(ds, dir{ts[0], ts[1 : len(ts)-1]})
	}
	types, texts := -1, -1
	for i, d := range ds {
		if d.name == "!literal" {
			if d.args[0][0] == '$' {
				types = i
			} else {
				texts = i
			}
		}
	}
	if types >= 0 && texts >= 0 && c.Chance(50) {
		for _, t := range ds[types].args {
			i := c.IntN(len(ds[texts].args) + 1)
			ds[texts].args = slices.Insert(slices.Clone(ds[texts].args), i, t)
		}
		ds = slices.Delete(ds, types, types+1)
		c.Count("mixed_directives", 1)
	}
	put := func(name string, args []string) {
		res = append(res, name+pick(c.Rand, []string{" ", "\n\t", " # foo\n"})+strings.Join(args, pick(c.Rand, []string{" ", "\n", "  # x;\n"}))+pick(c.Rand, []string{";\n", " ;"}))
	}
	for _, d := range ds {
		if d.name == "!group" {
			// every directive makes a new group
			put(d.name, d.args)
			continue
		}
		if c.Chance(15) {
			d.args = append(slices.Clone(d.args), pick(c.Rand, d.args))
			c.Count("repeated_items", 1)
		}
		if len(d.args) > 1 && c.Chance(30) {
			i := 1 + c.IntN(len(d.args)-1)
			put(d.name, d.args[:i])
			d.args = d.args[i:]
			c.Count("split_directives", 1)
		}
		put(d.name, d.args)
	}
	return
}

func runC17(c *mon.Ctx) {
	var g *gen.Grammar
	var a gen.Alphabet
	var lx *dirLex
	found := false
	for range 10 {
		a, lx = dirAlphabet(c)
		g = a.New()
		if g.RandomNodes(c.Rand, gen.Opts{Terms: a.Terms, MaxNodes: 2, Depth: 2, Width: 3, Eoi: c.Chance(30)}, func(g *gen.Grammar) bool { return g.LL1() && !g.SharedEntry() }) {
			found = true
			break
		}
	}
	if !found {
		c.Abort()
	}
	lx.g = g
	if c.Chance(40) {
		// all literals in use are listed as well as some others
		listed := map[string]bool{}
		for _, e := range g.Exprs() {
			if e.K == gen.KLit {
				listed[e.Name] = true
			}
		}
		for _, t := range a.Terms {
			if t.K == gen.KLit && c.Chance(20) {
				listed[t.Name] = true
			}
		}
		for _, r := range g.Reserved {
			if c.Chance(50) {
				listed[r] = true
			}
		}
		for l := range listed {
			g.Listed = append(g.Listed, l)
		}
		sort.Strings(g.Listed)
		c.Shuffle(len(g.Listed), func(i, j int) { g.Listed[i], g.Listed[j] = g.Listed[j], g.Listed[i] })
		if len(g.Listed) > 0 && c.Chance(20) {
			g.Listed = append(g.Listed, g.Listed[0])
		}
		g.ListLast = c.Chance(50)
		if len(g.Reserved) > 0 && c.Chance(20) {
			g.Reserved = append(g.Reserved, g.Reserved[0])
		}
		c.Count("listed_literals", len(g.Listed))
	}
	// records of the token part, directives at random places
	defs, dirs := g.Records()
	allDirs := dirs
	shuffled := func() string {
		var b strings.Builder
		dirs := respell(c, allDirs)
		pos := make([]int, len(dirs))
		for i := range pos {
			pos[i] = c.IntN(len(defs) + 1)
		}
		sort.Ints(pos)
		j := 0
		for i := 0; i <= len(defs); i++ {
			for j < len(pos) && pos[j] == i {
				b.WriteString(dirs[j])
				j++
			}
			if i < len(defs) {
				b.WriteString(defs[i])
			}
		}
		return b.String()
	}
	text := shuffled() + g.NodePart()
	g1, e := langdef.ParseString("g", text)
	c.Put("grammar", text)
	if e != nil {
		c.Fatal("valid description is rejected: %v\n%s", e, text)
	}
	for range 2 {
		text2 := shuffled() + g.NodePart()
		g2, e := langdef.ParseString("g", text2)
		if e != nil || !reflect.DeepEqual(g1, g2) {
			c.Put("grammar2", text2)
			c.Fatal("order of directives relative to definitions matters (%v):\n%s\n%s", e, text, text2)
		}
		c.Count("reordered", 1)
	}
	p, e := parser.New(g1)
	if e != nil {
		c.Fatal("cannot create a parser: %v", e)
	}
	extHook := func(_ context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
		nt, e := tc.ParseContext().Parser().MakeToken(strings.Trim(t.Text(), "@"), []byte{})
		return false, []*lexer.Token{nt}, e
	}
	overlap := overlapTerms(g, lx)
	for range 12 {
		if c.Failed() {
			return
		}
		seq := g.Sentence(c.Rand, a, 1+c.IntN(10))
		if c.Chance(30) {
			seq = dirMutate(c, a, seq)
		}
		if len(seq) > 25 {
			continue
		}
		// errors
		errAt := -1
		if tokDef(a.Toks, "err").Error && c.Chance(30) {
			errAt = c.IntN(len(seq) + 1)
		}
		// text
		var b strings.Builder
		starts := make([]int, len(seq))
		useHook := !c.Chance(15)
		for i := 0; i <= len(seq); i++ {
			if i == errAt {
				b.WriteString(" %er\n")
			}
			if i == len(seq) {
				break
			}
			if c.Chance(40) || i > 0 && !c.Chance(30) {
				b.WriteString(pick(c.Rand, []string{" ", "\n", " #c;", "#;\n ", "\t"}))
			}
			starts[i] = b.Len()
			if tokDef(a.Toks, seq[i].Type).Extern {
				b.WriteString("@" + seq[i].Type + "@")
			} else {
				b.WriteString(seq[i].Text)
			}
		}
		input := b.String()
		hooks := parser.Hooks{Tokens: parser.TokenHooks{}}
		if useHook {
			hooks.Tokens[extMark] = extHook
		}
		rec := &hx.Recorder{}
		hooks.Nodes = rec.Hooks().Nodes
		if !has(a.Toks, extMark) {
			delete(hooks.Tokens, extMark)
			useHook = true
		}
		c.Eval()
		_, e := p.ParseString(bg, "input", input, hooks, parser.WithFullSource())
		fail := func(format string, args ...any) {
			c.Put("input", input)
			if rec.Root != nil {
				c.Put("tree", rec.Root.String())
			}
			c.Fail(format+"; input %q, description:\n%s", append(args, input, text)...)
		}
		// soundness: tokens reported cover the text, have right types, and make a valid tree
		if e == nil {
			c.Count("accepted", 1)
			var toks []gen.Tok
			at := 0
			bad := ""
			var conv func(n *hx.RNode) *gen.Tree
			conv = func(n *hx.RNode) *gen.Tree {
				t := &gen.Tree{Node: n.Name}
				for _, k := range n.Kids {
					switch x := k.(type) {
					case *hx.RNode:
						t.Kids = append(t.Kids, conv(x))
					case *lexer.Token:
						if x.Type() == lexer.EoiTokenType {
							t.Kids = append(t.Kids, &gen.Tree{Tok: len(toks)})
							continue
						}
						td := tokDef(a.Toks, x.TypeName())
						switch {
						case td.Name == "" || td.Side || td.Error:
							bad = "node hooks got " + hx.TokName(x)
						case td.Extern:
							if !useHook {
								bad = "external token without a hook"
							}
							c.Count("extern_tokens", 1)
						default:
							ps := x.Pos().Pos()
							if ps < at || !sidesOnly(input[at:ps]) {
								bad = fmt.Sprintf("text between %d and %d is lost", at, ps)
							} else {
								types, texts := lx.found(input[ps:])
								ok := false
								for i := range types {
									if types[i] == x.TypeName() && texts[i] == x.Text() {
										ok = true
									}
								}
								if !ok {
									bad = fmt.Sprintf("token %s cannot be found there, groups find %v %q", hx.TokName(x), types, texts)
								}
							}
							at = ps + len(x.Text())
						}
						t.Kids = append(t.Kids, &gen.Tree{Tok: len(toks)})
						toks = append(toks, gen.Tok{Type: x.TypeName(), Text: x.Text()})
						if td.Caseless {
							c.Count("caseless_tokens", 1)
						}
						if td.NoLit {
							c.Count("nolit_tokens", 1)
						}
						if td.Group > 0 {
							c.Count("group_tokens", 1)
						}
						for _, r := range a.Reserved {
							if r == x.Text() {
								c.Count("reserved_tokens", 1)
							}
						}
					}
				}
				return t
			}
			tree := conv(rec.Root)
			if bad == "" && !sidesOnly(input[min(at, len(input)):]) {
				bad = "text after the last token is lost"
			}
			m := g.NewMatcher(toks)
			if bad == "" {
				bad = m.ValidTree(tree)
			}
			if bad != "" {
				fail("%s", bad)
				return
			}
			c.Distinct(text, input)
		} else {
			c.Count("rejected", 1)
		}
		if errAt >= 0 {
			if lx.groups == 0 && e != nil && useHook {
				// the prefix must be read before the error is met
				ok := true
				for i := range errAt {
					types, texts := lx.found(input[starts[i]:])
					if len(types) != 1 || texts[0] != tokText(a, seq[i]) || types[0] != lexType(a, seq[i]) {
						ok = false
					}
				}
				if ok && !overlap && g.NewMatcher(seq[:errAt]).RootViable(errAt) {
					le := hx.LLX(e)
					if le == nil || le.Code != lexer.BadTokenError || !strings.Contains(le.Message, `%er\n`) {
						fail("error token is reported as %v", e)
						return
					}
					c.Count("error_tokens", 1)
				}
			}
			continue
		}
		if overlap || !useHook {
			continue
		}
		// completeness
		m := g.NewMatcher(seq)
		if m.RootCount(len(seq)) != 1 || !m.Guaranteed(m.RootDeriv(len(seq))) {
			continue
		}
		ok := true
		for i := range seq {
			viable := viableTypes(c, g, a, lx, seq[:i])
			types, texts := lx.found(input[starts[i]:])
			n := 0
			for j, t := range types {
				if viable[t] || tokDef(a.Toks, t).Side {
					n++
					if t != lexType(a, seq[i]) || texts[j] != tokText(a, seq[i]) {
						ok = false
					}
				}
			}
			if n != 1 || lx.groups > 0 && types[0] != lexType(a, seq[i]) && !viable[types[0]] && tokDef(a.Toks, types[0]).Error {
				ok = false
			}
			if !ok {
				break
			}
		}
		// side tokens must be found as such
		for i := 0; ok && i <= len(seq); i++ {
			from := 0
			if i > 0 {
				from = starts[i-1] + len(tokText(a, seq[i-1]))
			}
			to := len(input)
			if i < len(seq) {
				to = starts[i]
			}
			for from < to {
				types, texts := lx.found(input[from:to])
				if len(types) == 0 || !tokDef(a.Toks, types[0]).Side {
					ok = false
					break
				}
				from += len(texts[0])
			}
		}
		if !ok {
			c.Count("ambiguous_lexing", 1)
			continue
		}
		if e != nil {
			fail("a sentence is rejected: %v; tokens %v", e, seq)
			return
		}
		c.Count("must_accept", 1)
	}
	if c.Idx < 10 {
		c.Sample("%s", text)
	}
}

func has(ts []gen.TokDef, name string) bool { return tokDef(ts, name).Name != "" }

func lexType(a gen.Alphabet, t gen.Tok) string {
	if tokDef(a.Toks, t.Type).Extern {
		return extMark
	}
	return t.Type
}

func tokText(a gen.Alphabet, t gen.Tok) string {
	if tokDef(a.Toks, t.Type).Extern {
		return "@" + t.Type + "@"
	}
	return t.Text
}

func sidesOnly(s string) bool { return sideRe.MatchString(s) }

var sideRe = regexp.MustCompile(`^(?:[ \n\t]+|#[a-z]*;|@[a-z]+@)*$`)

// overlapTerms tells if a literal in use which is not reserved is also matched by a type in use.
func overlapTerms(g *gen.Grammar, lx *dirLex) bool {
	types := map[string]bool{}
	for _, e := range g.Exprs() {
		if e.K == gen.KTok {
			types[e.Name] = true
		}
	}
	reserved := map[string]bool{}
	for _, r := range g.Reserved {
		reserved[r] = true
	}
	for _, e := range g.Exprs() {
		if e.K != gen.KLit || reserved[e.Name] {
			continue
		}
		for _, t := range g.Toks {
			if types[t.Name] && canProduce(t, lx.rx[t.Name], e.Name) {
				return true
			}
		}
	}
	return false
}

// viableTypes lists token types which some terminal acceptable after seq may have.
func viableTypes(c *mon.Ctx, g *gen.Grammar, a gen.Alphabet, lx *dirLex, seq []gen.Tok) map[string]bool {
	res := map[string]bool{}
	for _, t := range a.Terms {
		tok := a.TokFor(c.Rand, t)
		w := append(append([]gen.Tok{}, seq...), tok)
		if !g.Match(t, tok) || !g.NewMatcher(w).RootViable(len(w)) {
			continue
		}
		if t.K == gen.KTok {
			res[lexType(a, tok)] = true
			continue
		}
		for _, td := range a.Toks {
			if canProduce(td, lx.rx[td.Name], t.Name) {
				res[td.Name] = true
			}
		}
	}
	return res
}

func dirMutate(c *mon.Ctx, a gen.Alphabet, seq []gen.Tok) []gen.Tok {
	res := append([]gen.Tok(nil), seq...)
	if len(res) == 0 {
		return res
	}
	i := c.IntN(len(res))
	switch c.IntN(4) {
	case 0:
		res = append(res[:i], res[i+1:]...)
	case 1:
		res[i] = a.TokFor(c.Rand, pick(c.Rand, a.Terms))
	case 2:
		// another letter case
		res[i].Text = swapCase(c, res[i].Text)
	default:
		td := pick(c.Rand, a.Toks)
		if tt := a.Texts[td.Name]; len(tt) > 0 {
			res[i] = gen.Tok{Type: td.Name, Text: pick(c.Rand, tt)}
		}
	}
	return res
}

// --- C18

type litPiece struct {
	src string
	val string
}

func randLiteral(c *mon.Ctx) (src, val string, broken int) {
	plain := []string{"a", "Z", "0", " ", "+", "#", ";", "/", "$", "{", "=", "\n", "\t", "ж", "€", "😀", "\xff", "\xc3", "n", "x41", "u", ",", "!", "@"}
	if c.Chance(35) {
		// single quotes: no escapes
		var b strings.Builder
		for range 1 + c.IntN(8) {
			if c.Chance(30) {
				b.WriteString(pick(c.Rand, []string{`\`, `"`, `\n`, `\x41`, `\\`, `\"`}))
			} else {
				b.WriteString(pick(c.Rand, plain))
			}
		}
		s := b.String()
		return "'" + s + "'", s, 0
	}
	var s, v strings.Builder
	put := func(a, b string) { s.WriteString(a); v.WriteString(b) }
	hex := func(n uint32, l int) string {
		f := fmt.Sprintf("%0*x", l, n)
		if c.Chance(50) {
			f = strings.ToUpper(f)
		}
		return f
	}
	bad := c.Chance(15)
	n := 1 + c.IntN(8)
	badAt := c.IntN(n)
	for i := range n {
		if bad && i == badAt {
			switch c.IntN(6) {
			case 0:
				s.WriteString(`\` + pick(c.Rand, []string{"a", "q", "N", "0", "'", "X", "v", " ", "ж", "\n", "R"}))
				broken = langdef.InvalidEscapeError
			case 1:
				s.WriteString(`\x` + pick(c.Rand, []string{"g1", "1g", "-1", "+1", " 1", "0x", "_1"}))
				broken = langdef.InvalidEscapeError
			case 2:
				s.WriteString(`\u` + pick(c.Rand, []string{"12g4", "ghij", "00 1", "0x12"}))
				broken = langdef.InvalidEscapeError
			case 3:
				s.WriteString(`\u` + hex(0xd800+uint32(c.IntN(0x800)), 4))
				broken = langdef.InvalidRuneError
			case 4:
				s.WriteString(`\U` + hex(0x110000+uint32(c.IntN(1<<30)), 8))
				broken = langdef.InvalidRuneError
			default:
				// too short, must be the last one
				s.WriteString(pick(c.Rand, []string{`\x`, `\x1`, `\u`, `\u123`, `\U`, `\U0001234`, `\U00`}))
				broken = langdef.InvalidEscapeError
				return `"` + s.String() + `"`, "", broken
			}
			continue
		}
		switch c.IntN(10) {
		case 0:
			put(`\\`, `\`)
		case 1:
			put(`\"`, `"`)
		case 2:
			put(`\n`, "\n")
		case 3:
			put(`\r`, "\r")
		case 4:
			put(`\t`, "\t")
		case 5:
			x := c.IntN(256)
			put(`\x`+hex(uint32(x), 2), string([]byte{byte(x)}))
		case 6:
			x := rune(c.IntN(0xd800))
			if c.Chance(40) {
				x = rune(0xe000 + c.IntN(0x2000))
			}
			if c.Chance(20) {
				x = pick(c.Rand, []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffd})
			}
			put(`\u`+hex(uint32(x), 4), string(x))
		case 7:
			x := rune(c.IntN(0x110000))
			if c.Chance(20) {
				x = pick(c.Rand, []rune{0, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000})
			}
			if !utf8.ValidRune(x) {
				x = 'x'
			}
			put(`\U`+hex(uint32(x), 8), string(x))
		default:
			p := pick(c.Rand, append(plain, "'"))
			put(p, p)
		}
	}
	return `"` + s.String() + `"`, v.String(), broken
}

func runC18(c *mon.Ctx) {
	if c.Chance(25) {
		c18Templates(c)
		return
	}
	src, val, broken := randLiteral(c)
	c.Put("literal", src)
	c.Count("literals", 1)
	if strings.Contains(src, `\`) {
		c.Count("escapes", 1)
		c.Distinct(src)
	}
	if c.Idx < 20 {
		c.Sample("%q means %q, error code %d", src, val, broken)
	}
	prefix := pick(c.Rand, []string{"", "\n", "# comment\n", "  "})
	// as an argument of a layer command
	text := "$any = /.+/;\n" + prefix + "@layer cmd(name, " + src + ", " + src + ") " + "cmd2(" + src + ");\nroot = $any;\n"
	c.Eval()
	g, e := langdef.ParseString("g", text)
	if broken != 0 {
		c.Count("broken", 1)
		le := hx.LLX(e)
		if le == nil || le.Code != broken {
			c.Fatal("literal %s: error %v instead of code %d", src, e, broken)
		}
		pos := strings.Index(text, src)
		if l, cl := refLineCol(text, pos); le.Line != l || le.Col != cl || le.SourceName != "g" {
			c.Fatal("literal %s at %d:%d: the error is located at %d:%d", src, l, cl, le.Line, le.Col)
		}
		// same as an item
		_, e = langdef.ParseString("g", "$any = /.+/;\nroot = $any, "+src+";\n")
		if le := hx.LLX(e); le == nil || le.Code != broken {
			c.Fatal("literal %s as an item: error %v instead of code %d", src, e, broken)
		}
		// and as the first argument or a directive operand
		for _, text := range []string{"$any = /.+/;\n@layer cmd(" + src + " foo);\nroot = $any;\n", "$any = /.+/;\n!reserved 'a' " + src + ";\nroot = $any;\n", "$any = /.+/;\n!literal " + src + " 'a';\nroot = $any;\n"} {
			_, e = langdef.ParseString("g", text)
			if le := hx.LLX(e); le == nil || le.Code != broken {
				c.Fatal("literal %s: error %v instead of code %d:\n%s", src, e, broken, text)
			}
		}
		return
	}
	if e != nil {
		c.Fatal("literal %s is rejected: %v", src, e)
	}
	want := []grammar.LayerCommand{{Command: "cmd", Arguments: []string{"name", val, val}}, {Command: "cmd2", Arguments: []string{val}}}
	if !reflect.DeepEqual(g.Layers[0].Commands, want) {
		c.Fatal("literal %s means %q instead of %q", src, g.Layers[0].Commands, val)
	}
	if val == "" {
		return
	}
	// as an item: matches a token if and only if its text is the same
	text = "$any = /.+/;\nroot = [" + src + " | $any];\n"
	if c.Chance(50) {
		text = "$any = /.+/;\n!reserved " + src + ";\nroot = " + src + ";\n"
	} else if c.Chance(50) {
		text = "$any = /.+/;\n!literal " + src + ";\nroot = " + src + ";\n"
	} else {
		text = "$any = /.+/;\nroot = " + src + ";\n"
	}
	p, e := hx.Compile(text)
	if e != nil {
		c.Fatal("literal %s as an item is rejected: %v", src, e)
	}
	inputs := []string{val, val + "x", val[1:], val + val, val[:len(val)-1], "x" + val, strings.ToUpper(val), strings.ToLower(val), src, src[1 : len(src)-1], strings.TrimSpace(val)}
	if len(val) > 1 {
		i := c.IntN(len(val))
		b := []byte(val)
		b[i] ^= 1 << c.IntN(8)
		inputs = append(inputs, string(b))
	}
	for _, in := range inputs {
		if in == "" {
			continue
		}
		c.Eval()
		_, e := p.ParseString(bg, "input", in, parser.Hooks{}, parser.WithFullSource())
		if (e == nil) != (in == val) {
			c.Put("input", in)
			c.Fatal("literal %s denoting %q: token %q is matched: %v (%v)", src, val, in, e == nil, e)
		}
		if e == nil {
			c.Count("matched", 1)
		} else {
			c.Count("not_matched", 1)
		}
	}
}

func c18Templates(c *mon.Ctx) {
	pieces := []string{`a`, `[a-z]`, `(?:x|y)`, `\d+`, `\/`, `"`, `'`, ` `, `#`, `;`, `\\`, `z*`, `(?i:k)`, `\x41`, `.`, `|b`, `=`, `[^\/]+`}
	if c.Chance(15) {
		pieces = append(pieces, `(?:`, `)?`, `q)`)
	}
	tpl := map[string]string{}
	var names []string
	var b strings.Builder
	var res []string
	var tnames []string
	bad := 0
	concat := func(self string) (string, bool) {
		v := ""
		n := 1 + c.IntN(4)
		for i := range n {
			if i > 0 || true {
				b.WriteString(pick(c.Rand, []string{" ", "\n  ", " # c\n "}))
			}
			if len(names) > 0 && c.Chance(45) {
				t := pick(c.Rand, names)
				b.WriteString(t)
				v += tpl[t]
			} else {
				x := pick(c.Rand, pieces)
				if c.Chance(30) {
					x += pick(c.Rand, pieces)
				}
				b.WriteString("/" + x + "/")
				v += x
			}
		}
		if c.Chance(4) && bad == 0 {
			// unknown or not yet defined template
			if slices.Contains(names, self) {
				self = "later"
			}
			b.WriteString(" " + pick(c.Rand, []string{"later", self, self + "x", "LATER"}))
			bad = langdef.UnknownTemplateError
		}
		return v, true
	}
	for i := range 2 + c.IntN(5) {
		isTpl := c.Chance(60)
		redefined := false
		// similar names are different ones
		n := pick(c.Rand, []string{"t", "T", "tt", "tT", "Tt", "x-y", "X-y", "x_y", "xy", "_a", "_A", "a_", "a"})
		if isTpl && slices.Contains(names, n) || !isTpl && slices.Contains(tnames, n) {
			n = fmt.Sprintf("%s%d", n, i)
		}
		if isTpl && len(names) > 0 && c.Chance(5) && bad == 0 {
			n = pick(c.Rand, names)
			redefined = true
		}
		if isTpl {
			b.WriteString("$$" + n + " =")
		} else {
			b.WriteString("$" + n + " =")
		}
		was := bad
		if redefined {
			bad = langdef.TemplateDefinedError
		}
		v, _ := concat(n)
		b.WriteString(";\n")
		if redefined && was == 0 {
			bad = langdef.TemplateDefinedError
		}
		if _, e := regexp.Compile("(?s:" + v + ")"); bad == 0 && e != nil {
			bad = langdef.WrongRegexpError
		} else if _, e := regexp.Compile(v); bad == 0 && e != nil {
			bad = langdef.WrongRegexpError
		}
		if bad != 0 {
			break
		}
		if isTpl {
			tpl[n] = v
			names = append(names, n)
		} else {
			tnames = append(tnames, n)
			res = append(res, v)
		}
	}
	b.WriteString("$last = /a/;\nroot = $last;\n")
	text := b.String()
	c.Put("description", text)
	c.Eval()
	g, e := langdef.ParseString("g", text)
	if bad != 0 {
		c.Count("template_errors", 1)
		if le := hx.LLX(e); le == nil || le.Code != bad || le.SourceName != "g" || le.Line == 0 {
			c.Fatal("error %v instead of located error code %d:\n%s", e, bad, text)
		}
		return
	}
	if e != nil {
		c.Fatal("valid description is rejected: %v\n%s", e, text)
	}
	c.Count("templates", len(names))
	for i, n := range tnames {
		t := g.Tokens[i]
		if t.Name != n || t.Re != res[i] {
			c.Fatal("expression of $%s is %q instead of %q:\n%s", n, t.Re, res[i], text)
		}
	}
	if len(names) > 0 {
		c.Distinct(text)
	}
}
