package gen

import (
	"math/rand/v2"
	"regexp"
	"strings"
)

// Alphabet is a set of token types together with terminals which can be used in rules.
type Alphabet struct {
	Toks     []TokDef
	Terms    []*Expr
	Reserved []string
	Texts    map[string][]string // sample texts by type
	LitType  map[string]string   // types of literals, StdType is used by default
	LitTexts map[string][]string // texts matching literals, the literal itself by default
}

var classRes = []struct {
	re *regexp.Regexp
	tt string
}{
	{regexp.MustCompile(`^[ \n\t]+$`), "space"},
	{regexp.MustCompile(`^#[a-z]*;$`), "comment"},
	{regexp.MustCompile(`^[a-z]+$`), "name"},
	{regexp.MustCompile(`^[0-9]+$`), "num"},
	{regexp.MustCompile(`^[-+*<>=]$`), "op"},
	{regexp.MustCompile(`^[(){}]$`), "br"},
	{regexp.MustCompile(`^"[^"]*"$`), "str"},
}

// StdType tells token type of a text in the standard alphabet.
func StdType(text string) string {
	for _, c := range classRes {
		if c.re.MatchString(text) {
			return c.tt
		}
	}
	return ""
}

// AlphaOpts configures Std.
type AlphaOpts struct {
	Min, Max int  // number of terminals
	Groups   bool // put some types to separate lexer groups
	Overlap  bool // allow literals which are not reserved and match used types
	NoSides  bool // no side tokens; all tokens but strings have a single character
}

// Std makes a random alphabet.
func Std(r *rand.Rand, o AlphaOpts) Alphabet {
	a := Alphabet{Texts: map[string][]string{
		"name": {"foo", "q", "zz", "bar"},
		"num":  {"1", "20", "777"},
		"op":   {"+", "-", "*", "<", ">", "="},
		"br":   {"(", ")", "{", "}"},
		"str":  {`""`, `"x y"`, `"#a;"`, "\"\n\""},
	}}
	a.Toks = []TokDef{
		{Name: "space", Re: `[ \n\t]+`, Side: true},
		{Name: "comment", Re: `#[a-z]*;`, Side: true},
		{Name: "name", Re: `[a-z]+`},
		{Name: "num", Re: `[0-9]+`},
		{Name: "op", Re: `[-+*<>=]`},
		{Name: "br", Re: `[(){}]`},
		{Name: "str", Re: `"[^"]*"`},
	}
	first := 2
	if o.NoSides {
		a.Texts["name"] = []string{"q", "z"}
		a.Texts["num"] = []string{"1", "2", "7"}
		a.Toks = a.Toks[2:]
		a.Toks[0].Re = `[a-z]`
		a.Toks[1].Re = `[0-9]`
		first = 1
	}
	if o.Groups {
		gr := 1
		from := first
		if r.IntN(3) == 0 {
			from = 0 // side tokens too
		}
		for i := from; i < len(a.Toks); i++ {
			if r.IntN(2) == 0 {
				a.Toks[i].Group = gr
				if r.IntN(3) != 0 {
					gr++
				}
			}
		}
		// groups must be consecutive and non-empty
		used := map[int]int{}
		for i := range a.Toks {
			gi := a.Toks[i].Group
			if gi != 0 {
				if used[gi] == 0 {
					used[gi] = len(used) + 1
				}
				a.Toks[i].Group = used[gi]
			}
		}
	}
	all := []*Expr{
		{K: KLit, Name: "a"}, {K: KLit, Name: "b"}, {K: KLit, Name: "c"}, {K: KLit, Name: "d"},
		{K: KLit, Name: "+"}, {K: KLit, Name: "-"}, {K: KLit, Name: "("}, {K: KLit, Name: ")"}, {K: KLit, Name: "1"},
		{K: KTok, Name: "name"}, {K: KTok, Name: "num"}, {K: KTok, Name: "op"}, {K: KTok, Name: "str"},
	}
	n := o.Min
	if o.Max > o.Min {
		n += r.IntN(o.Max - o.Min + 1)
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if r.IntN(3) == 0 {
		// names only, as in most tests
		all = []*Expr{{K: KLit, Name: "a"}, {K: KLit, Name: "b"}, {K: KLit, Name: "c"}, {K: KLit, Name: "d"}, {K: KLit, Name: "e"}, {K: KLit, Name: "f"}}
	}
	if n > len(all) {
		n = len(all)
	}
	a.Terms = all[:n]
	types := map[string]bool{}
	for _, t := range a.Terms {
		if t.K == KTok {
			types[t.Name] = true
		}
	}
	for _, t := range a.Terms {
		if t.K == KLit && types[StdType(t.Name)] {
			if !o.Overlap || r.IntN(3) == 0 {
				a.Reserved = append(a.Reserved, t.Name)
			}
		}
	}
	return a
}

// New makes a grammar without nodes for this alphabet.
func (a Alphabet) New() *Grammar {
	return &Grammar{Toks: a.Toks, Reserved: a.Reserved}
}

// TokFor returns a random token matching a terminal.
func (a Alphabet) TokFor(r *rand.Rand, e *Expr) Tok {
	switch e.K {
	case KLit:
		text := e.Name
		if tt := a.LitTexts[text]; len(tt) > 0 {
			text = pick(r, tt)
		}
		if lt, has := a.LitType[e.Name]; has {
			return Tok{lt, text}
		}
		return Tok{StdType(e.Name), text}
	case KTok:
		for try := 0; ; try++ {
			t := pick(r, a.Texts[e.Name])
			if try > 20 {
				return Tok{e.Name, t}
			}
			ok := true
			for _, x := range a.Reserved {
				if x == t {
					ok = false
				}
			}
			if ok || e.Name == "str" {
				return Tok{e.Name, t}
			}
		}
	}
	return EoiTok
}

// AllTexts returns one token for each terminal plus one foreign token.
func (a Alphabet) AllTexts(r *rand.Rand) []Tok {
	var res []Tok
	for _, t := range a.Terms {
		res = append(res, a.TokFor(r, t))
	}
	return res
}

// RandTok returns a random token, often one usable in the grammar.
func (a Alphabet) RandTok(r *rand.Rand) Tok {
	if r.IntN(4) != 0 {
		return a.TokFor(r, pick(r, a.Terms))
	}
	tt := pick(r, []string{"name", "num", "op", "br", "str"})
	return Tok{tt, pick(r, a.Texts[tt])}
}

const inf = 1 << 20

func (g *Grammar) minLens() []int {
	ml := make([]int, len(g.exprs))
	for i := range ml {
		ml[i] = inf
	}
	for changed := true; changed; {
		changed = false
		for i := len(g.exprs) - 1; i >= 0; i-- {
			e := g.exprs[i]
			v := inf
			switch e.K {
			case KNode:
				v = ml[g.Node(e.Name).Id]
				if v == 0 {
					v = 1
				}
			case KTok, KLit:
				v = 1
			case KEoi, KOpt, KRep:
				v = 0
			case KSeq:
				v = 0
				for _, s := range e.Subs {
					v += ml[s.Id]
				}
			case KAlt:
				for _, s := range e.Subs {
					v = min(v, ml[s.Id])
				}
			}
			if v < ml[i] {
				ml[i] = v
				changed = true
			}
		}
	}
	return ml
}

// Sentence makes a random sentence of about given length (may happen not to belong to the language
// if a nested node comes out empty).
func (g *Grammar) Sentence(r *rand.Rand, a Alphabet, size int) []Tok {
	ml := g.minLens()
	var out []Tok
	depth := 0
	// nodes made of the end of input only may recur without adding tokens
	budget := 5000 + 200*size
	var ex func(e *Expr)
	ex = func(e *Expr) {
		if budget--; budget < 0 {
			return
		}
		depth++
		defer func() { depth-- }()
		low := len(out) >= size || depth > 60
		switch e.K {
		case KNode:
			ex(g.Node(e.Name))
		case KTok, KLit:
			out = append(out, a.TokFor(r, e))
		case KEoi:
		case KSeq:
			for _, s := range e.Subs {
				ex(s)
			}
		case KAlt:
			var c []*Expr
			best := inf
			for _, s := range e.Subs {
				best = min(best, ml[s.Id])
			}
			for _, s := range e.Subs {
				if !low || ml[s.Id] == best {
					c = append(c, s)
				}
			}
			ex(pick(r, c))
		case KOpt:
			if !low && r.IntN(2) == 0 {
				ex(e.Subs[0])
			}
		case KRep:
			n := r.IntN(4)
			for i := 0; i < n && len(out) < size && depth <= 60; i++ {
				ex(e.Subs[0])
			}
		}
	}
	ex(g.Nodes[0].Body)
	return out
}

// Span is a token rendered to text.
type Span struct {
	Tok
	Pos  int
	Side bool
}

// RenderOpts controls layout.
type RenderOpts struct {
	Dense bool // only necessary spaces
	None  bool // no spaces
}

func needSep(a, b string) bool {
	al := func(c byte) int {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			return 1
		case c >= '0' && c <= '9':
			return 2
		}
		return 0
	}
	x := al(a[len(a)-1])
	y := al(b[0])
	return x != 0 && x == y
}

func randSide(r *rand.Rand) []Tok {
	var res []Tok
	least := 0
	if r.IntN(60) == 0 {
		// a long run
		least = 5 + r.IntN(40)
		if r.IntN(20) == 0 {
			least *= 10
		}
	}
	for {
		switch r.IntN(4) {
		case 0:
			res = append(res, Tok{"comment", pick(r, []string{"#;", "#a;", "#foo;"})})
		default:
			if len(res) == 0 || res[len(res)-1].Type != "space" {
				res = append(res, Tok{"space", pick(r, []string{" ", "\n", "  ", "\t\n ", "\n\n"})})
			}
		}
		if len(res) >= least && r.IntN(3) != 0 {
			return res
		}
	}
}

// Render lays tokens out as a text with side tokens.
func Render(r *rand.Rand, toks []Tok, o RenderOpts) (string, []Span) {
	var b strings.Builder
	var spans []Span
	put := func(t Tok, side bool) {
		spans = append(spans, Span{t, b.Len(), side})
		b.WriteString(t.Text)
	}
	for i, t := range toks {
		sep := i > 0 && needSep(toks[i-1].Text, t.Text)
		if !o.None && (sep || !o.Dense && r.IntN(3) == 0) {
			if o.Dense {
				put(Tok{"space", " "}, true)
			} else {
				for _, s := range randSide(r) {
					put(s, true)
				}
			}
		}
		put(t, false)
	}
	if !o.None && !o.Dense && r.IntN(3) == 0 {
		for _, s := range randSide(r) {
			put(s, true)
		}
	}
	return b.String(), spans
}

// Texts joins token texts for messages.
func Texts(toks []Tok) string {
	s := make([]string, len(toks))
	for i, t := range toks {
		s[i] = t.Text
	}
	return strings.Join(s, " ")
}

// EnumSeqs calls f for all sequences over alphabet up to given length; f returns false to stop extending the sequence.
func EnumSeqs(alpha []Tok, maxLen int, f func(seq []Tok) bool) {
	seq := make([]Tok, 0, maxLen)
	var rec func()
	rec = func() {
		if !f(seq) || len(seq) >= maxLen {
			return
		}
		for _, t := range alpha {
			seq = append(seq, t)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}
