package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/internal/verifmon/gen"
	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/langdef"
)

func init() {
	register(&mon.Check{
		ID: "C19",
		Rule: "the generator is built from the working tree and run for random descriptions (layers with arguments, all kinds of bytes in literals and arguments) with random options and file names; JSON output is decoded, Go output is compiled and evaluated by a " +
			"program which compares it with the grammar compiled in memory; descriptions and names which must be rejected as well; non-trivial: distinct (description, options) giving an output",
		Quick: 80, Thorough: 1000,
		Need: []string{"go_outputs", "json_outputs", "rejected_descriptions", "rejected_names", "rejected_files", "default_names", "explicit_names", "layers", "odd_bytes", "dubious_names", "big_grammars", "long_nodes"},
		Run:  runC19,
	})
}

// sameGrammar compares grammars, nil and empty lists are the same.
const sameGrammarSrc = `
func norm(g grammar.Grammar) grammar.Grammar {
	g.Tokens = append([]grammar.Token(nil), g.Tokens...)
	g.Nodes = append([]grammar.Node(nil), g.Nodes...)
	g.States = append([]grammar.State(nil), g.States...)
	g.MultiRules = append([]grammar.MultiRule(nil), g.MultiRules...)
	g.Rules = append([]grammar.Rule(nil), g.Rules...)
	g.Layers = append([]grammar.Layer(nil), g.Layers...)
	for i := range g.Layers {
		g.Layers[i].Commands = append([]grammar.LayerCommand(nil), g.Layers[i].Commands...)
		for j := range g.Layers[i].Commands {
			c := &g.Layers[i].Commands[j]
			c.Arguments = append([]string(nil), c.Arguments...)
		}
	}
	return g
}
`

func norm(g grammar.Grammar) grammar.Grammar {
	g.Tokens = append([]grammar.Token(nil), g.Tokens...)
	g.Nodes = append([]grammar.Node(nil), g.Nodes...)
	g.States = append([]grammar.State(nil), g.States...)
	g.MultiRules = append([]grammar.MultiRule(nil), g.MultiRules...)
	g.Rules = append([]grammar.Rule(nil), g.Rules...)
	g.Layers = append([]grammar.Layer(nil), g.Layers...)
	for i := range g.Layers {
		g.Layers[i].Commands = append([]grammar.LayerCommand(nil), g.Layers[i].Commands...)
		for j := range g.Layers[i].Commands {
			c := &g.Layers[i].Commands[j]
			c.Arguments = append([]string(nil), c.Arguments...)
		}
	}
	return g
}

// representable tells if all texts of a grammar can be represented in JSON.
func representable(g *grammar.Grammar) bool {
	ok := true
	for _, t := range g.Tokens {
		ok = ok && utf8.ValidString(t.Name) && utf8.ValidString(t.Re)
	}
	for _, l := range g.Layers {
		for _, c := range l.Commands {
			for _, a := range c.Arguments {
				ok = ok && utf8.ValidString(a)
			}
		}
	}
	return ok
}

// c19Descr makes a valid description with odd texts.
func c19Descr(c *mon.Ctx) *gen.Grammar {
	g := validDescr(c)
	if c.Chance(60) {
		g.Layers = randLayers(c)
	}
	if c.Chance(50) {
		re := "~[^~]*~"
		if c.Chance(50) {
			re += "|`\"\\\\`"
		}
		for range c.IntN(4) {
			re += "|" + pick(c.Rand, []string{"", "", "[", "\\w["})
			part := ""
			for range 1 + c.IntN(4) {
				part += pick(c.Rand, []string{"\r", "\t", "`", "\"", "'", "%d", "\u2028", "\ufeff", "\U0001F600", "\x7f", "\x01", "\x00", "\\r", "\\n", "\\x60", "\\/", "\\\\", "ж", "<&>", " ", "\u00a0", "\ufffd"})
			}
			if strings.HasSuffix(re, "[") {
				part += "]"
			}
			re += part
		}
		g.Extra += "$odd = /" + re + "/;\n"
		for range 1 + c.IntN(3) {
			g.Extra += "!reserved " + pick(c.Rand, []string{"'~`~'", `'~"~'`, `"~\"\\n~"`, `"~\xff\xfe~"`, `"~\x00\x7f\x1b~"`, `"~\u2028\u2029\ufeff~"`, `"~\U0001F600~"`, "'~</script>&~'", `"~\n\r\t~"`, "'~\\~'", "'~%d %s %%~'", `"~\ufffd~"`, "'~*/ //~'", "'~\n\n~'"}) + ";\n"
		}
		for _, t := range g.Toks {
			if t.NoLit {
				g.Extra += "!literal $odd;\n"
				break
			}
		}
		c.Count("odd_bytes", 1)
	}
	return g
}

type c19Job struct {
	dir, src, pkg, name, what string
	odd                       bool
}

func runC19(c *mon.Ctx) {
	tool := filepath.Join(os.Getenv("VERIF_BUILD_DIR"), "llxgen")
	repo := os.Getenv("VERIF_REPO_DIR")
	tmp, e := os.MkdirTemp("", "c19")
	if e != nil {
		panic(e)
	}
	defer func() { os.RemoveAll(tmp) }()
	var jobs []c19Job
	runTool := func(dir string, args ...string) (int, string) {
		c.Eval()
		cmd := mon.Command(tool, args...)
		cmd.Dir = dir
		out, e := cmd.CombinedOutput()
		if e == nil {
			return 0, string(out)
		}
		if x, ok := e.(*exec.ExitError); ok {
			return x.ExitCode(), string(out)
		}
		panic(e)
	}
	files := func(dir string) (names []string) {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			names = append(names, e.Name())
		}
		return
	}
	stale, stalePath := "", ""
	mustFail := func(what, dir string, code int, out string, before []string, info string) bool {
		after := files(dir)
		if stale != "" {
			// output of an earlier run is either kept or removed
			content, e := os.ReadFile(stalePath)
			if e == nil && string(content) != stale {
				c.Put("output", string(content))
				c.Fail("%s: output file of an earlier run is changed; %s", what, info)
				return false
			}
			if e != nil {
				before = slices.DeleteFunc(slices.Clone(before), func(n string) bool { return n == filepath.Base(stalePath) })
			}
		}
		if code > 0 && strings.TrimSpace(out) != "" && reflect.DeepEqual(before, after) && !strings.Contains(out, "goroutine ") {
			return true
		}
		c.Fail("%s: exit status is %d, output %q, files before %q, after %q; %s", what, code, out, before, after, info)
		return false
	}
	const n = 24
	for i := range n {
		if c.Failed() {
			return
		}
		g := c19Descr(c)
		pkg := pick(c.Rand, []string{"foo", "Pkg1", "a_b", "_x", "p", "grammar", "langdef", "reflect"})
		dir := filepath.Join(tmp, fmt.Sprintf("d%d", i), pkg)
		os.MkdirAll(dir, 0o777)
		rootName := pick(c.Rand, []string{"root", "Root", "_r", "r1", "a-b", "fooBar", "x_y"})
		dubious := c.Chance(20)
		if dubious {
			rootName = pick(c.Rand, []string{"type", "func", "grammar", "string", "init", "range", "nil", "int", "uint64", "main", "len", "true"})
		}
		g.Nodes[0].Name = rootName
		text := g.Text()
		mem, e := langdef.ParseString("g", text)
		if e != nil {
			c.Fatal("valid description is rejected: %v\n%s", e, text)
		}
		c.Count("layers", len(mem.Layers))
		in := pick(c.Rand, []string{"g.llx", "a b.llx", "noext", "x.y.llx", "-dash.txt"})
		src := filepath.Join(dir, in)
		bad := c.Chance(15)
		if bad {
			text = spoil(c, text)
			if _, e := langdef.ParseString("g", text); e == nil {
				bad = false
				mem, _ = langdef.ParseString("g", text)
			}
		}
		c.Put("grammar", text)
		os.WriteFile(src, []byte(text), 0o666)
		var args []string
		var out string
		js := c.Chance(40)
		name, wantPkg := mem.Nodes[0].Name, pkg
		if js {
			args = append(args, "-j")
			out = strings.TrimSuffix(in, filepath.Ext(in)) + ".json"
		} else {
			out = strings.TrimSuffix(in, filepath.Ext(in)) + ".go"
			if c.Chance(50) || strings.Contains(name, "-") {
				name = pick(c.Rand, []string{"grammarX", "X", "_a1", "my_Grammar"})
				if dubious && c.Chance(50) {
					name = pick(c.Rand, []string{"grammar", "chan", "string", "init", "const"})
				}
				args = append(args, pick(c.Rand, []string{"-v", "--v"}), name)
				c.Count("explicit_names", 1)
			} else {
				c.Count("default_names", 1)
			}
			if c.Chance(40) {
				wantPkg = pick(c.Rand, []string{"other", "Q", "_p"})
				if dubious && c.Chance(50) {
					wantPkg = pick(c.Rand, []string{"if", "func", "_", "grammar"})
				}
				args = append(args, "-p="+wantPkg)
			}
			if dubious {
				c.Count("dubious_names", 1)
			}
		}
		if c.Chance(40) || strings.HasPrefix(out, "-") || strings.HasPrefix(in, "-") {
			out = pick(c.Rand, []string{"out.go", "o", "some.thing"})
			if !js {
				out = "out.go"
			}
			args = append(args, "-o", out)
		}
		badName := ""
		if !js && !bad && c.Chance(20) {
			badName = pick(c.Rand, []string{"1a", "a-b", "a.b", "a b", "é?", "x\ny", "a;b", "*"})
			args = append(args, pick(c.Rand, []string{"-p", "-v"}), badName)
		}
		badFile := 0
		if badName == "" && !bad && c.Chance(10) {
			badFile = 1 + c.IntN(4)
			switch badFile {
			case 1:
				in = "missing.llx"
			case 2:
				args = append(args, "-o", "no-such-dir/out.go", "-p", "p", "-v", "v")
			case 3:
				os.Mkdir(filepath.Join(dir, "sub"), 0o777)
				args = append(args, "-o", "sub", "-p", "p", "-v", "v")
			case 4:
				os.Mkdir(filepath.Join(dir, "sub"), 0o777)
				in = "sub"
			}
		}
		if c.Chance(50) || strings.HasPrefix(in, "-") {
			in = filepath.Join(dir, in)
		}
		args = append(args, in)
		info := fmt.Sprintf("llxgen %q, description:\n%s", args, text)
		stale, stalePath = "", filepath.Join(dir, out)
		if badFile == 0 && stalePath != src && c.Chance(30) {
			stale = strings.Repeat("// stale\n", pick(c.Rand, []int{1, 10, 1000, 30000}))
			os.WriteFile(stalePath, []byte(stale), 0o666)
			c.Count("existing_outputs", 1)
		}
		before := files(dir)
		code, msg := runTool(dir, args...)
		switch {
		case bad:
			c.Count("rejected_descriptions", 1)
			if !mustFail("wrong description", dir, code, msg, before, info) {
				return
			}
			continue
		case badName != "":
			c.Count("rejected_names", 1)
			if !mustFail("wrong name", dir, code, msg, before, info) {
				return
			}
			continue
		case badFile > 0:
			c.Count("rejected_files", 1)
			if !mustFail("wrong file", dir, code, msg, before, info) {
				return
			}
			continue
		}
		if code != 0 && (!js && dubious || js && !representable(mem)) {
			// cannot be represented
			if !mustFail("impossible output", dir, code, msg, before, info) {
				return
			}
			continue
		}
		if code != 0 {
			c.Fail("exit status is %d, output %q; %s", code, msg, info)
			return
		}
		after := files(dir)
		content, e := os.ReadFile(filepath.Join(dir, out))
		if e != nil || stale == "" && len(after) != len(before)+1 || stale != "" && len(after) != len(before) {
			c.Fail("output file is %q, files are %q, %q expected; %s", out, after, out, info)
			return
		}
		c.Distinct(text, strings.Join(args, " "))
		if js {
			c.Count("json_outputs", 1)
			var g2 grammar.Grammar
			if e := json.Unmarshal(content, &g2); e != nil || !reflect.DeepEqual(norm(*mem), norm(g2)) {
				c.Put("output", string(content))
				c.Fail("JSON output is not the same grammar (error %v); %s", e, info)
				return
			}
			continue
		}
		c.Count("go_outputs", 1)
		// the package goes to its own directory
		pdir := filepath.Join(tmp, "mod", fmt.Sprintf("g%d", i))
		os.MkdirAll(pdir, 0o777)
		os.WriteFile(filepath.Join(pdir, "g.go"), content, 0o666)
		if !strings.HasPrefix(name, strings.ToUpper(name[:1])) || name[0] == '_' {
			// make unexported variables available
			os.WriteFile(filepath.Join(pdir, "x.go"), []byte("package "+wantPkg+"\n\nfunc Value() any { return "+name+" }\n"), 0o666)
		} else {
			os.WriteFile(filepath.Join(pdir, "x.go"), []byte("package "+wantPkg+"\n\nfunc Value() any { return "+name+" }\n\nvar _ = &"+name+".Tokens\n"), 0o666)
		}
		os.WriteFile(filepath.Join(pdir, "g.llx"), []byte(text), 0o666)
		jobs = append(jobs, c19Job{fmt.Sprintf("g%d", i), text, wantPkg, name, info, dubious})
	}
	if len(jobs) == 0 {
		return
	}
	mod := filepath.Join(tmp, "mod")
	gomod, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	ver := "1.20"
	for _, l := range strings.Split(string(gomod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
			ver = f[1]
		}
	}
	os.WriteFile(filepath.Join(mod, "go.mod"), []byte("module c19\n\ngo "+ver+"\n\nrequire github.com/ava12/llx v0.0.0\n\nreplace github.com/ava12/llx => "+repo+"\n"), 0o666)
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"reflect\"\n\n\t\"github.com/ava12/llx/grammar\"\n\t\"github.com/ava12/llx/langdef\"\n")
	for i, j := range jobs {
		fmt.Fprintf(&b, "\tp%d \"c19/%s\"\n", i, j.dir)
	}
	b.WriteString(")\n" + sameGrammarSrc + `
func check(i int, dir string, v any) {
	src, e := os.ReadFile(dir + "/g.llx")
	if e != nil {
		panic(e)
	}
	mem, e := langdef.ParseBytes("g", src)
	if e != nil {
		panic(e)
	}
	g, ok := v.(*grammar.Grammar)
	if !ok {
		fmt.Printf("%d %T\n", i, v)
		return
	}
	if reflect.DeepEqual(norm(*g), norm(*mem)) {
		fmt.Printf("%d same\n", i)
	} else {
		fmt.Printf("%d %+v\n", i, *g)
	}
}

func main() {
`)
	for i, j := range jobs {
		fmt.Fprintf(&b, "\tcheck(%d, %q, p%d.Value())\n", i, j.dir, i)
	}
	b.WriteString("}\n")
	os.WriteFile(filepath.Join(mod, "main.go"), []byte(b.String()), 0o666)
	build := exec.Command("go", "build", "-o", "eval", ".")
	build.Dir = mod
	mon.External.Add(1)
	out, e := build.CombinedOutput()
	mon.External.Add(-1)
	if e != nil {
		// which one does not compile?
		for _, j := range jobs {
			if strings.Contains(string(out), j.dir+"/") {
				c.Put("grammar", j.src)
				c.Fail("Go output does not compile: %s; %s", out, j.what)
				return
			}
		}
		panic(string(out))
	}
	run := mon.Command("./eval")
	run.Dir = mod
	out, e = run.CombinedOutput()
	if e != nil {
		panic(string(out))
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	for i, j := range jobs {
		if i >= len(lines) || lines[i] != fmt.Sprintf("%d same", i) {
			c.Put("grammar", j.src)
			c.Fail("Go output is another grammar: %s; %s", append(lines, "")[min(i, len(lines))], j.what)
			return
		}
	}
	if c.Idx == 0 {
		c.Sample("%s", jobs[0].what)
	}
}

// spoil makes a description which is most likely wrong.
func spoil(c *mon.Ctx, text string) string {
	switch c.IntN(6) {
	case 0:
		return text[:c.IntN(len(text))]
	case 1:
		return text + "foo = bar;"
	case 2:
		return "!wrong;" + text
	case 3:
		return text + "?"
	case 4:
		i := c.IntN(len(text))
		return text[:i] + "\"" + text[i:]
	default:
		return strings.Replace(text, ";", "", 1)
	}
}
