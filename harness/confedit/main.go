// Command verifmon of the configuration editor example monitors texts it loads and saves.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/ava12/llx/examples/conf-edit/internal"
	"github.com/ava12/llx/internal/verifmon/mon"
)

func main() {
	mon.Main(&mon.Check{
		ID: "C30",
		Rule: "random configuration texts (comments everywhere, blank lines, indentation, repeated sections and entries, empty values, all line break styles, missing last line break) and their mutations, except for classes of the known findings; " +
			"loaded and saved as they are, then after random sequences of set, remove and add commands, every 60th case with the built program on a scratch file; " +
			"oracle: line-oriented reader written independently, key-value model, list of untouched lines; non-trivial: distinct texts with at least 3 non-blank lines changed by at least 2 commands",
		Quick: 80000, Thorough: 2000000,
		Need: []string{"lossless", "with_cr", "no_last_break", "invalid_texts", "mutated_valid", "edited", "set_new", "set_changed", "set_empty", "set_same", "set_new_section", "removed_entries", "removed_sections", "added_sections",
			"repeated_sections", "overridden", "comments_kept", "load_only", "program_runs", "program_rejects", "unchanged"},
		Run:         run,
		Assumptions: []string{"an entry overridden by a later one of the same section may be dropped while loading", "blank lines and indentation may be changed next to edited lines, everything inside a removed section may go"},
	})
}

// --- reference reader

type line struct {
	text    string // without line break
	kind    string // blank comment entry header
	sec     string
	name    string
	value   string
	comment string
	region  int // number of header above, 0 for the default section
}

type conf struct {
	lines []line
	secs  map[string]map[string]string
	// has comments on lines of entries and headers: even loading differs (KF9)
	commented bool
	// has comments, indented headers, repeated sections or entries: editing is known to fail (KF5, KF6, KF8, KF9)
	quirky bool
}

var (
	entryRe  = regexp.MustCompile(`^[ \t]*([a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*)[ \t]*=[ \t]*(.*)$`)
	headerRe = regexp.MustCompile(`^[ \t]*\[[ \t]*([a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*)[ \t]*\][ \t]*$`)
)

func normalize(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// read returns nil for an invalid text.
func read(s string) *conf {
	c := &conf{secs: map[string]map[string]string{}}
	s = normalize(s)
	sec := ""
	region := 0
	seen := map[string]bool{}
	for _, t := range strings.SplitAfter(s, "\n") {
		t = strings.TrimSuffix(t, "\n")
		l := line{text: t, sec: sec}
		code := t
		if i := strings.IndexByte(t, '#'); i >= 0 {
			code, l.comment = t[:i], t[i:]
		}
		switch m := headerRe.FindStringSubmatch(code); {
		case strings.Trim(code, " \t") == "":
			l.kind = "blank"
			if l.comment != "" {
				l.kind = "comment"
			}
		case m != nil:
			sec = m[1]
			l.sec = sec
			l.kind = "header"
			region++
			if c.secs[sec] == nil {
				c.secs[sec] = map[string]string{}
			}
		default:
			m := entryRe.FindStringSubmatch(code)
			if m == nil || m[2] != "" && strings.IndexByte("\f", m[2][0]) >= 0 {
				return nil
			}
			l.kind = "entry"
			l.name = m[1]
			l.value = strings.TrimSpace(m[2])
			if c.secs[sec] == nil {
				c.secs[sec] = map[string]string{}
			}
			c.secs[sec][l.name] = l.value
		}
		l.region = region
		if l.comment != "" {
			c.quirky = true
			c.commented = c.commented || l.kind != "comment"
		}
		if k := l.sec + "\n" + l.name; l.kind == "header" || l.kind == "entry" {
			c.quirky = c.quirky || seen[k] || l.kind == "header" && strings.HasPrefix(t, " ") || l.kind == "header" && strings.HasPrefix(t, "\t")
			seen[k] = true
		}
		c.lines = append(c.lines, l)
	}
	return c
}

func (c *conf) model() string { return modelString(c.secs) }

func modelString(secs map[string]map[string]string) string {
	var ss []string
	for s, es := range secs {
		if s != "" {
			ss = append(ss, fmt.Sprintf("[%s]", s))
		}
		for n, v := range es {
			ss = append(ss, fmt.Sprintf("[%s]%s=%q", s, n, v))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func confModel(c *internal.Conf) string {
	m := map[string]map[string]string{}
	for n, s := range c.Sections {
		m[n] = map[string]string{}
		for k, e := range s.Entries {
			m[n][k] = e.Value
		}
	}
	return modelString(m)
}

// --- generator

type generator struct{ *mon.Ctx }

var secNames = []string{"a", "b", "a.b", "user-x", "_z", "A.b-c.D"}
var names = []string{"foo", "bar", "x", "a-b", "_", "Foo", "n1"}

func (g generator) ws(pct int) string {
	if g.Chance(pct) {
		return []string{" ", "  ", "\t", " \t "}[g.IntN(4)]
	}
	return ""
}

func (g generator) value() string {
	return strings.TrimSpace([]string{"1", "foo bar", "x=y", "[a]", "]", "é à", "\"q\"", "a;b", "=", "-", "\\", "two  spaces", "тест", "0.5", "\xff", "@@", "{}", "a\tb", "\v1"}[g.IntN(19)])
}

func (g generator) comment(n int) string {
	return fmt.Sprintf("#%s%d%s", []string{"", " ", "#", " x=", " [a] "}[g.IntN(5)], n, g.ws(20))
}

func (g generator) text() string {
	var b strings.Builder
	n := g.IntN(14)
	style := g.IntN(6)
	plain := g.Chance(70) // nothing that makes known defects show
	oneline := g.Chance(80)
	seen := map[string]bool{}
	sec := ""
	for i := range n {
		switch k := g.IntN(10); {
		case k < 2:
			b.WriteString(g.ws(20))
		case k < 4:
			b.WriteString(g.ws(20))
			if !plain {
				b.WriteString(g.comment(i))
			}
		case k < 8:
			name := names[g.IntN(len(names))]
			if plain && seen[sec+"\n"+name] {
				break
			}
			seen[sec+"\n"+name] = true
			b.WriteString(g.ws(20) + name + g.ws(40) + "=" + g.ws(40))
			if g.Chance(85) {
				b.WriteString(g.value() + g.ws(20))
			}
			if !plain && !oneline && g.Chance(25) {
				b.WriteString(g.comment(i))
			}
		default:
			name := secNames[g.IntN(len(secNames))]
			if plain && seen[name] {
				break
			}
			seen[name] = true
			sec = name
			if !plain {
				b.WriteString(g.ws(20))
			}
			b.WriteString("[" + g.ws(10) + sec + g.ws(10) + "]" + g.ws(15))
			if !plain && !oneline && g.Chance(15) {
				b.WriteString(g.comment(i))
			}
		}
		if i == n-1 && g.Chance(30) {
			break
		}
		switch {
		case style == 0 || style == 1 && g.Chance(50):
			b.WriteString("\r\n")
		case style == 2 && g.Chance(20):
			b.WriteString("\r")
		default:
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (g generator) mutate(s string) string {
	for range 1 + g.IntN(2) {
		i := g.IntN(len(s) + 1)
		switch g.IntN(4) {
		case 0:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 1:
			s = s[:i]
		case 2:
			j := i + g.IntN(len(s)-i+1)
			s = s[:i] + s[j:]
		case 3:
			s = s[:i] + []string{"[", "]", "=", "#", "\n", " ", "x", "-", "1", ".", "\"", "\x00", "\f", "\xc3", "\r", "]\n", "[a", "\n=1", "\nfoo"}[g.IntN(19)] + s[i:]
		}
	}
	return s
}

// --- monitor

func save(c *internal.Conf) string {
	var w strings.Builder
	internal.Serialize(c.RootNode, &w)
	return w.String()
}

// withBreak adds the last line break.
func withBreak(s string) string {
	if s != "" && !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	return s
}

func run(c *mon.Ctx) {
	g := generator{c}
	text := g.text()
	broken := c.Chance(25)
	if broken {
		text = g.mutate(text)
	}
	c.Put("text", text)
	c.Crumb()
	ref := read(text)
	if c.Idx%60 == 0 {
		program(c, g, text, ref)
		return
	}
	if c.Idx == 1 {
		knownDefects(c)
	}
	if ref != nil && ref.commented {
		c.Count("commented_code", 1) // KF9
		return
	}
	src := []byte(text)
	cf, e := internal.Parse("conf", &src)
	c.Eval()
	if ref == nil {
		if e == nil { // KF4: everything after the mistake is dropped
			got := save(cf)
			for _, l := range strings.Split(got, "\n") {
				if !strings.Contains(normalize(text), strings.TrimSpace(l)) {
					c.Fail("invalid text %q is loaded, saved as %q", text, got)
				}
			}
			c.Count("truncated_invalid", 1)
		} else {
			c.Count("invalid_texts", 1)
		}
		return
	}
	if e != nil {
		c.Fail("valid text %q is rejected: %v", text, e)
		return
	}
	if broken {
		c.Count("mutated_valid", 1)
	}
	if strings.Contains(text, "\r") {
		c.Count("with_cr", 1)
	}
	if text != "" && !strings.HasSuffix(text, "\n") {
		c.Count("no_last_break", 1)
	}
	if a, b := confModel(cf), ref.model(); a != b {
		c.Fail("%q is loaded as %s, must be %s", text, a, b)
		return
	}
	w := newWorld(c, ref)
	if !(w.dups && ref.quirky) && !w.check(save(cf), "loading and saving") {
		return
	}
	if w.dups {
		c.Count("overridden", 1)
	} else {
		if got, want := save(cf), withBreak(normalize(text)); got != want {
			c.Fail("text %q is saved as %q", want, got)
			return
		}
		c.Count("lossless", 1)
		if cf.Updated() {
			c.Fail("text %q is reported as updated after loading", text)
		}
	}
	// commands
	if ref.quirky {
		c.Count("load_only", 1)
		return
	}
	start := save(cf)
	var log []string
	for range c.IntN(8) {
		cmd := w.random(g)
		if w.quirk(cmd) {
			continue
		}
		log = append(log, cmd.String())
		c.Put("commands", strings.Join(log, "\n"))
		cmd.apply(cf)
		w.apply(cmd)
		if c.Chance(60) && !w.check(save(cf), strings.Join(log, ", ")) {
			return
		}
	}
	c.Eval()
	got := save(cf)
	if !w.check(got, strings.Join(log, ", ")) {
		return
	}
	if a, b := confModel(cf), modelString(w.secs); a != b {
		c.Fail("%q after %s: configuration is %s, must be %s", text, strings.Join(log, ", "), a, b)
		return
	}
	if got != start && !cf.Updated() {
		c.Fail("%q after %s: changes are not reported", text, strings.Join(log, ", "))
	}
	if w.effects == 0 && got != start {
		c.Fail("%q after %s: text changes to %q although nothing is to be done", text, strings.Join(log, ", "), got)
	}
	if w.effects == 0 && len(log) > 0 {
		c.Count("unchanged", 1)
		if cf.Updated() && !w.dups {
			c.Fail("%q after %s: reported as updated", text, strings.Join(log, ", "))
		}
	}
	// saved text loads again
	if !reload(c, got, modelString(w.secs), strings.Join(log, ", ")) {
		return
	}
	if len(log) > 0 {
		c.Count("edited", 1)
	}
	solid := 0
	for _, l := range ref.lines {
		if l.kind != "blank" {
			solid++
		}
	}
	if solid >= 3 && len(log) >= 2 {
		c.Distinct(text, strings.Join(log, "|"))
	}
	if c.Idx < 4 {
		c.Sample("%q after %s: %q", text, strings.Join(log, ", "), got)
	}
}

func reload(c *mon.Ctx, text, want, what string) bool {
	src := []byte(text)
	cf, e := internal.Parse("saved", &src)
	if e != nil {
		c.Fail("text saved after %s cannot be loaded: %v: %q", what, e, text)
		return false
	}
	if m := confModel(cf); m != want {
		c.Fail("text saved after %s is loaded as %s, must be %s: %q", what, m, want, text)
		return false
	}
	if s := save(cf); s != withBreak(text) {
		c.Fail("text saved after %s is changed by loading and saving: %q, %q", what, text, s)
		return false
	}
	return true
}

type command struct {
	kind        string
	name, value string
}

func (x command) String() string {
	if x.kind == "set" {
		return fmt.Sprintf("set %s=%s", x.name, x.value)
	}
	return x.kind + " " + x.name
}

func (x command) apply(cf *internal.Conf) {
	switch x.kind {
	case "set":
		cf.SetEntry(x.name, x.value)
	case "unset":
		cf.RemoveEntry(x.name)
	case "add":
		cf.AddSection(x.name)
	case "remove":
		cf.RemoveSection(x.name)
	}
}

// world is the key-value model together with what happened to original lines.
type world struct {
	c       *mon.Ctx
	ref     *conf
	secs    map[string]map[string]string
	gone    map[string]bool // keys of entries removed at least once
	changed map[string]bool // keys of entries having a new value
	lostSec map[string]bool // sections removed at least once
	dups    bool
	effects int
}

func newWorld(c *mon.Ctx, ref *conf) *world {
	w := &world{c, ref, map[string]map[string]string{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, false, 0}
	for s, es := range ref.secs {
		w.secs[s] = map[string]string{}
		for k, v := range es {
			w.secs[s][k] = v
		}
	}
	seen := map[string]bool{}
	heads := map[string]bool{}
	for _, l := range ref.lines {
		if l.kind == "entry" {
			k := l.sec + "\n" + l.name
			w.dups = w.dups || seen[k]
			seen[k] = true
		}
		if l.kind == "header" {
			if heads[l.sec] {
				c.Count("repeated_sections", 1)
			}
			heads[l.sec] = true
		}
	}
	return w
}

func split(name string) (string, string) {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return "", name
	}
	return name[:i], name[i+1:]
}

func (w *world) random(g generator) command {
	sec := secNames[g.IntN(len(secNames))]
	if g.Chance(60) {
		var ss []string
		for s := range w.secs {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		if len(ss) > 0 {
			sec = ss[g.IntN(len(ss))]
		}
	}
	if g.Chance(15) {
		sec = ""
	}
	name := names[g.IntN(len(names))]
	if g.Chance(60) {
		var ss []string
		for s := range w.secs[sec] {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		if len(ss) > 0 {
			name = ss[g.IntN(len(ss))]
		}
	}
	key := name
	if sec != "" {
		key = sec + "." + name
	}
	switch g.IntN(9) {
	case 0:
		return command{"add", sec, ""}
	case 1, 2:
		return command{"remove", sec, ""}
	case 3, 4:
		return command{"unset", key, ""}
	}
	v := g.value()
	if g.Chance(15) {
		v = ""
	} else if g.Chance(10) {
		v = w.secs[sec][name]
	}
	return command{"set", key, v}
}

// quirk tells if a command is known to fail.
func (w *world) quirk(x command) bool {
	switch x.kind {
	case "add":
		return x.name == "" || w.hollow()
	case "remove":
		return x.name == ""
	case "unset":
		s, n := split(x.name)
		_, has := w.secs[s][n]
		return s == "" && has && len(w.secs[s]) == 1
	case "set":
		s, _ := split(x.name)
		return w.secs[s] == nil && w.hollow()
	}
	return false
}

// hollow tells that the default section has a node without lines.
func (w *world) hollow() bool {
	return len(w.secs[""]) == 0 && (len(w.ref.lines) == 0 || w.ref.lines[0].kind != "header")
}

func (w *world) apply(x command) {
	c := w.c
	switch x.kind {
	case "add":
		if w.secs[x.name] == nil {
			w.secs[x.name] = map[string]string{}
			w.effects++
			c.Count("added_sections", 1)
		} else if x.name == "" {
			w.effects++ // may exist in the model only
		}
	case "remove":
		if w.secs[x.name] != nil || x.name == "" {
			if x.name == "" {
				c.Count("removed_default", 1)
			} else {
				c.Count("removed_sections", 1)
			}
			delete(w.secs, x.name)
			w.lostSec[x.name] = true
			w.effects++
		}
	case "unset":
		s, n := split(x.name)
		if _, has := w.secs[s][n]; has {
			delete(w.secs[s], n)
			w.gone[s+"\n"+n] = true
			w.effects++
			c.Count("removed_entries", 1)
		}
	case "set":
		s, n := split(x.name)
		if w.secs[s] == nil {
			w.secs[s] = map[string]string{}
			c.Count("set_new_section", 1)
			w.effects++
		}
		old, has := w.secs[s][n]
		if has && old == x.value {
			c.Count("set_same", 1)
			return
		}
		w.effects++
		w.secs[s][n] = x.value
		if has {
			w.changed[s+"\n"+n] = true
			c.Count("set_changed", 1)
		} else {
			c.Count("set_new", 1)
			w.gone[s+"\n"+n] = true // the line is not the original one
		}
		if x.value == "" {
			c.Count("set_empty", 1)
		}
	}
}

// check compares a saved text with the model and original lines.
func (w *world) check(text, what string) bool {
	c := w.c
	c.Eval()
	got := read(text)
	if got == nil {
		c.Fail("%s: saved text is invalid: %q", what, text)
		return false
	}
	if a, b := got.model(), modelString(w.secs); a != b {
		c.Fail("%s: saved text contains %s, must be %s: %q", what, a, b, text)
		return false
	}
	last := func(cf *conf) map[string]int {
		m := map[string]int{}
		for i, l := range cf.lines {
			if l.kind == "entry" {
				m[l.sec+"\n"+l.name] = i
			}
		}
		return m
	}
	// lines which must be kept; entries with changed values are represented by their names and comments
	list := func(cf *conf, orig bool) (res []string) {
		final := last(cf)
		for i, l := range cf.lines {
			if w.lostSec[l.sec] {
				continue
			}
			t := strings.TrimLeft(l.text, " \t")
			switch l.kind {
			case "blank":
				continue
			case "header":
				if w.ref.secs[l.sec] == nil {
					continue // new
				}
			case "entry":
				k := l.sec + "\n" + l.name
				if w.gone[k] || orig && final[k] != i {
					continue
				}
				if w.changed[k] {
					t = "changed " + l.sec + " " + l.name + " " + l.comment
					if l.comment != "" && orig {
						c.Count("comment_on_changed_line", 1)
					}
				}
			case "comment":
				if orig {
					c.Count("comments_kept", 1)
				}
			}
			res = append(res, t)
		}
		return
	}
	a, b := list(got, false), list(w.ref, true)
	if x, y := strings.Join(a, "\n"), strings.Join(b, "\n"); x != y {
		c.Fail("%s: untouched lines become %q, were %q; saved text %q", what, x, y, text)
		return false
	}
	return true
}

// knownDefects runs inputs of known findings.
func knownDefects(c *mon.Ctx) {
	for _, k := range mon.KnownFindings("C30") {
		for _, in := range k.Inputs {
			if got := runKnown(in.Input, in.Commands); got != in.Expected {
				c.Known(fmt.Sprintf("%s: %s (%q, %q: %q instead of %q)", k.Id, k.What, in.Input, in.Commands, got, in.Expected))
				break
			}
		}
	}
}

func runKnown(text, commands string) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprintf("panic: %v", p)
		}
	}()
	src := []byte(text)
	cf, e := internal.Parse("conf", &src)
	if e != nil {
		return "error"
	}
	for _, s := range strings.Split(commands, "\n") {
		kind, s, _ := strings.Cut(s, " ")
		name, value, _ := strings.Cut(s, "=")
		command{kind, name, value}.apply(cf)
	}
	return save(cf)
}

// --- program

func program(c *mon.Ctx, g generator, text string, ref *conf) {
	if ref == nil {
		src := []byte(text)
		if _, e := internal.Parse("", &src); e == nil {
			return // KF4
		}
	} else if ref.commented {
		return // KF9
	}
	dir, e := os.MkdirTemp("", "conf")
	if e != nil {
		c.Fatal("cannot make a scratch directory: %v", e)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "test.conf")
	missing := c.Chance(5)
	if missing {
		text, ref = "", read("")
	} else if e := os.WriteFile(file, []byte(text), 0600); e != nil {
		c.Fatal("cannot write a scratch file: %v", e)
	}
	var args []string
	w := &world{}
	if ref != nil {
		w = newWorld(c, ref)
	}
	bad := c.Chance(15)
	byKind := map[string][]command{}
	tmp := w
	if ref == nil {
		tmp = newWorld(c, read(""))
	}
	for range c.IntN(6) {
		x := tmp.random(g)
		if (x.kind == "remove" || x.kind == "add") && x.name == "" || strings.ContainsAny(x.value, "#\n\r") {
			continue
		}
		if ref != nil && ref.quirky || tmp.quirk(x) || tmp.hollow() && x.kind != "unset" || x.kind == "unset" && !strings.Contains(x.name, ".") {
			continue
		}
		byKind[x.kind] = append(byKind[x.kind], x)
		switch x.kind {
		case "remove":
			args = append(args, "-r", x.name)
		case "add":
			args = append(args, "-a", x.name)
		case "unset":
			args = append(args, "-c", x.name)
		case "set":
			args = append(args, "-s", x.name+"="+g.ws(20)+x.value)
		}
	}
	if bad {
		args = append(args, [][]string{{"-r", "1a"}, {"-a", ""}, {"-c", "a..b"}, {"-s", "=x"}, {"-s", "a b=1"}, {"-a", "x]"}, {"-r", "a\n"}, {"-z"}, {"-h"}}[g.IntN(9)]...)
	}
	c.Put("arguments", fmt.Sprintf("%q", args))
	c.Crumb()
	cmd := mon.Command(filepath.Join(os.Getenv("VERIF_BUILD_DIR"), "conf-edit"), append(args, file)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	e = cmd.Run()
	c.Eval()
	c.Count("program_runs", 1)
	b, re := os.ReadFile(file)
	got := string(b)
	if bad || ref == nil {
		c.Count("program_rejects", 1)
		if ee, is := e.(*exec.ExitError); !is || ee.ExitCode() < 1 {
			c.Fail("program with arguments %q and text %q exits with %v: %s", args, text, e, out.String())
		} else if strings.Contains(out.String(), "panic") || strings.Contains(out.String(), "goroutine") {
			c.Fail("program with arguments %q and text %q crashes: %s", args, text, out.String())
		}
		if missing && re == nil || !missing && got != text {
			c.Fail("program with arguments %q fails and leaves %q instead of %q", args, got, text)
		}
		return
	}
	if e != nil {
		c.Fail("program with arguments %q and text %q: %v: %s", args, text, e, out.String())
		return
	}
	for _, k := range []string{"remove", "add", "unset", "set"} {
		for _, x := range byKind[k] {
			w.apply(x)
		}
	}
	if !w.check(got, fmt.Sprintf("program with arguments %q", args)) {
		return
	}
	if w.effects == 0 && !w.dups && got != text {
		c.Fail("program with arguments %q rewrites %q as %q", args, text, got)
		return
	}
	if got != text {
		reload(c, got, modelString(w.secs), fmt.Sprintf("program with arguments %q", args))
	}
}
