package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/ava12/llx/internal/verifmon/mon"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

func init() {
	register(&mon.Check{
		ID: "C06",
		Rule: "random texts (empty lines, no lines, no final line feed, multi-byte runes, broken UTF-8); all offsets are queried in ascending, descending, random and pairwise orders, " +
			"through sources, positions, tokens and queues, partly from several goroutines; non-trivial: distinct texts with at least 3 lines",
		Quick: 30000, Thorough: 600000,
		Need:        []string{"offsets", "reverse", "out_of_range", "multibyte", "broken_utf8", "concurrent", "long_lines"},
		Run:         runC06,
		Assumptions: []string{"offsets inside of a multi-byte rune are not queried"},
	})
	register(&mon.Check{
		ID: "C07",
		Rule: "random sequences of up to 80 queue operations on up to 12 different sources (empty and nil ones included), with snapshots restored several times in any order; " +
			"the whole state is compared with a list model after each operation; non-trivial: distinct operation sequences with at least 3 queued sources at some moment",
		Quick: 60000, Thorough: 1500000,
		Need: []string{"ops", "restores", "stale_restores", "empty_sources", "deep"},
		Run:  runC07,
	})
	register(&mon.Check{
		ID: "C08",
		Rule: "all strings over {CR, LF, a, é-byte} up to length 8 (dealt to cases), all bytes around line breaks, and random strings with long runs; the result, the bytes around the slice and the second application are " +
			"compared with the definition; non-trivial: distinct strings with at least one CR",
		Quick: 20000, Thorough: 400000,
		Need: []string{"exhaustive", "random", "crlf", "lone_cr", "unchanged", "bytes"},
		Run:  runC08,
	})
}

func runC06(c *mon.Ctx) {
	pieces := []string{"\n", "\n\n", "a", "bc", "line", "ж", "日本", "😀", "\t", "\r\n", "\r", " ", "\xff", "\xe2\x82", "\x00", "é", "\u2028"}
	sub := pieces
	if c.Chance(50) {
		sub = nil
		for range 1 + c.IntN(5) {
			sub = append(sub, pick(c.Rand, pieces))
		}
	}
	var b strings.Builder
	n := c.IntN(30)
	switch {
	case c.Chance(5):
		n = 300
	case c.Chance(3):
		n = 2000
	case c.IntN(1500) == 0:
		n = 70000 + c.IntN(100000)
		c.Count("large_texts", 1)
		if c.Chance(50) {
			sub = append(sub, "\n")
		}
	}
	for range n {
		b.WriteString(pick(c.Rand, sub))
	}
	text := b.String()
	// reference
	type rc struct{ pos, line, col int }
	var all []rc
	line, col := 1, 1
	var lineEnd []int
	multi, broken := false, false
	for i, r := range text {
		all = append(all, rc{i, line, col})
		if r == '\n' {
			lineEnd = append(lineEnd, i)
			line++
			col = 1
		} else {
			col++
		}
		if r > 127 {
			multi = true
		}
		if r == 0xfffd {
			broken = true
		}
	}
	all = append(all, rc{len(text), line, col})
	lineEnd = append(lineEnd, len(text))
	lines := line
	if multi {
		c.Count("multibyte", 1)
	}
	if broken {
		c.Count("broken_utf8", 1)
	}
	if lines >= 3 {
		c.Distinct(text)
	}
	if len(text) > 1000 {
		c.Count("long_lines", 1)
	}
	var hist []int
	src := source.New("src", []byte(text))
	fail := func(format string, args ...any) {
		c.Put("text", text)
		h := hist
		if len(h) > 20 {
			h = h[len(h)-20:]
		}
		c.Put("queries", fmt.Sprint(h))
		c.Fail(format+"; text %.120q, last queries %v", append(args, text, h)...)
	}
	if c.Chance(30) {
		src.Pos(1+c.IntN(lines+1), 1+c.IntN(5))
	}
	lineOf := map[int][]rc{}
	check := func(x rc) bool {
		hist = append(hist, x.pos)
		c.Count("offsets", 1)
		var l, cl int
		switch c.IntN(4) {
		case 0:
			l, cl = source.NewPos(src, x.pos).LineCol()
		case 1:
			l, cl = lexer.NewToken(0, "t", nil, source.NewPos(src, x.pos)).LineCol()
		case 2:
			q := source.NewQueue().Append(src)
			l, cl = q.LineCol(x.pos)
		default:
			l, cl = src.LineCol(x.pos)
		}
		if l != x.line || cl != x.col {
			fail("line and column of offset %d are %d:%d instead of %d:%d", x.pos, l, cl, x.line, x.col)
			return false
		}
		if p := src.Pos(x.line, x.col); p != x.pos {
			fail("offset of %d:%d is %d instead of %d", x.line, x.col, p, x.pos)
			return false
		}
		return true
	}
	_ = lineOf
	c.Eval()
	order := c.IntN(5)
	k := len(all)
	stride := 1
	if k > 20000 {
		stride = k / 3000
	}
	for i := 0; i < k; i += stride {
		if stride > 1 {
			i = min(i+c.IntN(stride), k-1)
		}
		j := i
		switch order {
		case 1:
			j = k - 1 - i
			c.Count("reverse", 1)
		case 2:
			j = c.IntN(k)
		case 3: // jumps between the ends
			if i%2 == 1 {
				j = k - 1 - i/2
			} else {
				j = i / 2
			}
		case 4: // around line boundaries
			e := lineEnd[c.IntN(len(lineEnd))]
			t := sort.Search(k, func(x int) bool { return all[x].pos >= e })
			j = min(max(t+c.IntN(3)-1, 0), k-1)
		}
		if !check(all[j]) {
			return
		}
		if c.Chance(5) {
			// out of range
			c.Count("out_of_range", 1)
			d := 1 + c.IntN(100)
			if l, cl := src.LineCol(-d); l != 1 || cl != 1 {
				fail("line and column of offset %d are %d:%d", -d, l, cl)
				return
			}
			if l, cl := src.LineCol(len(text) + d); l != lines || cl != all[k-1].col {
				fail("line and column of offset %d beyond the end are %d:%d", len(text)+d, l, cl)
				return
			}
			ln := 1 + c.IntN(lines)
			big := 1 + ln*0 + len(text) + 1 + c.IntN(3)
			if p := src.Pos(ln, big); p != lineEnd[ln-1] {
				fail("offset of %d:%d is %d, the line ends at %d", ln, big, p, lineEnd[ln-1])
				return
			}
			x := pick(c.Rand, all)
			if p := src.Pos(-c.IntN(3), x.col); p != 0 {
				fail("offset of non-positive line is %d", p)
				return
			}
			if p := src.Pos(x.line, -c.IntN(3)); p != 0 {
				fail("offset of non-positive column is %d", p)
				return
			}
			if p := src.Pos(lines+1+c.IntN(3), x.col); p != len(text) {
				fail("offset of a line beyond the last one is %d", p)
				return
			}
		}
	}
	if c.Chance(5) && k > 3 {
		c.Count("concurrent", 1)
		var wg sync.WaitGroup
		msgs := make([]string, 4)
		for w := range 4 {
			seed := c.IntN(k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range min(k, 200) {
					x := all[(seed+i*(2*w+1)*7)%k]
					if l, cl := src.LineCol(x.pos); l != x.line || cl != x.col {
						msgs[w] = fmt.Sprintf("concurrent query: line and column of offset %d are %d:%d instead of %d:%d", x.pos, l, cl, x.line, x.col)
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				fail("%s", m)
				return
			}
		}
	}
	if c.Idx < 10 {
		c.Sample("%.80q: %d lines, order %d", text, lines, order)
	}
	var zero source.Pos
	if l, cl := zero.LineCol(); l != 0 || cl != 0 || zero.SourceName() != "" {
		fail("zero position has line %d col %d", l, cl)
	}
	if p := source.NewPos(nil, 5); p.Source() != nil || p.Pos() != 0 {
		fail("position without source is not zero")
	}
}

// --- C07

type qItem struct {
	s   *source.Source
	pos int
}

func runC07(c *mon.Ctx) {
	var srcs []*source.Source
	for i := range 3 + c.IntN(10) {
		l := 0
		if !c.Chance(20) {
			l = 1 + c.IntN(12)
		} else {
			c.Count("empty_sources", 1)
		}
		srcs = append(srcs, source.New(fmt.Sprintf("s%d", i), []byte(strings.Repeat("x\n", l)[:l])))
	}
	q := source.NewQueue()
	var m []qItem
	type snap struct {
		real  source.QueueSnapshot
		model []qItem
		step  int
		uses  int
	}
	var snaps []snap
	var log []string
	deep := false
	steps := 10 + c.IntN(70)
	if c.Chance(3) {
		steps = 1500
	}
	addBias := c.IntN(3)
	if c.Chance(3) {
		addBias = 2 + c.IntN(30)
		steps = 100 + c.IntN(400)
	}
	for step := range steps {
		op := ""
		s := pick(c.Rand, srcs)
		if c.Chance(3) {
			s = nil
		}
		switch k := c.IntN(12 + 4*addBias); {
		case k == 0 || k >= 12 && k%2 == 0:
			op = fmt.Sprintf("append(%s)", srcName(s))
			if r := q.Append(s); r != q {
				c.Fail("Append returned another queue")
				return
			}
			switch {
			case s == nil || s.Len() == 0 && len(m) > 0 && m[0].s.Len() > 0:
			case len(m) == 1 && m[0].s.Len() == 0:
				m = []qItem{{s, 0}}
			default:
				m = append(append([]qItem{}, m...), qItem{s, 0})
			}
		case k == 1 || k >= 12:
			op = fmt.Sprintf("prepend(%s)", srcName(s))
			if r := q.Prepend(s); r != q {
				c.Fail("Prepend returned another queue")
				return
			}
			switch {
			case s == nil || s.Len() == 0 && len(m) > 0 && m[0].s.Len() > 0:
			case len(m) == 1 && m[0].s.Len() == 0:
				m = []qItem{{s, 0}}
			default:
				m = append([]qItem{{s, 0}}, m...)
			}
		case k == 2:
			op = "next"
			r := q.NextSource()
			if len(m) > 0 {
				m = append([]qItem{}, m[1:]...)
			}
			if r != (len(m) > 0) {
				c.Fail("NextSource returned %v, %d source(s) left; %v", r, len(m), log)
				return
			}
		case k <= 5:
			n := extreme(c, c.IntN(16)-2)
			op = fmt.Sprintf("skip(%d)", n)
			q.Skip(n)
			m = moveTo(m, func(p int) int { return p + min(max(n, 0), 1000) })
		case k == 6:
			n := extreme(c, c.IntN(16)-2)
			op = fmt.Sprintf("rewind(%d)", n)
			q.Rewind(n)
			m = moveTo(m, func(p int) int { return p - max(n, 0) })
		case k == 7:
			n := extreme(c, c.IntN(18)-3)
			op = fmt.Sprintf("seek(%d)", n)
			q.Seek(n)
			m = moveTo(m, func(p int) int { return n })
		case k <= 9:
			op = "snapshot"
			snaps = append(snaps, snap{q.Snapshot(), append([]qItem{}, m...), step, 0})
		default:
			if len(snaps) == 0 {
				continue
			}
			i := c.IntN(len(snaps))
			op = fmt.Sprintf("restore(%d)", i)
			q.Restore(snaps[i].real)
			m = append([]qItem{}, snaps[i].model...)
			if snaps[i].uses > 0 {
				c.Count("stale_restores", 1)
			}
			snaps[i].uses++
			c.Count("restores", 1)
		}
		log = append(log, op)
		c.Count("ops", 1)
		if len(m) >= 3 {
			deep = true
		}
		c.Max("sources", len(m))
		// the visible state
		bad := ""
		content, pos := q.ContentPos()
		if len(m) == 0 {
			if !q.IsEmpty() || !q.Eof() || q.Source() != nil || q.Pos() != 0 || q.SourceName() != "" || content != nil || pos != 0 || q.SourcePos() != (source.Pos{}) {
				bad = "queue is not empty"
			}
			if l, cl := q.LineCol(0); l != 0 || cl != 0 {
				bad = "empty queue has line and column"
			}
		} else {
			t := m[0]
			if q.IsEmpty() || q.Source() != t.s || q.Pos() != t.pos || q.SourceName() != t.s.Name() || !bytes.Equal(content, t.s.Content()) || pos != t.pos ||
				q.SourcePos() != source.NewPos(t.s, t.pos) || q.Eof() != (t.pos >= t.s.Len()) {
				bad = fmt.Sprintf("queue is at %d of %s instead of %d of %s (eof %v)", q.Pos(), srcName(q.Source()), t.pos, t.s.Name(), q.Eof())
			}
		}
		c.Eval()
		if bad == "" && (c.Chance(15) || step == steps-1) {
			// the hidden part: drain and restore
			sn := q.Snapshot()
			for i := range m {
				if q.Source() != m[i].s || q.Pos() != m[i].pos {
					bad = fmt.Sprintf("queued source %d is %s at %d instead of %s at %d", i, srcName(q.Source()), q.Pos(), m[i].s.Name(), m[i].pos)
					break
				}
				if c.Chance(20) {
					q.Skip(3) // positions of discarded sources are of no importance
				}
				if q.NextSource() != (i < len(m)-1) {
					bad = fmt.Sprintf("queue has not %d source(s)", len(m))
					break
				}
			}
			if bad == "" && !q.IsEmpty() {
				bad = "extra sources are queued"
			}
			if c.Chance(30) {
				q.Append(srcs[0]).Prepend(srcs[1])
			}
			q.Restore(sn)
		}
		if bad != "" {
			c.Put("operations", strings.Join(log, " "))
			if len(log) > 80 {
				log = log[len(log)-80:]
			}
			c.Fail("%s; after %v", bad, log)
			return
		}
	}
	if deep {
		c.Count("deep", 1)
		c.Distinct(strings.Join(log, " "))
	}
	if c.Idx < 5 {
		c.Sample("%.300s", strings.Join(log, " "))
	}
}

func srcName(s *source.Source) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%s[%d]", s.Name(), s.Len())
}

// extreme sometimes replaces an argument with a very big one.
func extreme(c *mon.Ctx, n int) int {
	if !c.Chance(6) {
		return n
	}
	c.Count("extreme_args", 1)
	n = pick(c.Rand, []int{math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, math.MaxUint32}) + c.IntN(7) - 3
	return n
}

func moveTo(m []qItem, f func(int) int) []qItem {
	if len(m) == 0 {
		return m
	}
	m = append([]qItem{}, m...)
	m[0].pos = min(max(f(m[0].pos), 0), m[0].s.Len())
	return m
}

// --- C08

func c08One(c *mon.Ctx, s []byte) bool {
	want := bytes.ReplaceAll(bytes.ReplaceAll(s, []byte("\r\n"), []byte("\n")), []byte("\r"), []byte("\n"))
	pre, post := c.IntN(3), c.IntN(3)
	buf := make([]byte, 0, pre+len(s)+post)
	buf = append(buf, "\r\r\r"[:pre]...)
	buf = append(buf, s...)
	buf = append(buf, "\r\n\r"[:post]...)
	part := buf[pre : pre+len(s)]
	c.Eval()
	source.NormalizeNls(&part)
	if !bytes.Equal(part, want) {
		c.Put("text", string(s))
		c.Fail("%.200q is normalised to %.200q instead of %.200q", s, part, want)
		return false
	}
	if string(buf[:pre]) != "\r\r\r"[:pre] || string(buf[pre+len(s):]) != "\r\n\r"[:post] {
		c.Put("text", string(s))
		c.Fail("normalising %.200q changes bytes outside of it", s)
		return false
	}
	again := append([]byte(nil), part...)
	source.NormalizeNls(&again)
	if !bytes.Equal(again, want) {
		c.Fail("%.200q is normalised to %.200q, then to %.200q", s, part, again)
		return false
	}
	if bytes.Contains(s, []byte("\r\n")) {
		c.Count("crlf", 1)
	}
	if bytes.Contains(bytes.ReplaceAll(s, []byte("\r\n"), nil), []byte("\r")) {
		c.Count("lone_cr", 1)
	}
	if bytes.IndexByte(s, '\r') < 0 {
		c.Count("unchanged", 1)
	} else {
		c.Distinct(string(s))
	}
	return true
}

func runC08(c *mon.Ctx) {
	alpha := "\r\na\xc3"
	// 4^0 + ... + 4^8 strings
	const total = (1<<18 - 1) / 3
	chunk := total/c.Check.Quick + 1
	for i := c.Idx * chunk; i < (c.Idx+1)*chunk && i < total; i++ {
		n, l := i, 0
		for w := 1; n >= w; w *= 4 {
			n -= w
			l++
		}
		s := make([]byte, l)
		for j := range s {
			s[j] = alpha[n&3]
			n >>= 2
		}
		c.Count("exhaustive", 1)
		if !c08One(c, s) {
			return
		}
	}
	if c.Idx < 256 {
		// any other byte
		for _, f := range []string{"\r%c\n", "\r\n%c\n", "%c\r\n%c", "\r%c%c\n\r\n", "a\r\r%c\n"} {
			if !c08One(c, []byte(strings.ReplaceAll(f, "%c", string([]byte{byte(c.Idx)})))) {
				return
			}
		}
		c.Count("bytes", 1)
	}
	var s []byte
	n := 1 + c.IntN(60)
	if c.Chance(1) {
		n = 3000
	} else if c.IntN(2000) == 0 {
		n = 50000
		c.Count("large_texts", 1)
	}
	for range n {
		p := pick(c.Rand, []string{"\r", "\n", "\r\n", "\r\r", "\n\n", "\n\r", "x", "text", "\xff", "", "ж\r", "long long line", "?"})
		if p == "?" {
			p = string([]byte{byte(c.IntN(256))})
		}
		for range 1 + c.IntN(2)*c.IntN(5) {
			s = append(s, p...)
		}
	}
	c.Count("random", 1)
	c08One(c, s)
	if c.Idx < 5 {
		c.Sample("%.80q", s)
	}
	var empty []byte
	source.NormalizeNls(&empty)
	if len(empty) != 0 {
		c.Fail("empty text becomes %q", empty)
	}
}
