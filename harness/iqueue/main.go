// Command iqueue runs the monitor of the internal double-ended queue.
package main

import (
	"fmt"
	"strings"

	"github.com/ava12/llx/internal/queue"
	"github.com/ava12/llx/internal/verifmon/mon"
)

func main() {
	mon.Main(&mon.Check{
		ID: "C32",
		Rule: "random sequences of up to 400 (13000 in large cases, hundreds of thousands in huge ones) operations (append, prepend, take first/last, peek, snapshot, fill, clear) with phases of growth and shrinking; unique items, " +
			"every returned value and the contents are compared with a list; non-trivial: distinct sequences reaching at least 8 items and emptied at least once",
		Quick: 60000, Thorough: 1500000,
		Need: []string{"ops", "emptied", "peeks", "snapshots", "fills", "large", "big_cases", "huge_cases"},
		Run:  run,
	})
}

// runHuge moves a huge amount of items through the queue.
func runHuge(c *mon.Ctx) {
	next := 0
	var init []int
	if c.Chance(40) {
		init = make([]int, 1<<c.IntN(17)+c.IntN(3)-1)
		for i := range init {
			next++
			init[i] = next
		}
	}
	q := queue.New(init...)
	m := make([]int, 1<<20)
	lo := len(m) / 2 // the model is m[lo:hi]
	hi := lo + copy(m[lo:], init)
	log := fmt.Sprintf("new(%d)", len(init))
	most, fail := 0, func(format string, args ...any) {
		c.Put("operations", log)
		c.Fail("huge queue: "+format+"; after %s", append(args, log)...)
	}
	for range 2 + c.IntN(8) {
		op := pick(c, "append", "append", "append", "prepend", "prepend", "first", "last", "both", "roll", "fill")
		n := 1 << c.IntN(17)
		n += c.IntN(n)
		log += fmt.Sprintf(" %s*%d", op, n)
		if op == "fill" {
			f := q.Items()
			f = f[:min(n, len(f))]
			q.Fill(f)
			hi = lo + len(f)
			n = 0
		}
		for i := range n {
			next++
			o := op
			if op == "both" {
				o = pick(c, "append", "prepend")
			} else if op == "roll" {
				o = "append"
			}
			switch o {
			case "append":
				if hi == len(m) {
					break
				}
				q.Append(next)
				m[hi] = next
				hi++
			case "prepend":
				if lo == 0 {
					break
				}
				q.Prepend(next)
				lo--
				m[lo] = next
			}
			if o == "first" || op == "roll" {
				x, ok := q.First()
				if ok != (hi > lo) || ok && x != m[lo] {
					fail("item %d of %d taken by First is %d, %v", i, hi-lo, x, ok)
					return
				}
				if ok {
					lo++
				}
			}
			if o == "last" {
				x, ok := q.Last()
				if ok != (hi > lo) || ok && x != m[hi-1] {
					fail("item %d of %d taken by Last is %d, %v", i, hi-lo, x, ok)
					return
				}
				if ok {
					hi--
				}
			}
			c.Eval()
		}
		c.Count("ops", n)
		most = max(most, hi-lo)
		if q.Len() != hi-lo {
			fail("length is %d instead of %d", q.Len(), hi-lo)
			return
		}
		if s := q.Items(); !same(s, m[lo:hi]) {
			fail("contents of %d items are wrong", hi-lo)
			return
		}
		for range 50 {
			i := c.IntN(hi-lo+2) - 1
			x, ok := q.Peek(i)
			if i >= 0 && (ok != (i < hi-lo) || ok && x != m[lo+i]) {
				fail("item %d of %d is %d, %v", i, hi-lo, x, ok)
				return
			}
		}
	}
	c.Max("length", most)
	c.Count("huge_cases", 1)
	c.Distinct(log)
}

func run(c *mon.Ctx) {
	if c.Idx%600 == 11 {
		runHuge(c)
		return
	}
	next := 0
	item := func() int { next++; return next }
	items := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = item()
		}
		return r
	}
	size := func() int {
		if c.Chance(15) {
			return c.IntN(70)
		}
		return c.IntN(10)
	}
	var log []string
	var q *queue.Queue[int]
	var m []int
	if c.Chance(50) {
		q = queue.New[int]()
		log = append(log, "new")
	} else {
		init := items(size())
		m = append(m, init...)
		q = queue.New(init...)
		log = append(log, fmt.Sprintf("new%v", len(init)))
		if len(init) > 0 && c.Chance(50) {
			init[0] = -1 // the queue holds its own copy
		}
	}
	type snap struct {
		items, copy []int
		at          int
	}
	var snaps []snap
	grow := 50
	maxLen, emptied := 0, 0
	steps := 20 + c.IntN(380)
	phase := 25
	if c.Idx%1000 == 7 {
		steps = 3000 + c.IntN(10000)
		phase = 200 + c.IntN(2000)
		c.Count("big_cases", 1)
	}
	for step := range steps {
		if step%phase == 0 {
			grow = pick(c, 20, 50, 80, 95)
		}
		op, bad := "", ""
		switch k := c.IntN(100); {
		case k < 70:
			switch {
			case c.Chance(grow):
				x := item()
				if c.Chance(50) {
					op = "append"
					if q.Append(x) != q {
						bad = "another queue is returned"
					}
					m = append(m, x)
				} else {
					op = "prepend"
					if q.Prepend(x) != q {
						bad = "another queue is returned"
					}
					m = append([]int{x}, m...)
				}
			case c.Chance(50):
				op = "first"
				x, ok := q.First()
				if ok != (len(m) > 0) || ok && x != m[0] || !ok && x != 0 {
					bad = fmt.Sprintf("(%d, %v) is returned", x, ok)
				}
				if len(m) > 0 {
					m = m[1:]
				}
			default:
				op = "last"
				x, ok := q.Last()
				if ok != (len(m) > 0) || ok && x != m[len(m)-1] || !ok && x != 0 {
					bad = fmt.Sprintf("(%d, %v) is returned", x, ok)
				}
				if len(m) > 0 {
					m = m[:len(m)-1]
				}
			}
			if len(m) == 0 {
				emptied++
				c.Count("emptied", 1)
			}
		case k < 85:
			i := c.IntN(2*len(m)+5) - len(m) - 2
			op = fmt.Sprintf("peek(%d)", i)
			x, ok := q.Peek(i)
			j := i
			if j < 0 {
				j += len(m)
			}
			if in := j >= 0 && j < len(m); ok != in || ok && x != m[j] || !ok && x != 0 {
				bad = fmt.Sprintf("(%d, %v) is returned", x, ok)
			}
			c.Count("peeks", 1)
		case k < 92:
			op = "items"
			s := q.Items()
			if !same(s, m) {
				bad = fmt.Sprintf("%v is returned", s)
			}
			if c.Chance(50) {
				snaps = append(snaps, snap{s, append([]int(nil), s...), step})
			} else {
				for i := range s {
					s[i] = -7 // a snapshot does not affect the queue
				}
			}
			c.Count("snapshots", 1)
		case k < 94:
			if phase > 25 && c.Chance(95) {
				continue
			}
			f := items(size())
			if len(snaps) > 0 && c.Chance(40) {
				f = append([]int(nil), pick(c, snaps...).items...)
			}
			op = fmt.Sprintf("fill(%d)", len(f))
			m = append([]int(nil), f...)
			q.Fill(f)
			if len(f) > 0 && c.Chance(50) {
				f[c.IntN(len(f))] = -3
			}
			c.Count("fills", 1)
		case k < 95:
			if phase > 25 && c.Chance(95) {
				continue
			}
			op = "clear"
			q.Clear()
			m = nil
		default:
			continue
		}
		log = append(log, op)
		maxLen = max(maxLen, len(m))
		c.Count("ops", 1)
		c.Eval()
		if bad == "" && (q.Len() != len(m) || q.IsEmpty() != (len(m) == 0)) {
			bad = fmt.Sprintf("length is %d, empty is %v", q.Len(), q.IsEmpty())
		}
		if bad == "" && (c.Chance(20) && len(m) < 500 || c.Chance(1) || step == steps-1) {
			if s := q.Items(); !same(s, m) {
				bad = fmt.Sprintf("contents are %v", s)
			}
			for i := range m {
				if x, ok := q.Peek(i); !ok || x != m[i] {
					bad = fmt.Sprintf("item %d is %d", i, x)
					break
				}
			}
		}
		for _, s := range snaps {
			if !same(s.items, s.copy) {
				bad = fmt.Sprintf("a snapshot taken at step %d is changed to %v", s.at, s.items)
				break
			}
		}
		if len(snaps) > 4 {
			snaps = snaps[1:]
		}
		if bad != "" {
			c.Put("operations", strings.Join(log, " "))
			c.Fail("%s: %s; model is %v after %.300v", op, bad, m, log)
			return
		}
	}
	c.Max("length", maxLen)
	if maxLen > 32 {
		c.Count("large", 1)
	}
	if maxLen >= 8 && emptied > 0 {
		c.Distinct(strings.Join(log, " "))
	}
	if c.Idx < 3 {
		c.Sample("%.300s", strings.Join(log, " "))
	}
}

func pick[T any](c *mon.Ctx, s ...T) T { return s[c.IntN(len(s))] }

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
