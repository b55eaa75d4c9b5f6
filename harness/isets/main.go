// Command isets runs the monitor of internal integer sets.
package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/ava12/llx/internal/ints"
	"github.com/ava12/llx/internal/verifmon/mon"
)

func main() {
	mon.Main(&mon.Check{
		ID: "C33",
		Rule: "pools of 5 sets undergo random sequences of all operations with members negative, around word boundaries, dense and widely spread (thousands of members in large cases); after each operation every set of the pool " +
			"is compared with a map model, so a changed argument or shared storage is noticed; non-trivial: distinct sequences using at least 3 binary operations on non-empty sets",
		Quick: 40000, Thorough: 1000000,
		Need: []string{"ops", "binary", "equal", "not_equal", "negative", "spread", "disjoint", "big_cases"},
		Run:  run,
	})
}

type model map[int]bool

func (m model) slice() []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (m model) copy() model {
	r := model{}
	for k := range m {
		r[k] = true
	}
	return r
}

const pool = 5

func run(c *mon.Ctx) {
	var (
		log   []string
		sets  [pool]*ints.Set
		mods  [pool]model
		probe []int
	)
	spread := c.IntN(4)
	big := c.Idx%400 == 7
	if big {
		c.Count("big_cases", 1)
	}
	member := func() int {
		x := 0
		switch spread {
		case 0:
			x = c.IntN(40) - 20
		case 1:
			x = (c.IntN(9)-4)*64 + c.IntN(5) - 2
		case 2:
			x = c.IntN(1000) - 500
		default:
			x = c.IntN(20)
			if c.Chance(40) {
				x = c.IntN(40001) - 20000
				if big {
					x *= 5
				}
				c.Count("spread", 1)
			}
		}
		if x < 0 {
			c.Count("negative", 1)
		}
		probe = append(probe, x)
		if len(probe) > 12 {
			probe = probe[1:]
		}
		return x
	}
	members := func() []int {
		n := 6
		if big {
			n = []int{6, 50, 500, 3000}[c.IntN(4)]
		}
		r := make([]int, c.IntN(n))
		sign := c.IntN(4)
		for i := range r {
			r[i] = member()
			if sign == 0 && r[i] < 0 || sign == 1 && r[i] > 0 {
				r[i] = -r[i]
			}
			if i > 0 && c.Chance(10) {
				r[i] = r[0]
			}
		}
		return r
	}
	for i := range sets {
		its := members()
		keep := slices.Clone(its)
		mods[i] = model{}
		for _, x := range its {
			mods[i][x] = true
		}
		if c.Chance(50) {
			sets[i] = ints.NewSet(its...)
		} else {
			sets[i] = ints.FromSlice(its)
		}
		if !slices.Equal(its, keep) {
			c.Fail("list of items %v is changed to %v", keep, its)
			return
		}
		log = append(log, fmt.Sprintf("%d=%v", i, its))
	}
	binary := 0
	for range 10 + c.IntN(30) {
		i, j, k := c.IntN(pool), c.IntN(pool), c.IntN(pool)
		s, t := sets[i], sets[j]
		op, bad := "", ""
		common := false
		for x := range mods[i] {
			common = common || mods[j][x]
		}
		isBinary := false
		switch c.IntN(12) {
		case 0, 1:
			its := members()
			op = fmt.Sprintf("add(%d,%v)", i, its)
			if s.Add(its...) != s {
				bad = "another set is returned"
			}
			for _, x := range its {
				mods[i][x] = true
			}
		case 2, 3:
			its := members()
			for _, x := range mods[i].slice() {
				if c.Chance(20) {
					its = append(its, x)
				}
			}
			op = fmt.Sprintf("remove(%d,%v)", i, its)
			if s.Remove(its...) != s {
				bad = "another set is returned"
			}
			for _, x := range its {
				delete(mods[i], x)
			}
		case 4:
			op = fmt.Sprintf("copy(%d,%d)", i, k)
			sets[k] = s.Copy()
			mods[k] = mods[i].copy()
		case 5:
			op = fmt.Sprintf("%d=union(%d,%d)", k, i, j)
			isBinary = true
			sets[k] = ints.Union(s, t)
			mods[k] = union(mods[i], mods[j])
		case 6:
			op = fmt.Sprintf("%d=intersect(%d,%d)", k, i, j)
			isBinary = true
			sets[k] = ints.Intersect(s, t)
			mods[k] = intersect(mods[i], mods[j])
		case 7:
			op = fmt.Sprintf("%d=subtract(%d,%d)", k, i, j)
			isBinary = true
			sets[k] = ints.Subtract(s, t)
			mods[k] = subtract(mods[i], mods[j])
		case 8:
			op = fmt.Sprintf("%d.union(%d)", i, j)
			isBinary = true
			if s.Union(t) != s {
				bad = "another set is returned"
			}
			mods[i] = union(mods[i], mods[j])
		case 9:
			op = fmt.Sprintf("%d.intersect(%d)", i, j)
			isBinary = true
			if s.Intersect(t) != s {
				bad = "another set is returned"
			}
			mods[i] = intersect(mods[i], mods[j])
		case 10:
			op = fmt.Sprintf("%d.subtract(%d)", i, j)
			isBinary = true
			if s.Subtract(t) != s {
				bad = "another set is returned"
			}
			mods[i] = subtract(mods[i], mods[j])
		default:
			// the same members reached in another way
			op = fmt.Sprintf("%d=rebuild(%d)", k, i)
			sl := mods[i].slice()
			c.Shuffle(len(sl), func(a, b int) { sl[a], sl[b] = sl[b], sl[a] })
			extra := members()
			n := ints.NewSet(extra...)
			n.Add(sl...)
			var rem []int
			for _, x := range extra {
				if !mods[i][x] {
					rem = append(rem, x)
				}
			}
			n.Remove(rem...)
			if !n.IsEqual(sets[i]) || !sets[i].IsEqual(n) {
				bad = "sets with the same members are not equal"
			}
			sets[k], mods[k] = n, mods[i].copy()
		}
		log = append(log, op)
		c.Count("ops", 1)
		if isBinary {
			c.Count("binary", 1)
			if len(mods[j]) > 0 {
				binary++
			}
			if !common {
				c.Count("disjoint", 1)
			}
		}
		for x := range sets {
			if bad != "" {
				break
			}
			c.Eval()
			want := mods[x].slice()
			got := sets[x].ToSlice()
			if !slices.Equal(got, want) {
				bad = fmt.Sprintf("set %d is %v instead of %v", x, got, want)
				break
			}
			if sets[x].IsEmpty() != (len(want) == 0) {
				bad = fmt.Sprintf("IsEmpty() of set %d %v is %v", x, want, sets[x].IsEmpty())
				break
			}
			for _, p := range probe {
				for _, d := range []int{p, p + 1, -p} {
					if sets[x].Contains(d) != mods[x][d] {
						bad = fmt.Sprintf("Contains(%d) of set %d %v is wrong", d, x, want)
					}
				}
			}
			if sets[x].Contains(1<<40) || sets[x].Contains(-1<<40) {
				bad = fmt.Sprintf("set %d contains a far number", x)
			}
			y := c.IntN(pool)
			eq := slices.Equal(want, mods[y].slice())
			if eq {
				c.Count("equal", 1)
			} else {
				c.Count("not_equal", 1)
			}
			if sets[x].IsEqual(sets[y]) != eq {
				bad = fmt.Sprintf("IsEqual(%v, %v) is %v", want, mods[y].slice(), !eq)
			}
		}
		if bad != "" {
			c.Put("operations", strings.Join(log, " "))
			c.Fail("%s: %s; after %v", op, bad, log)
			return
		}
	}
	if binary >= 3 {
		c.Distinct(strings.Join(log, " "))
	}
	if c.Idx < 3 {
		c.Sample("%.300s", strings.Join(log, " "))
	}
}

func union(a, b model) model {
	r := a.copy()
	for x := range b {
		r[x] = true
	}
	return r
}

func intersect(a, b model) model {
	r := model{}
	for x := range a {
		if b[x] {
			r[x] = true
		}
	}
	return r
}

func subtract(a, b model) model {
	r := model{}
	for x := range a {
		if !b[x] {
			r[x] = true
		}
	}
	return r
}
