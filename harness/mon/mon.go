// Package mon is the run-time monitoring framework used by all checks:
// it deals deterministic cases to child processes, watches the children (crashes, CPU time, heap),
// collects what the monitors observed, and writes evidence, replay files and verdicts.
package mon

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check describes one monitored property.
type Check struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	// number of cases per tier
	Quick, Thorough int
	// counters which must be non-zero, otherwise the run observed nothing and is inconclusive
	Need []string
	Run  func(c *Ctx)
	// GOMAXPROCS of a child, 2 by default
	Procs int
	// max number of children, number of CPUs by default
	MaxShards int
	// watchdog limits for a single case
	CpuLimit  time.Duration
	HeapLimit uint64
	// Assumptions go to the evidence file
	Assumptions []string
	// Race is set if the binary is built with the race detector and its reports are verdicts
	Race bool
}

type violation struct {
	Case   int               `json:"case"`
	Msg    string            `json:"message"`
	Detail map[string]string `json:"detail,omitempty"`
}

type shardResult struct {
	Done       bool           `json:"done"`
	Cases      int            `json:"cases"`
	Evals      int            `json:"evals"`
	Counters   map[string]int `json:"counters"`
	Samples    []string       `json:"samples"`
	Violations []violation    `json:"violations"`
	Known      []string       `json:"known"`
	Max        map[string]int `json:"max"`
	distinct   map[uint64]struct{}
}

// Ctx is given to a single case.
type Ctx struct {
	*rand.Rand
	Check *Check
	Idx   int
	Seed  uint64
	Tier  string
	res   *shardResult
	crumb map[string]string
	fails int
	v     bool
}

type abort struct{}

// Fail reports a violation.
func (c *Ctx) Fail(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	d := make(map[string]string, len(c.crumb))
	for k, v := range c.crumb {
		d[k] = v
	}
	c.fails++
	if c.fails <= 3 {
		c.res.Violations = append(c.res.Violations, violation{c.Idx, msg, d})
	}
}

// Failed returns true if this case has reported a violation.
func (c *Ctx) Failed() bool { return c.fails > 0 }

// Fatal reports a violation and ends this case.
func (c *Ctx) Fatal(format string, args ...any) {
	c.Fail(format, args...)
	panic(abort{})
}

// Abort ends this case silently.
func (c *Ctx) Abort() { panic(abort{}) }

// Put records a piece of input for replay files; it also survives a crash of the process.
func (c *Ctx) Put(key, value string) {
	c.crumb[key] = value
}

// Recall returns recorded input.
func (c *Ctx) Recall(key string) string { return c.crumb[key] }

// Crumb makes all recorded input survive a crash of this process.
func (c *Ctx) Crumb() {
	writeCrumb(c)
}

// Count adds to an observation counter.
func (c *Ctx) Count(name string, n int) { c.res.Counters[name] += n }

// Max keeps the maximum.
func (c *Ctx) Max(name string, n int) {
	if n > c.res.Max[name] {
		c.res.Max[name] = n
	}
}

// Eval counts one evaluation of the oracle over an execution.
func (c *Ctx) Eval() { c.res.Evals++ }

// Evals counts n evaluations.
func (c *Ctx) EvalN(n int) { c.res.Evals += n }

// Distinct registers a non-trivial case; equal keys are counted once.
func (c *Ctx) Distinct(parts ...string) {
	if len(c.res.distinct) > 3000000 {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.res.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps a few actual cases for the evidence file.
func (c *Ctx) Sample(format string, args ...any) {
	if len(c.res.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		c.res.Samples = append(c.res.Samples, s)
	}
}

// Known reports a known finding that still fails.
func (c *Ctx) Known(what string) { c.res.Known = append(c.res.Known, what) }

// Verbose is set when a single case is replayed.
func (c *Ctx) Verbose() bool { return c.v }

// Logf prints if a single case is replayed.
func (c *Ctx) Logf(format string, args ...any) {
	if c.v {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

// Chance returns true with probability n/100.
func (c *Ctx) Chance(n int) bool { return c.IntN(100) < n }

var (
	fID    = flag.String("id", "", "property id")
	fTier  = flag.String("tier", "", "quick or thorough")
	fSeed  = flag.Uint64("seed", 0, "seed")
	fShard = flag.Int("shard", -1, "internal")
	fOf    = flag.Int("of", 1, "internal")
	fDir   = flag.String("dir", "", "internal: work directory")
	fCase  = flag.Int("case", -1, "replay this case only")
	fOut   = flag.String("out", "", "directory with evidence and replays")
	fCount = flag.Int("count", 0, "override number of cases")
	fFrom  = flag.Int("from", 0, "internal: skip cases below this one")
)

// VerifDir is the directory containing known findings, evidence etc.
func VerifDir() string { return *fOut }

// Main runs the requested check.
func Main(checks ...*Check) {
	flag.Parse()
	var c *Check
	for _, cc := range checks {
		if cc.ID == *fID {
			c = cc
		}
	}
	if c == nil {
		fmt.Println("unknown check", *fID)
		os.Exit(4)
	}
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	if *fSeed == 0 {
		*fSeed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		if *fSeed == 0 {
			*fSeed = 1
		}
	}
	if *fOut == "" {
		*fOut = "/verif"
	}
	if c.Procs == 0 {
		c.Procs = 2
	}
	if c.CpuLimit == 0 {
		c.CpuLimit = 20 * time.Second
	}
	if c.HeapLimit == 0 {
		c.HeapLimit = 2 << 30
	}

	n := c.Quick
	if *fTier == "thorough" {
		n = c.Thorough
	}
	if *fCount > 0 {
		n = *fCount
	}

	switch {
	case *fCase >= 0:
		os.Exit(replay(c, *fCase))
	case *fShard >= 0:
		shard(c, n)
	default:
		os.Exit(supervise(c, n))
	}
}

func newCtx(c *Check, idx int, res *shardResult) *Ctx {
	h := fnv.New64a()
	h.Write([]byte(c.ID))
	r := rand.New(rand.NewPCG(*fSeed*0x9e3779b97f4a7c15+uint64(idx), h.Sum64()+uint64(idx)*0xbf58476d1ce4e5b9))
	return &Ctx{Rand: r, Check: c, Idx: idx, Seed: *fSeed, Tier: *fTier, res: res, crumb: map[string]string{}}
}

func runCase(ctx *Ctx) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abort); ok {
				return
			}
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			ctx.Put("stack", st)
			ctx.Fail("panic: %v", x)
		}
	}()
	ctx.Check.Run(ctx)
}

func newResult() *shardResult {
	return &shardResult{Counters: map[string]int{}, Max: map[string]int{}, distinct: map[uint64]struct{}{}}
}

func replay(c *Check, idx int) int {
	res := newResult()
	ctx := newCtx(c, idx, res)
	ctx.v = true
	runtime.GOMAXPROCS(c.Procs)
	watch(c, ctx, func(msg string) {
		fmt.Println("LIMIT:", msg)
		buf := make([]byte, 1<<16)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		os.Exit(1)
	})
	runCase(ctx)
	for _, v := range res.Violations {
		fmt.Println("violation:", v.Msg)
		keys := []string{}
		for k := range v.Detail {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("--- %s:\n%s\n", k, v.Detail[k])
		}
	}
	b, _ := json.Marshal(res.Counters)
	fmt.Println("counters:", string(b), "evals:", res.Evals)
	if len(res.Violations) > 0 {
		return 1
	}
	return 0
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	wMu    sync.Mutex
	wCase  = -1
	wStart time.Duration
)

func setCase(idx int) {
	wMu.Lock()
	wCase = idx
	wStart = cpuTime()
	wMu.Unlock()
}

// stallTicks is the number of watchdog rounds (20 per second) after which a case using almost no CPU is reported as blocked.
const stallTicks = 1800

// External is not zero when the case waits for another process without limits of its own.
var External atomic.Int32

func watch(c *Check, ctx *Ctx, report func(msg string)) {
	if ctx != nil {
		setCase(ctx.Idx)
	}
	go func() {
		var ms runtime.MemStats
		tick := 0
		// rounds are counted, not time: a process which is not scheduled is not blocked
		stall, stallCase, stallCpu := 0, -1, time.Duration(0)
		for {
			time.Sleep(50 * time.Millisecond)
			now := cpuTime()
			wMu.Lock()
			used := now - wStart
			idx := wCase
			wMu.Unlock()
			stall++
			if idx != stallCase || now-stallCpu > 3*time.Second || External.Load() != 0 {
				stall, stallCase, stallCpu = 0, idx, now
			}
			if stall > stallTicks && idx >= 0 {
				report("makes no progress: all goroutines are blocked")
			}
			if used > c.CpuLimit {
				report(fmt.Sprintf("did not finish within %v of CPU time", c.CpuLimit))
			}
			tick++
			if tick%4 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapInuse+ms.StackInuse > c.HeapLimit {
					report(fmt.Sprintf("uses more than %d MB of memory", c.HeapLimit>>20))
				}
			}
		}
	}()
}

var crumbFile *os.File

func writeCrumb(c *Ctx) {
	if crumbFile == nil {
		return
	}
	b, _ := json.Marshal(c.crumb)
	if len(b) > 1<<20 {
		b = []byte("{}")
	}
	buf := make([]byte, 16+len(b))
	binary.LittleEndian.PutUint64(buf, uint64(c.Idx))
	binary.LittleEndian.PutUint64(buf[8:], uint64(len(b)))
	copy(buf[16:], b)
	crumbFile.WriteAt(buf, 0)
}

func shard(c *Check, n int) {
	runtime.GOMAXPROCS(c.Procs)
	debug.SetMaxStack(256 << 20)
	base := filepath.Join(*fDir, fmt.Sprintf("s%d", *fShard))
	var e error
	crumbFile, e = os.Create(base + ".crumb")
	if e != nil {
		panic(e)
	}
	res := newResult()
	var mu sync.Mutex
	finish := func() {
		b, _ := json.Marshal(res)
		buf := make([]byte, 0, len(res.distinct)*8)
		for h := range res.distinct {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		os.WriteFile(base+".distinct", buf, 0o644)
		os.WriteFile(base+".json", b, 0o644)
	}
	watch(c, nil, func(msg string) {
		// the case is still running: write a separate report and leave
		wMu.Lock()
		idx := wCase
		wMu.Unlock()
		mu.Lock()
		b, _ := json.Marshal(violation{Case: idx, Msg: "case " + msg})
		os.WriteFile(base+".limit", b, 0o644)
		os.Exit(7)
	})
	hdr := make([]byte, 16)
	for idx := *fShard; idx < n; idx += *fOf {
		if idx < *fFrom {
			continue
		}
		setCase(idx)
		binary.LittleEndian.PutUint64(hdr, uint64(idx))
		binary.LittleEndian.PutUint64(hdr[8:], 0)
		crumbFile.WriteAt(hdr, 0)
		ctx := newCtx(c, idx, res)
		runCase(ctx)
		res.Cases++
		if len(res.Violations) >= 4 {
			break
		}
	}
	mu.Lock()
	res.Done = true
	finish()
	os.Exit(0)
}

func readCrumb(name string) (int, map[string]string) {
	b, e := os.ReadFile(name)
	if e != nil || len(b) < 16 {
		return -1, nil
	}
	idx := int(binary.LittleEndian.Uint64(b))
	l := int(binary.LittleEndian.Uint64(b[8:]))
	m := map[string]string{}
	if l > 0 && len(b) >= 16+l {
		json.Unmarshal(b[16:16+l], &m)
	}
	return idx, m
}

func tail(name string, n int) string {
	b, _ := os.ReadFile(name)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func supervise(c *Check, n int) int {
	start := time.Now()
	dir, e := os.MkdirTemp("", "verifmon")
	if e != nil {
		fmt.Println(e)
		return 4
	}
	defer os.RemoveAll(dir)

	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 2 {
		shards = 2
	}
	if c.MaxShards > 0 && shards > c.MaxShards {
		shards = c.MaxShards
	}
	if shards > n {
		shards = n
	}

	total := newResult()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var broken []string
	self, _ := os.Executable()
	races := 0
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			base := filepath.Join(dir, fmt.Sprintf("s%d", i))
			errf, _ := os.Create(base + ".err")
			cmd := exec.Command(self, "-id", c.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
				"-shard", strconv.Itoa(i), "-of", strconv.Itoa(shards), "-dir", dir, "-out", *fOut, "-count", strconv.Itoa(n))
			cmd.Stdout = errf
			cmd.Stderr = errf
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
			if c.Race {
				cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+base+".race")
			}
			e := cmd.Run()
			errf.Close()

			mu.Lock()
			defer mu.Unlock()
			if c.Race {
				logs, _ := filepath.Glob(base + ".race.*")
				for _, l := range logs {
					b, _ := os.ReadFile(l)
					cnt := strings.Count(string(b), "WARNING: DATA RACE")
					if cnt > 0 {
						races += cnt
						idx, _ := readCrumb(base + ".crumb")
						s := string(b)
						if len(s) > 8000 {
							s = s[:8000]
						}
						total.Violations = append(total.Violations, violation{idx, fmt.Sprintf("%d data race report(s)", cnt), map[string]string{"race": s}})
					}
				}
			}
			b, re := os.ReadFile(base + ".json")
			var r shardResult
			if re == nil {
				re = json.Unmarshal(b, &r)
			}
			if re == nil && r.Done {
				total.Cases += r.Cases
				total.Evals += r.Evals
				for k, v := range r.Counters {
					total.Counters[k] += v
				}
				for k, v := range r.Max {
					if v > total.Max[k] {
						total.Max[k] = v
					}
				}
				if len(r.Samples) > 0 && len(total.Samples) < 5 {
					total.Samples = append(total.Samples, r.Samples[0])
				}
				total.Violations = append(total.Violations, r.Violations...)
				total.Known = append(total.Known, r.Known...)
				db, _ := os.ReadFile(base + ".distinct")
				for j := 0; j+8 <= len(db); j += 8 {
					total.distinct[binary.LittleEndian.Uint64(db[j:])] = struct{}{}
				}
				return
			}

			idx, crumb := readCrumb(base + ".crumb")
			if lb, le := os.ReadFile(base + ".limit"); le == nil {
				var v violation
				json.Unmarshal(lb, &v)
				v.Detail = crumb
				total.Violations = append(total.Violations, v)
				return
			}
			out := tail(base+".err", 6000)
			killed := false
			if ee, ok := e.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
					killed = true
				}
			}
			if killed || idx < 0 || !strings.Contains(out, "goroutine") {
				broken = append(broken, fmt.Sprintf("shard %d: %v\n%s", i, e, out))
				return
			}
			if crumb == nil {
				crumb = map[string]string{}
			}
			crumb["output"] = out
			total.Violations = append(total.Violations, violation{idx, "process crashed", crumb})
		}(i)
	}
	wg.Wait()

	sort.SliceStable(total.Violations, func(i, j int) bool { return total.Violations[i].Case < total.Violations[j].Case })
	wall := time.Since(start).Seconds()
	counters := map[string]int{}
	for k, v := range total.Counters {
		counters[k] = v
	}
	for k, v := range total.Max {
		counters["max_"+k] = v
	}
	samples := []any{}
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	coverage := map[string]any{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(total.distinct),
		"rule":                c.Rule,
		"samples":             samples,
		"cases":               total.Cases,
		"observed":            counters,
	}
	if c.Race {
		coverage["race_reports"] = races
	}
	ev := map[string]any{
		"property":   c.ID,
		"tier":       *fTier,
		"seed":       int(*fSeed),
		"level":      "exploration",
		"coverage":   coverage,
		"wall_s":     wall,
		"violations": len(total.Violations),
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
	if e := os.WriteFile(filepath.Join(*fOut, "evidence", c.ID+".json"), append(b, '\n'), 0o644); e != nil {
		fmt.Println(e)
		return 4
	}

	seen := map[string]bool{}
	for _, k := range total.Known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1fs\n", c.ID, *fTier, *fSeed, total.Cases, total.Evals, len(total.distinct), wall)
	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d", k, counters[k])
	}
	fmt.Println()

	if len(total.Violations) > 0 {
		rdir := filepath.Join(*fOut, "replays")
		os.MkdirAll(rdir, 0o755)
		for i, v := range total.Violations {
			if i >= 5 {
				break
			}
			rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", c.ID, *fTier, *fSeed, i))
			rb, _ := json.MarshalIndent(map[string]any{
				"property": c.ID, "tier": *fTier, "seed": *fSeed, "case": v.Case, "message": v.Msg, "detail": v.Detail,
				"replay_cmd": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -case %d", *fSeed, *fTier, c.ID, v.Case),
			}, "", " ")
			os.WriteFile(rp, append(rb, '\n'), 0o644)
			m := v.Msg
			if len(m) > 600 {
				m = m[:600] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  case %d: %s\n", c.ID, rp, v.Case, strings.ReplaceAll(m, "\n", "\n  "))
		}
		return 1
	}
	if len(broken) > 0 {
		fmt.Println("inconclusive, children failed:", strings.Join(broken, "\n"))
		return 3
	}
	if total.Evals == 0 || len(total.distinct) == 0 {
		fmt.Println("inconclusive: nothing observed")
		return 3
	}
	for _, k := range c.Need {
		if counters[k] == 0 {
			fmt.Printf("inconclusive: %s never observed\n", k)
			return 3
		}
	}
	return 0
}

// Known is an entry of known_findings.jsonl.
type Known struct {
	Property string
	Status   string
	Id       string
	What     string
	Inputs   []struct{ Grammar, Input, Commands, Expected string }
}

// KnownFindings returns defects which are listed and not repaired.
func KnownFindings(prop string) (res []Known) {
	b, e := os.ReadFile(filepath.Join(VerifDir(), "known_findings.jsonl"))
	if e != nil {
		return nil
	}
	d := json.NewDecoder(bytes.NewReader(b))
	for d.More() {
		var k Known
		if d.Decode(&k) != nil {
			break
		}
		if k.Property == prop && k.Status == "known" {
			res = append(res, k)
		}
	}
	return
}

// Command makes a command with limited CPU time and memory, so a program which never stops fails instead of hanging.
func Command(name string, args ...string) *exec.Cmd {
	return exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 5; ulimit -v 12000000; exec "$0" "$@"`, name}, args...)...)
}
