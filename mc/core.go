// Package main is the bounded model checker for joe-cli: every property file
// enumerates a finite space of executions completely and runs each one on the
// real code, comparing it with a reference model written here.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property and its explorer.
type Prop struct {
	ID          string
	Bound       string // what is enumerated (alphabet and bound), for the evidence
	Assumptions []string
	Run         func(x *X)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// X is one exploration run (one shard of it).
type X struct {
	Thorough bool

	shard, shards int
	index         int
	replay        string
	deadline      time.Time
	capped        bool

	cases      int
	steps      int
	states     map[uint64]struct{}
	samples    []string
	violations []Violation
	known      map[string]int
	knownIDs   map[string]bool
	cur        atomic.Pointer[curCase]
	curFile    *os.File
	groups     map[string]int
}

type curCase struct {
	key   string
	start time.Time
}

// Violation is a failing case.
type Violation struct {
	Key    string   `json:"key"`
	Msgs   []string `json:"msgs"`
	Repro  int      `json:"reproduced_of_5"`
	Replay string   `json:"replay,omitempty"`
}

// T is one execution.
type T struct {
	x     *X
	msgs  []string
	known map[string]bool
	st    []uint64
	steps int
}

const maxViolations = 20

// Stop reports whether the exploration should end early (deadline).
func (x *X) Stop() bool {
	if x.capped {
		return true
	}
	if len(x.violations) >= maxViolations {
		return true
	}
	if x.index&0x3f == 0 && time.Now().After(x.deadline) {
		x.capped = true
	}
	return x.capped
}

// Case enumerates one execution.  key must be unique; fn must build all its
// state afresh.
func (x *X) Case(key func() string, fn func(t *T)) {
	i := x.index
	x.index++
	if x.replay == "" && i%x.shards != x.shard {
		return
	}
	if x.Stop() {
		return
	}
	k := key()
	if x.replay != "" && x.replay != k {
		return
	}
	x.run(k, fn)
}

// CaseS is Case with a precomputed key.
func (x *X) CaseS(key string, fn func(t *T)) {
	x.Case(func() string { return key }, fn)
}

func (x *X) run(k string, fn func(t *T)) {
	x.cur.Store(&curCase{k, time.Now()})
	if x.curFile != nil {
		b := make([]byte, 4+len(k))
		binary.LittleEndian.PutUint32(b, uint32(len(k)))
		copy(b[4:], k)
		x.curFile.WriteAt(b, 0)
	}
	t := x.attempt(fn)
	x.cases++
	x.steps += t.steps
	for _, h := range t.st {
		x.states[h] = struct{}{}
	}
	g, _, _ := strings.Cut(k, "|")
	x.groups[g]++
	// a few samples, spread over the groups of cases
	if n := x.groups[g]; (n == 1 || n == 50 || n == 1000) && len(x.samples) < 40 {
		x.samples = append(x.samples, k)
	}
	if len(t.msgs) == 0 {
		for id := range t.known {
			x.known[id]++
		}
		return
	}
	repro := 0
	for i := 0; i < 5; i++ {
		if u := x.attempt(fn); len(u.msgs) > 0 {
			repro++
		}
	}
	x.violations = append(x.violations, Violation{Key: k, Msgs: t.msgs, Repro: repro})
}

func (x *X) attempt(fn func(t *T)) (t *T) {
	t = &T{x: x}
	defer func() {
		if r := recover(); r != nil {
			if r == errAbort {
				return
			}
			t.msgs = append(t.msgs, fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))))
		}
	}()
	fn(t)
	return t
}

var errAbort = fmt.Errorf("abort case")

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Failf records a violation of the property in this execution.
func (t *T) Failf(format string, a ...any) {
	if len(t.msgs) < 5 {
		t.msgs = append(t.msgs, fmt.Sprintf(format, a...))
	}
}

// Known records that this execution shows the known finding id exactly as
// listed; if it is not listed, it is a violation.
func (t *T) Known(id string, format string, a ...any) {
	if !t.x.knownIDs[id] {
		t.Failf("["+id+"] "+format, a...)
		return
	}
	if t.known == nil {
		t.known = map[string]bool{}
	}
	t.known[id] = true
}

// Fatalf records a violation and ends the execution.
func (t *T) Fatalf(format string, a ...any) {
	t.Failf(format, a...)
	panic(errAbort)
}

// Eq compares observation with model.
func (t *T) Eq(what string, got, want any) bool {
	g, w := render(got), render(want)
	if g != w {
		t.Failf("%s: implementation %s, model %s", what, g, w)
		return false
	}
	return true
}

func render(v any) string {
	switch s := v.(type) {
	case string:
		return strconv.Quote(s)
	case error:
		if s == nil {
			return "<nil>"
		}
		return "error " + strconv.Quote(s.Error())
	}
	return fmt.Sprintf("%#v", v)
}

// State records an observed model state (deduplicated over the whole run).
func (t *T) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	t.st = append(t.st, h.Sum64())
	t.steps++
}

// Step counts n transitions.
func (t *T) Step(n int) { t.steps += n }

type shardResult struct {
	Cases, Steps int
	States       []uint64
	Samples      []string
	Violations   []Violation
	Known        map[string]int
	Capped       bool
	Groups       map[string]int
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func main() {
	var (
		prop   = flag.String("prop", "", "property")
		tier   = flag.String("tier", "quick", "tier")
		shard  = flag.Int("shard", -1, "worker shard")
		shards = flag.Int("shards", 0, "number of shards")
		out    = flag.String("out", "", "worker output")
		replay = flag.String("replay", "", "replay file")
		limit  = flag.Int("limit", 0, "seconds of exploration")
	)
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *limit == 0 {
		*limit = 420
		if *tier == "thorough" {
			*limit = 3000
		}
	}
	if *shard >= 0 {
		worker(p, *tier, *shard, *shards, *out, *limit)
		return
	}
	os.Exit(coordinate(p, *tier, *shards, *limit))
}

func newX(tier string, shard, shards, limit int) *X {
	x := &X{
		Thorough: tier == "thorough",
		shard:    shard, shards: shards,
		deadline: time.Now().Add(time.Duration(limit) * time.Second),
		states:   map[uint64]struct{}{},
		known:    map[string]int{},
		knownIDs: map[string]bool{},
		groups:   map[string]int{},
	}
	for _, k := range loadKnown() {
		x.knownIDs[k.ID] = true
	}
	return x
}

func worker(p *Prop, tier string, shard, shards int, out string, limit int) {
	debug.SetMaxStack(256 << 20)
	x := newX(tier, shard, shards, limit)
	x.curFile, _ = os.Create(out + ".cur")
	finish := func() {
		r := shardResult{
			Cases: x.cases, Steps: x.steps, Samples: x.samples,
			Violations: x.violations, Known: x.known, Capped: x.capped, Groups: x.groups,
		}
		for s := range x.states {
			r.States = append(r.States, s)
		}
		b, _ := json.Marshal(r)
		tmp := out + ".tmp"
		os.WriteFile(tmp, b, 0o644)
		os.Rename(tmp, out)
	}
	// Watchdog: a single execution takes microseconds to milliseconds; one
	// that neither returns in 2 minutes nor keeps its memory under 3 GB has
	// lost termination.
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c := x.cur.Load()
			if c == nil {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			hung := time.Since(c.start) > 120*time.Second
			big := ms.HeapAlloc > 3<<30
			if hung || big {
				why := "did not return within 120 s"
				if big {
					why = "allocated more than 3 GB"
				}
				b, _ := json.Marshal(shardResult{
					Cases: x.cases, Violations: []Violation{{Key: c.key, Msgs: []string{"execution " + why}, Repro: 1}},
				})
				os.WriteFile(out, b, 0o644)
				os.Exit(0)
			}
		}
	}()
	p.run(x)
	x.cur.Store(nil)
	finish()
}

type knownFinding struct {
	Prop, ID, Text string
}

func loadKnown() (res []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "KNOWN-FINDING: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 {
			continue
		}
		res = append(res, knownFinding{f[0], strings.TrimPrefix(f[1], "id="), f[2]})
	}
	return
}

func coordinate(p *Prop, tier string, shards, limit int) int {
	start := time.Now()
	if shards <= 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	results := make([]*shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outf := filepath.Join(dir, fmt.Sprintf("s%d.json", i))
			scratch := filepath.Join(dir, fmt.Sprintf("w%d", i))
			os.MkdirAll(scratch, 0o755)
			cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-shard", strconv.Itoa(i),
				"-shards", strconv.Itoa(shards), "-out", outf, "-limit", strconv.Itoa(limit))
			cmd.Dir = scratch
			cmd.Env = append(scrubEnv(os.Environ()), "VERIF_DIR="+verifDir, "GOMAXPROCS=2", "TMPDIR="+scratch)
			var errb tail
			cmd.Stdout = io.Discard
			cmd.Stderr = &errb
			rerr := cmd.Run()
			b, err := os.ReadFile(outf)
			r := &shardResult{}
			if err != nil || json.Unmarshal(b, r) != nil {
				key := readCur(outf + ".cur")
				r = &shardResult{Violations: []Violation{{Key: key, Repro: 1,
					Msgs: []string{fmt.Sprintf("the process running this execution ended without a result (%v): fatal error or process exit in the code under test\n%s", rerr, errb.String())}}}}
				if key == "" {
					r.Violations[0].Key = "(before the first case)"
				}
			}
			results[i] = r
		}()
	}
	wg.Wait()

	states := map[uint64]struct{}{}
	var cases, steps int
	var samples []string
	var vs []Violation
	known := map[string]int{}
	groups := map[string]int{}
	capped := false
	for _, r := range results {
		cases += r.Cases
		steps += r.Steps
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		samples = append(samples, r.Samples...)
		vs = append(vs, r.Violations...)
		for k, n := range r.Known {
			known[k] += n
		}
		for k, n := range r.Groups {
			groups[k] += n
		}
		capped = capped || r.Capped
	}
	sort.Strings(samples)
	if len(samples) > 12 {
		// keep a spread
		var s2 []string
		for i := 0; i < 12; i++ {
			s2 = append(s2, samples[i*len(samples)/12])
		}
		samples = s2
	}
	sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Key) < len(vs[j].Key) })

	for _, k := range loadKnown() {
		if k.Prop == p.ID && known[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s (%d executions)\n", p.ID, k.ID, k.Text, known[k.ID])
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                        len(states),
			"transitions":                   steps,
			"traces_validated_against_impl": cases,
			"samples":                       samples,
			"exhaustive":                    !capped && len(vs) == 0,
			"bound":                         p.bound(),
			"executions_by_group":           groups,
			"known_finding_executions":      known,
		},
		"assumptions": append([]string{
			"values outside the stated alphabets and sequences beyond the stated bounds are not covered",
			"the reference model in /verif/mc is the specification; every enumerated model execution is run on the real code and compared",
		}, p.Assumptions...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(vs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d exhaustive=%v violations=%d wall=%.1fs\n",
		p.ID, tier, cases, len(states), steps, !capped && len(vs) == 0, len(vs), time.Since(start).Seconds())
	if len(vs) == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir, "replays")
	os.MkdirAll(rdir, 0o755)
	for i, v := range vs {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(vs)-i)
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, i+1))
		b, _ := json.MarshalIndent(map[string]any{
			"property": p.ID, "tier": tier, "key": v.Key, "msgs": v.Msgs, "reproduced_of_5": v.Repro,
			"how": "/verif/run.sh replay " + path,
		}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("case %s\n", v.Key)
		for _, m := range v.Msgs {
			fmt.Printf("    %s\n", strings.ReplaceAll(m, "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}

func scrubEnv(env []string) (res []string) {
	for _, e := range env {
		switch k, _, _ := strings.Cut(e, "="); k {
		case "COLUMNS", "TERM", "NO_COLOR", "COLORTERM", "CLI_DEBUG_TEMPLATES", "TMPDIR", "GOMAXPROCS":
			continue
		}
		res = append(res, e)
	}
	return
}

func readCur(f string) string {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 4 {
		return ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	if 4+n > len(b) {
		return ""
	}
	return string(b[4 : 4+n])
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = t.b[:1<<20]
	}
	return len(p), nil
}

func (t *tail) String() string {
	s := string(t.b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct{ Property, Tier, Key string }
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		return 2
	}
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	x := newX(r.Tier, 0, 1, 3600)
	x.replay = r.Key
	p.run(x)
	if x.cases == 0 {
		fmt.Println("no such case: ", r.Key)
		return 2
	}
	for _, v := range x.violations {
		fmt.Printf("case %s (reproduced %d/5)\n", v.Key, v.Repro)
		for _, m := range v.Msgs {
			fmt.Printf("    %s\n", strings.ReplaceAll(m, "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	}
	if len(x.violations) > 0 {
		return 1
	}
	fmt.Println("case holds:", r.Key)
	return 0
}
