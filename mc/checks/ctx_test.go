// Package checks decides the properties: each explores a bounded space of executions of the real code
// exhaustively. The parent process enumerates shards, runs each in a subprocess of the same binary, merges
// what they covered, confirms violations, writes evidence and sets the exit code.
package checks

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verifmc/h"
)

type check struct {
	id, level, rule string
	assumptions     []string
	f               func(*Ctx)
}

var registry = map[string]*check{}

func reg(id, level, rule string, f func(*Ctx), assumptions ...string) {
	registry[id] = &check{id, level, rule, assumptions, f}
}

// Failure is one observation that contradicts the property.
type Failure struct {
	Case, Key, Msg string
}

// Report is what one shard covered.
type Report struct {
	Cases, Ops, Traces int
	Samples            []string
	Failures           []Failure
	Unconfirmed        []Failure
	Truncated          bool // the deadline ended the enumeration
	Notes              []string
	Extra              map[string]int
}

// Ctx is one shard's walk over the case space.
type Ctx struct {
	t        *testing.T
	Prop     string
	Tier     string
	Seed     int
	shard    int
	nshard   int
	only     string
	skip     map[string]bool
	deadline time.Time
	rep      Report
	states   map[uint64]bool
	seen     map[string]int // failures per key
	curFile  string
	index    int
	beat     chan string
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick[T any](c *Ctx, q, th T) T {
	if c.Thorough() {
		return th
	}
	return q
}

func hash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

// Case is one execution.
type Case struct {
	C     *Ctx
	ID    string
	fails []Failure
	ops   int
	quiet bool
	log   []string
}

// Fail records a contradiction. key names the failing input or history for known-finding matching.
func (k *Case) Fail(key, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if len(k.fails) < 20 {
		k.fails = append(k.fails, Failure{k.ID, key, msg})
	}
}
func (k *Case) Failed() bool { return len(k.fails) > 0 }

// Op counts transitions, State a distinct state reached.
func (k *Case) Op(n int) { k.ops += n }
func (k *Case) State(s string) {
	if !k.quiet {
		k.C.states[hash(s)] = true
	}
}
func (k *Case) Logf(f string, a ...any) {
	k.log = append(k.log, fmt.Sprintf(f, a...))
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "  "+f+"\n", a...)
	}
}

func (c *Ctx) Extra(name string, n int) {
	if c.rep.Extra == nil {
		c.rep.Extra = map[string]int{}
	}
	c.rep.Extra[name] += n
}

// Mine says whether this shard runs the case of that id.
func (c *Ctx) Mine(id string) bool {
	if c.only != "" {
		return id == c.only
	}
	c.index++
	if int(hash(id)%uint64(c.nshard)) != c.shard || c.skip[id] {
		return false
	}
	if time.Now().After(c.deadline) {
		c.rep.Truncated = true
		return false
	}
	return true
}

// Case runs f in a bubble of its own if the case belongs to this shard.
func (c *Ctx) Case(id string, f func(*Case)) { c.runCase(id, true, f) }

// Plain is Case without a bubble (for code that needs real files or processes only).
func (c *Ctx) Plain(id string, f func(*Case)) { c.runCase(id, false, f) }

func (c *Ctx) runCase(id string, bubble bool, f func(*Case)) {
	if !c.Mine(id) {
		return
	}
	k := c.once(id, bubble, false, f)
	c.rep.Cases++
	c.rep.Ops += k.ops
	if len(c.rep.Samples) < 3 || (c.rep.Cases&(c.rep.Cases-1) == 0 && len(c.rep.Samples) < 12) {
		s := id
		if len(k.log) > 0 {
			s += ": " + strings.Join(k.log, "; ")
		}
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, s)
	}
	if len(k.fails) == 0 {
		return
	}
	fresh := false
	for _, x := range k.fails {
		if c.seen[x.Key] < 3 {
			fresh = true
		}
	}
	if !fresh {
		return
	}
	again := map[string]bool{}
	for i := 0; i < 4; i++ {
		for _, x := range c.once(id, bubble, true, f).fails {
			again[x.Key] = true
		}
		if i == 0 {
			all := true
			for _, x := range k.fails {
				all = all && again[x.Key]
			}
			if all {
				break
			}
		}
	}
	for _, x := range k.fails {
		if !again[x.Key] {
			c.rep.Unconfirmed = append(c.rep.Unconfirmed, x)
			continue
		}
		if c.seen[x.Key] < 3 {
			c.rep.Failures = append(c.rep.Failures, x)
		}
		c.seen[x.Key]++
	}
}

func (c *Ctx) once(id string, bubble, quiet bool, f func(*Case)) *Case {
	k := &Case{C: c, ID: id, quiet: quiet}
	h.DefaultOrder = int(hash("order "+id) % 4)
	os.WriteFile(c.curFile, []byte(id), 0o600)
	c.beat <- id
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				k.Fail("harness-panic", "%v\n%s", r, debug.Stack())
			}
		}()
		f(k)
	}
	if bubble {
		h.Bubble(c.t, run)
	} else {
		run()
	}
	c.beat <- ""
	return k
}

// crashes turns a panic of the server into a failure.
func (k *Case) crashes(w *h.World, key string) bool {
	cr := w.S.Crashes()
	for _, s := range cr {
		lines := strings.Split(s, "\n")
		where := ""
		for i, l := range lines {
			if strings.Contains(l, "gostor/gotgt") && i+1 < len(lines) && !strings.Contains(l, "panic(") {
				where = strings.TrimSpace(l)
				break
			}
		}
		k.Fail(key, "the target process panicked: %s (in %s)", lines[0], where)
	}
	return len(cr) > 0
}

// TestMC is one shard; the orchestration is in TestMain.
func TestMC(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	ck := registry[id]
	if ck == nil {
		t.Fatalf("no check for %q", id)
	}
	out := os.Getenv("VERIF_OUT")
	n, _ := strconv.Atoi(os.Getenv("VERIF_NSHARD"))
	sh, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{t: t, Prop: id, Tier: os.Getenv("VERIF_TIER"), Seed: seed, shard: sh, nshard: n, only: os.Getenv("VERIF_CASE"),
		deadline: time.Now().Add(time.Duration(secs) * time.Second), states: map[uint64]bool{}, seen: map[string]int{}, skip: map[string]bool{},
		curFile: out + ".cur", beat: make(chan string)}
	for _, s := range strings.Split(os.Getenv("VERIF_SKIP"), "\x01") {
		if s != "" {
			c.skip[s] = true
		}
	}
	go func() { // watchdog: a case that makes no progress
		limit := 60 * time.Second
		var timer <-chan time.Time
		for {
			select {
			case id := <-c.beat:
				if id == "" {
					timer = nil
				} else {
					timer = time.After(limit)
				}
			case <-timer:
				os.WriteFile(out+".hang", []byte("hang"), 0o600)
				os.Exit(97)
			}
		}
	}()
	ck.f(c)
	os.Remove(c.curFile)
	b, _ := json.Marshal(c.rep)
	if err := os.WriteFile(out, b, 0o600); err != nil {
		t.Fatal(err)
	}
	f, _ := os.Create(out + ".states")
	w := bufio.NewWriter(f)
	for s := range c.states {
		binary.Write(w, binary.LittleEndian, s)
	}
	w.Flush()
	f.Close()
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

type shardResult struct {
	rep    Report
	states []uint64
	ok     bool
	cur    string
	hang   bool
	tail   string
}

func runShard(dir string, i, n int, only string, skip []string, secs int) shardResult {
	out := filepath.Join(dir, fmt.Sprintf("s%d-%d", i, time.Now().UnixNano()))
	scratch := out + ".d"
	os.Mkdir(scratch, 0o700)
	defer os.RemoveAll(scratch)
	var cmd *exec.Cmd
	args := []string{"-test.run=^TestMC$", "-test.timeout=0", "-test.v=false"}
	if p := os.Getenv("VERIF_PROF"); p != "" {
		args = append(args, "-test.cpuprofile="+p)
	}
	cmd = exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_SHARD="+strconv.Itoa(i), "VERIF_NSHARD="+strconv.Itoa(n), "VERIF_OUT="+out,
		"VERIF_SKIP="+strings.Join(skip, "\x01"), "VERIF_SECS="+strconv.Itoa(secs), "VERIF_CASE="+only, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch,
		"GOMAXPROCS="+strconv.Itoa(envInt("VERIF_PROCS", 2)), "GOMEMLIMIT=2GiB", "HOME="+scratch, "GOTRACEBACK=single")
	logf, _ := os.Create(out + ".log")
	cmd.Stdout, cmd.Stderr = logf, logf
	if os.Getenv("VERIF_V") != "" {
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return shardResult{tail: err.Error()}
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(secs+150) * time.Second):
		cmd.Process.Kill()
		<-done
		return shardResult{tail: "shard killed: over time", hang: true}
	}
	logf.Close()
	var r shardResult
	if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &r.rep) == nil {
		r.ok = true
	}
	if b, err := os.ReadFile(out + ".cur"); err == nil {
		r.cur = string(b)
	}
	if _, err := os.Stat(out + ".hang"); err == nil {
		r.hang = true
	}
	if b, err := os.ReadFile(out + ".states"); err == nil {
		for ; len(b) >= 8; b = b[8:] {
			r.states = append(r.states, binary.LittleEndian.Uint64(b))
		}
	}
	if b, err := os.ReadFile(out + ".log"); err == nil {
		if len(b) > 3000 {
			b = b[:3000]
		}
		r.tail = string(b)
	}
	return r
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_SHARD") != "" || os.Getenv("VERIF_PROP") == "" {
		os.Exit(m.Run())
	}
	os.Exit(orchestrate())
}

type finding struct{ prop, key, text string }

func loadFindings(path string) (fs []finding) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		p, key, _ := strings.Cut(head, " key=")
		fs = append(fs, finding{strings.TrimPrefix(p, "property="), strings.TrimSpace(key), text})
	}
	return
}

func orchestrate() int {
	start := time.Now()
	id, tier := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_TIER")
	root := os.Getenv("VERIF_ROOT")
	ck := registry[id]
	if ck == nil {
		fmt.Printf("no check for property %s\n", id)
		return 2
	}
	n := envInt("VERIF_SHARDS", 8)
	secs := envInt("VERIF_SECS", 0)
	if secs == 0 {
		secs = 150
		if tier == "thorough" {
			secs = 600
		}
	}
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	only := os.Getenv("VERIF_CASE")
	if only != "" {
		n = 1
	}
	var total Report
	total.Extra = map[string]int{}
	states := map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var skip []string
			for {
				left := secs - int(time.Since(start).Seconds())
				if left < 5 {
					left = 5
				}
				r := runShard(dir, i, n, only, skip, left)
				mu.Lock()
				for _, s := range r.states {
					states[s] = true
				}
				if r.ok {
					total.Cases += r.rep.Cases
					total.Ops += r.rep.Ops
					total.Traces += r.rep.Traces
					total.Samples = append(total.Samples, r.rep.Samples...)
					total.Failures = append(total.Failures, r.rep.Failures...)
					total.Unconfirmed = append(total.Unconfirmed, r.rep.Unconfirmed...)
					total.Truncated = total.Truncated || r.rep.Truncated
					total.Notes = append(total.Notes, r.rep.Notes...)
					for k, v := range r.rep.Extra {
						total.Extra[k] += v
					}
					mu.Unlock()
					return
				}
				mu.Unlock()
				// the process died or hung: is it the case it was in?
				if r.cur == "" {
					mu.Lock()
					broken = r.tail
					mu.Unlock()
					return
				}
				again := 0
				hang := r.hang
				for j := 0; j < 2; j++ {
					q := runShard(dir, 0, 1, r.cur, nil, 60)
					if !q.ok && q.hang == hang {
						again++
					}
				}
				mu.Lock()
				if again == 2 {
					what := "the process died: " + firstLines(r.tail, 6)
					key := "process-died"
					if hang {
						what, key = "the system never went quiet", "hang"
					}
					total.Failures = append(total.Failures, Failure{r.cur, key, what})
				} else {
					total.Unconfirmed = append(total.Unconfirmed, Failure{r.cur, "process-died", firstLines(r.tail, 6)})
				}
				total.Cases++
				mu.Unlock()
				skip = append(skip, r.cur)
				if only != "" || len(skip) > 4 || int(time.Since(start).Seconds()) > secs {
					mu.Lock()
					total.Truncated = true
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	if broken != "" {
		fmt.Printf("a shard failed outside any case:\n%s\n", broken)
		return 2
	}
	known := loadFindings(filepath.Join(root, "known_findings.txt"))
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	hit := map[string]string{}
	var viol []Failure
	sort.Slice(total.Failures, func(i, j int) bool {
		a, b := total.Failures[i], total.Failures[j]
		if len(a.Case) != len(b.Case) {
			return len(a.Case) < len(b.Case)
		}
		return a.Case < b.Case
	})
	for _, x := range total.Failures {
		isKnown := false
		for _, f := range known {
			if f.prop == id && f.key == x.Key {
				hit[f.key] = f.text
				isKnown = true
			}
		}
		if !isKnown {
			viol = append(viol, x)
		}
	}
	var hk []string
	for k := range hit {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, hit[k], k)
	}
	perKey := map[string]int{}
	nv := 0
	for _, x := range viol {
		perKey[x.Key]++
		if perKey[x.Key] > 1 || nv >= 20 {
			continue
		}
		nv++
		path := filepath.Join(root, "evidence", "replay", fmt.Sprintf("%s-%d.json", id, nv))
		b, _ := json.MarshalIndent(map[string]any{"property": id, "case": x.Case, "key": x.Key, "what": x.Msg,
			"replay": fmt.Sprintf("cd %s && VERIF_CASE=%q ./run.sh %s %s", root, x.Case, id, tier)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  case %s\n  key %s\n  %s\n", x.Case, x.Key, x.Msg)
	}
	sort.Strings(total.Samples)
	if len(total.Samples) > 8 {
		step := len(total.Samples) / 8
		var s []string
		for i := 0; i < len(total.Samples) && len(s) < 8; i += step {
			s = append(s, total.Samples[i])
		}
		total.Samples = s
	}
	cov := map[string]any{"samples": total.Samples, "exhaustive": !total.Truncated && only == "", "rule": ck.rule}
	switch ck.level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = total.Ops
		cov["traces_validated_against_impl"] = total.Cases
	default:
		cov["evaluations"] = total.Cases
		cov["distinct_nontrivial"] = len(states)
		cov["operations_executed"] = total.Ops
	}
	for k, v := range total.Extra {
		cov[k] = v
	}
	if len(total.Unconfirmed) > 0 {
		var u []string
		for i, x := range total.Unconfirmed {
			if i < 5 {
				u = append(u, x.Case+": "+x.Key+": "+x.Msg)
			}
		}
		cov["unconfirmed"] = u
	}
	if len(hk) > 0 {
		cov["known_findings_seen"] = hk
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": ck.level, "coverage": cov,
		"assumptions": ck.assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(perKey)}
	if ck.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if os.Getenv("VERIF_CASE") == "" {
		if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d executions, %d operations, %d distinct states, exhaustive=%v, %.1f s\n", id, tier, total.Cases, total.Ops, len(states), !total.Truncated, time.Since(start).Seconds())
	for i, x := range total.Unconfirmed {
		if i < 5 {
			fmt.Printf("  unconfirmed: %s: %s: %s\n", x.Case, x.Key, x.Msg)
		}
	}
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}
