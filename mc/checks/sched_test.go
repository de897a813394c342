package checks

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verifmc/h"
	"verifmc/shim"
)

// A scenario is a small concurrent program: setup runs alone, the threads run under the scheduler, verify
// runs alone afterwards.
type scenario struct {
	name    string
	cfg     h.Cfg
	setup   func(r *run)
	threads []thread
	verify  func(r *run)
	// maxDev overrides the bound on deviations from the default schedule
	maxDev func(c *Ctx) int
}

type thread struct {
	name string
	f    func(r *run)
}

// run is one execution of a scenario.
type run struct {
	k    *Case
	w    *h.World
	ini  []*h.Ini
	hist []*event
	seq  int
	log  []string
	v    map[string]any
	done map[string]bool
}

// event is an operation as a thread saw it: inv < resp, resp 0 while unanswered.
type event struct {
	th        string
	what      string
	inv, resp int
	res       *h.Result
	apply     func(m *model) bool // on the sequential model; false: not what was observed
	optional  bool                // may have had no effect (no answer)
}

// do runs one operation and records when it started and ended.
func (r *run) do(th, what string, f func() *h.Result) *event {
	r.seq++
	e := &event{th: th, what: what, inv: r.seq}
	r.hist = append(r.hist, e)
	e.res = f()
	r.seq++
	e.resp = r.seq
	return e
}

func (r *run) history() string {
	var l []string
	for _, e := range r.hist {
		l = append(l, fmt.Sprintf("%s:%s[%d,%d]=%v", e.th, e.what, e.inv, e.resp, e.res))
	}
	return strings.Join(l, " ")
}

type dev struct{ at, alt int }

func devString(ds []dev) string {
	if len(ds) == 0 {
		return "default"
	}
	var l []string
	for _, d := range ds {
		l = append(l, fmt.Sprintf("%d.%d", d.at, d.alt))
	}
	return strings.Join(l, ",")
}

func devParse(s string) (ds []dev) {
	for _, p := range strings.Split(s, ",") {
		a, b, ok := strings.Cut(p, ".")
		if ok {
			x, _ := strconv.Atoi(a)
			y, _ := strconv.Atoi(b)
			ds = append(ds, dev{x, y})
		}
	}
	return
}

// racesTrusted: the happens-before relation behind race reports knows locks, WaitGroups, atomics, go
// statements and connections. Code that synchronises by other means (channels) makes reports unreliable.
var racesTrusted = func() bool {
	b, _ := os.ReadFile(os.Getenv("VERIF_UNMODELLED"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/pkg/scsi/") || strings.Contains(l, "/pkg/port/") {
			return false
		}
	}
	return true
}()

// once executes the scenario under the default schedule with the given deviations.
func (s *scenario) once(k *Case, ds []dev) (pts []shim.ChoicePoint) {
	cfg := s.cfg
	cfg.Ctl = true
	w := h.NewWorld(cfg)
	defer w.End()
	ctl := w.S.Ctl
	r := &run{k: k, w: w, v: map[string]any{}, done: map[string]bool{}}
	for _, m := range w.Stores {
		m.OnOp = func(kind string) { shim.Point("store "+kind, nil) }
	}
	s.setup(r)
	if k.Failed() {
		return nil
	}
	h.Settle()
	at := map[int]int{}
	for _, d := range ds {
		at[d.at] = d.alt
	}
	n := 0
	bad := false
	ctl.Choose = func(en int, running bool, label string) int {
		c := at[n]
		n++
		if c >= en {
			bad = true
			return 0
		}
		return c
	}
	ctl.Max = 4000
	ctl.Start()
	for _, t := range s.threads {
		ctl.Spawn(t.name, func() { t.f(r); r.done[t.name] = true })
	}
	quiet := ctl.Run()
	pts = append(pts, ctl.Points...)
	k.Op(ctl.Steps)
	stuck := ctl.Stuck()
	ctl.Off()
	if bad {
		k.Logf("schedule diverged")
		k.C.Extra("schedules that could not be followed", 1)
		return nil
	}
	fail := func(key, f string, a ...any) {
		k.Fail(key, "%s; schedule %s; history %s", fmt.Sprintf(f, a...), strings.Join(ctl.Trace, " "), r.history())
	}
	if os.Getenv("VERIF_V") != "" && k.C.only != "" {
		k.Logf("schedule %s", strings.Join(ctl.Trace, " "))
		k.Logf("history %s", r.history())
	}
	if racesTrusted {
		for _, x := range ctl.Races {
			fail("race", "unordered accesses to shared state (on maps the Go runtime aborts the process): %s", x)
			break
		}
	}
	if k.crashes(w, "crash") {
		return
	}
	if !quiet {
		fail("livelock", "still running after %d steps", ctl.Max)
		return
	}
	if len(stuck) > 0 {
		fail("stuck", "nothing can run any more but these wait for ever: %v", stuck)
		return
	}
	for _, i := range r.ini {
		i.Threaded(false)
	}
	h.Settle()
	if s.verify != nil {
		s.verify(r)
	}
	if k.crashes(w, "crash") {
		return
	}
	return
}

// explore runs the scenario under every schedule with at most bound deviations from the default one.
func (c *Ctx) explore(s *scenario, bound int) {
	if s.maxDev != nil {
		bound = s.maxDev(c)
	}
	if c.only != "" {
		if name, d, ok := strings.Cut(c.only, "/"); ok && name == s.name {
			c.Case(c.only, func(k *Case) { s.once(k, devParse(d)) })
		}
		return
	}
	var pts []shim.ChoicePoint
	one := func(ds []dev, count bool) bool {
		id := s.name + "/" + devString(ds)
		if c.skip[id] {
			return false
		}
		if time.Now().After(c.deadline) {
			c.rep.Truncated = true
			return false
		}
		save := c.nshard
		c.nshard = 1
		sh := c.shard
		c.shard = 0
		before := c.rep.Cases
		ops := c.rep.Ops
		c.Case(id, func(k *Case) {
			p := s.once(k, ds)
			if !k.quiet {
				pts = p
				_ = k
			}
		})
		c.nshard, c.shard = save, sh
		if !count {
			c.rep.Cases, c.rep.Ops = before, ops
		}
		return true
	}
	var rec func(ds []dev)
	rec = func(ds []dev) {
		if !one(ds, len(ds) > 0 || c.shard == 0) || len(ds) >= bound {
			return
		}
		mine := pts
		from := 0
		if len(ds) > 0 {
			from = ds[len(ds)-1].at + 1
		}
		for p := from; p < len(mine); p++ {
			for a := 1; a < mine[p].N; a++ {
				if len(ds) == 0 && int(hash(fmt.Sprintf("%s/%d.%d", s.name, p, a))%uint64(c.nshard)) != c.shard {
					continue
				}
				if c.rep.Truncated {
					return
				}
				rec(append(append([]dev{}, ds...), dev{p, a}))
			}
		}
	}
	t := time.Now()
	rec(nil)
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "%s: %v\n", s.name, time.Since(t))
	}
}

// model is the sequential specification: blocks of 512 bytes per LUN.
type model struct{ b map[string][]byte }

func (m *model) clone() *model {
	n := &model{map[string][]byte{}}
	for k, v := range m.b {
		n.b[k] = append([]byte{}, v...)
	}
	return n
}

// linearize looks for an order of the operations that respects their real-time order and explains all
// results and the final content.
func (r *run) linearize(start *model, final func(*model) bool) bool {
	n := len(r.hist)
	used := make([]bool, n)
	var rec func(m *model, left int) bool
	rec = func(m *model, left int) bool {
		if left == 0 {
			return final(m)
		}
		min := 1 << 30
		for i, e := range r.hist {
			if !used[i] && e.resp > 0 && e.resp < min {
				min = e.resp
			}
		}
		for i, e := range r.hist {
			if used[i] || e.inv > min {
				continue
			}
			used[i] = true
			x := m.clone()
			if e.apply(x) && rec(x, left-1) {
				return true
			}
			if e.optional && rec(m, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(start, n)
}
