package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verifmc/h"
)

func init() {
	reg("P26", "model_checking",
		"every sequence up to the depth of reads and writes of every form (immediate, solicited and interleaved data, several Data-In sequences, failing, delayed in the store or on the network), other commands, requests that are no commands, aborted tasks, two sessions and reconnects; oracle: counters computed from what was answered, exactly, times included (virtual clock); a state is the vector of all counters",
		p26)
}

// tally is what the statistics have to say.
type tally struct {
	count          map[int]int64
	rn, rt, rb     int64
	wn, wt, wb     int64
	answered, gone bool
}

func (t *tally) add(op byte, edtl int, d time.Duration) {
	t.count[int(op)]++
	t.answered = true
	switch op {
	case 0x08, 0x28, 0xa8, 0x88:
		t.rn++
		t.rt += int64(d)
		t.rb += int64(edtl)
	case 0x0a, 0x2a, 0xaa, 0x8a:
		t.wn++
		t.wt += int64(d)
		t.wb += int64(edtl)
	}
}

type statWorld struct {
	k     *Case
	w     *h.World
	i     [2]*h.Ini
	t     tally
	delay time.Duration
	pend  [2]*wtask // a write waiting for its Data-Out
	since [2]time.Time
	lun   uint64
}

type statStep struct {
	name string
	ok   func(s *statWorld) bool // nil: always
	f    func(s *statWorld) string
}

func (s *statWorld) cmd(n int, cdb []byte, edtl int, rd bool, out []byte) string {
	r := s.i[n].Exec(s.lun, cdb, edtl, rd, out)
	s.k.Op(1)
	if !r.Got || r.Problem != "" {
		return fmt.Sprintf("%x: no answer: %v", cdb, r)
	}
	s.t.add(cdb[0], edtl, s.took())
	return ""
}

// took is how long the command waited in the store.
func (s *statWorld) took() time.Duration { return s.delay * time.Duration(s.calls(0)) }

var statCalls int

func (s *statWorld) calls(set int) int {
	n := statCalls
	statCalls = set
	return n
}

func statSteps() (l []statStep) {
	cmd := func(name string, n int, cdb []byte, edtl int, rd bool, nout int) {
		l = append(l, statStep{name: name, f: func(s *statWorld) string {
			var out []byte
			if nout > 0 {
				out = h.Fill(nout, 0x31)
			}
			return s.cmd(n, cdb, edtl, rd, out)
		}})
	}
	b := func(op byte, lba uint64, n int) []byte {
		c := make([]byte, 16)
		c[0] = op
		switch op >> 5 {
		case 0:
			c[2], c[3], c[4] = byte(lba>>8), byte(lba), byte(n)
			c = c[:6]
		case 4:
			c[9], c[13] = byte(lba), byte(n)
		case 5:
			c[5], c[9] = byte(lba), byte(n)
		default:
			c[5], c[8] = byte(lba), byte(n)
		}
		return c
	}
	cmd("read6", 0, b(0x08, 1, 1), 512, true, 0)
	cmd("read10", 0, b(0x28, 1, 3), 1536, true, 0)
	cmd("read12", 1, b(0xa8, 1, 2), 1024, true, 0)
	cmd("read16", 1, b(0x88, 1, 1), 512, true, 0)
	cmd("read-long", 0, b(0x28, 0, 12), 6144, true, 0)
	cmd("read-bad", 0, b(0x28, 20, 1), 512, true, 0)
	cmd("write6", 1, b(0x0a, 1, 1), 512, false, 512)
	cmd("write10", 0, b(0x2a, 1, 2), 1024, false, 1024)
	cmd("write12", 0, b(0xaa, 1, 1), 512, false, 512)
	cmd("write16", 1, b(0x8a, 1, 3), 1536, false, 1536)
	cmd("write-bad", 1, b(0x2a, 20, 1), 512, false, 512)
	cmd("tur", 0, make([]byte, 6), 0, false, 0)
	cmd("inquiry", 1, []byte{0x12, 0, 0, 0, 36, 0}, 36, true, 0)
	cmd("unknown", 0, []byte{0xff, 0, 0, 0, 0, 0}, 0, false, 0)
	cmd("verify", 0, b(0x2f, 1, 1), 0, false, 0)
	cmd("sync", 1, b(0x35, 0, 0), 0, false, 0)
	cmd("write-same", 0, b(0x93, 1, 2), 512, false, 512)
	cmd("write-verify", 1, b(0x2e, 1, 1), 512, false, 512)
	l = append(l, statStep{name: "no-unit", f: func(s *statWorld) string {
		s.lun = 5
		defer func() { s.lun = 0 }()
		return s.cmd(0, b(0x28, 0, 1), 512, true, nil)
	}})
	l = append(l, statStep{name: "nop", f: func(s *statWorld) string {
		p := &h.PDU{}
		p.B[0], p.B[1] = 0x40, 0x80
		p.Put32(16, s.i[0].ITT())
		p.Put32(20, 0xffffffff)
		p.Put32(24, s.i[0].CmdSN)
		if a := s.i[0].Do(p); len(a) != 1 || a[0].Op() != 0x20 {
			return fmt.Sprint("NOP-Out: ", a)
		}
		return ""
	}})
	l = append(l, statStep{name: "text", f: func(s *statWorld) string {
		p := &h.PDU{Data: []byte("SendTargets=\x00")}
		p.B[0], p.B[1] = 0x04, 0x80
		p.Put32(16, s.i[1].ITT())
		p.Put32(20, 0xffffffff)
		p.Put32(24, s.i[1].CmdSN)
		s.i[1].CmdSN++
		if a := s.i[1].Do(p); len(a) != 1 || a[0].Op() != 0x24 {
			return fmt.Sprint("Text: ", a)
		}
		return ""
	}})
	start := func(n int) statStep {
		return statStep{name: fmt.Sprint("start", n), ok: func(s *statWorld) bool { return s.pend[n] == nil }, f: func(s *statWorld) string {
			t := &wtask{i: s.i[n], lba: uint64(n), data: h.Fill(1024, byte(7+n))}
			s.since[n] = time.Now()
			s.i[n].Send(t.next())
			s.pend[n] = t
			return s.drain(n)
		}}
	}
	finish := func(n int) statStep {
		return statStep{name: fmt.Sprint("finish", n), ok: func(s *statWorld) bool { return s.pend[n] != nil }, f: func(s *statWorld) string {
			var at time.Time
			s.calls(0)
			for t := s.pend[n]; t.runnable(); {
				at = time.Now()
				s.i[n].Send(t.next())
				if e := s.drain(n); e != "" {
					return e
				}
			}
			if !s.pend[n].finished {
				return "write unfinished"
			}
			s.t.add(0x2a, 1024, at.Sub(s.since[n])+s.took())
			s.pend[n] = nil
			return ""
		}}
	}
	l = append(l, start(0), start(1), finish(0), finish(1))
	l = append(l, statStep{name: "wait", ok: func(s *statWorld) bool { return s.pend[0] != nil || s.pend[1] != nil }, f: func(s *statWorld) string {
		time.Sleep(7*time.Second + 777*time.Microsecond + 77)
		return ""
	}})
	l = append(l, statStep{name: "abort", ok: func(s *statWorld) bool { return s.pend[0] != nil }, f: func(s *statWorld) string {
		p := &h.PDU{}
		p.B[0], p.B[1] = 0x42, 0x81
		p.Put32(16, s.i[0].ITT())
		p.Put32(20, s.pend[0].pdu.ITT())
		p.Put32(24, s.i[0].CmdSN)
		s.pend[0] = nil
		if a := s.i[0].Do(p); len(a) != 1 || a[0].Op() != 0x22 {
			return fmt.Sprint("ABORT TASK: ", a)
		}
		return ""
	}})
	l = append(l, statStep{name: "drop", f: func(s *statWorld) string {
		s.i[0].Close()
		s.pend[0] = nil
		s.i[0] = s.w.Session(0, 0, "MaxRecvDataSegmentLength", "512")
		if s.i[0] == nil {
			return "cannot log in"
		}
		if s.delay > 0 {
			s.i[0].Slow(time.Minute + 123456789)
		}
		return ""
	}})
	l = append(l, statStep{name: "slow", ok: func(s *statWorld) bool { return s.delay == 0 }, f: func(s *statWorld) string {
		s.delay = 3*time.Second + 1000003*time.Nanosecond
		s.i[0].Slow(time.Minute + 123456789)
		s.i[1].Slow(time.Minute + 123456789)
		return ""
	}})
	return l
}

// drain gives a pending write what arrived for it.
func (s *statWorld) drain(n int) string {
	s.k.Op(1)
	for _, p := range s.i[n].Recv() {
		if e := s.pend[n].take(p, 1<<20); e != "" {
			return e
		}
	}
	return ""
}

// compare compares what the driver reports with the tally.
func (s *statWorld) compare(what string) bool {
	st := s.w.Drv.Stats()
	got := map[int]int64{}
	for op, n := range st.SCSIIOCount {
		if n != 0 {
			got[op] = n
		}
	}
	str := func(m map[int]int64) string {
		var l []string
		for op, n := range m {
			l = append(l, fmt.Sprintf("%02x:%d", op, n))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	a, b := str(got), str(s.t.count)
	s.k.State(fmt.Sprint(b, s.t.rn, s.t.rt, s.t.rb, s.t.wn, s.t.wt, s.t.wb))
	if a != b {
		s.k.Fail("count", "%s: commands counted per operation code: %s, answered: %s", what, a, b)
		return false
	}
	if st.ReadIOPS != s.t.rn || st.WriteIOPS != s.t.wn {
		s.k.Fail("iops", "%s: %d reads and %d writes counted, %d and %d answered", what, st.ReadIOPS, st.WriteIOPS, s.t.rn, s.t.wn)
		return false
	}
	if st.TotalReadBlockCount != s.t.rb || st.TotalWriteBlockCount != s.t.wb {
		s.k.Fail("bytes", "%s: %d bytes read and %d written counted, %d and %d asked for", what, st.TotalReadBlockCount, st.TotalWriteBlockCount, s.t.rb, s.t.wb)
		return false
	}
	if st.TotalReadTime != s.t.rt || st.TotalWriteTime != s.t.wt {
		s.k.Fail("time", "%s: %v reading and %v writing counted, took %v and %v", what, time.Duration(st.TotalReadTime), time.Duration(st.TotalWriteTime), time.Duration(s.t.rt), time.Duration(s.t.wt))
		return false
	}
	if s.t.answered && !st.IsClientConnected {
		s.k.Fail("connected", "%s: commands were answered and no client is connected", what)
		return false
	}
	// what the caller does with its copy is its own business
	st.SCSIIOCount[0x28] += 1000
	st.SCSIIOCount[0x77] = 1
	return true
}

func statStart(k *Case, on bool) *statWorld {
	c := h.Simple(h.LUN{LUN: 0, Blocks: 16})
	c.Stats = on
	s := &statWorld{k: k, w: h.NewWorld(c)}
	s.t.count = map[int]int64{}
	statCalls = 0
	s.w.Stores["0/0"].OnOp = func(string) {
		if s.delay > 0 {
			statCalls++
			time.Sleep(s.delay)
		}
	}
	s.i[0] = s.w.Session(0, 0, "MaxRecvDataSegmentLength", "512")
	s.i[1] = s.w.Session(1, 0, "MaxBurstLength", "512")
	if s.i[0] == nil || s.i[1] == nil {
		k.Fail("no-session", "cannot log in")
		return nil
	}
	return s
}

func p26(c *Ctx) {
	steps := statSteps()
	depth := Pick(c, 3, 4)
	for a := range steps {
		for b := range steps {
			c.Case(fmt.Sprintf("seq/%s-%s", steps[a].name, steps[b].name), func(k *Case) {
				run := func(seq []int) bool {
					s := statStart(k, true)
					if s == nil {
						return false
					}
					defer s.w.End()
					names := ""
					for _, n := range seq {
						st := steps[n]
						if st.ok != nil && !st.ok(s) {
							return true
						}
						names += st.name + " "
						if e := st.f(s); e != "" {
							k.Fail("protocol", "after %s: %s", names, e)
							return false
						}
						if !s.compare("after " + names) {
							return false
						}
					}
					return !k.crashes(s.w, "crash")
				}
				var rec func(seq []int) bool
				rec = func(seq []int) bool {
					if len(seq) == depth {
						return run(seq)
					}
					for n := range steps {
						if !rec(append(seq[:len(seq):len(seq)], n)) {
							return false
						}
					}
					return true
				}
				rec([]int{a, b})
			})
		}
	}
	// every operation code, to a unit that is there and one that is not
	for op := 0; op < 256; op++ {
		c.Case(fmt.Sprintf("op/%02x", op), func(k *Case) {
			s := statStart(k, true)
			if s == nil {
				return
			}
			defer s.w.End()
			for _, lun := range []uint64{0, 5} {
				for _, rd := range []bool{true, false} {
					s.lun = lun
					cdb := make([]byte, 16)
					cdb[0] = byte(op)
					r := s.i[0].Exec(lun, cdb, 512, rd, map[bool][]byte{true: nil, false: h.Fill(512, 9)}[rd])
					k.Op(1)
					if !r.Got {
						k.Fail("protocol", "operation code %02x: no answer: %v", op, r)
						return
					}
					s.t.add(byte(op), 512, 0)
					if !s.compare(fmt.Sprintf("operation code %02x, LUN %d, read %v", op, lun, rd)) {
						return
					}
				}
			}
			k.crashes(s.w, "crash")
		})
	}
	// nothing is counted where it is not asked for
	c.Case("off", func(k *Case) {
		s := statStart(k, false)
		if s == nil {
			return
		}
		defer s.w.End()
		for n, st := range steps {
			if st.ok != nil && !st.ok(s) {
				continue
			}
			if e := st.f(s); e != "" {
				k.Fail("protocol", "%s: %s", steps[n].name, e)
				return
			}
			g := s.w.Drv.Stats()
			if g.ReadIOPS+g.WriteIOPS+g.TotalReadBlockCount+g.TotalWriteBlockCount+g.TotalReadTime+g.TotalWriteTime != 0 || len(g.SCSIIOCount) != 0 {
				k.Fail("off", "after %s: statistics are off and say %+v", st.name, g)
				return
			}
		}
		k.crashes(s.w, "crash")
	})
}
