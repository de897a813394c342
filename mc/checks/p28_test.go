package checks

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P28", "exploration",
		"every schedule with at most 2 (quick) or 3 (thorough) deviations from the default one, over all lock, connection, shared-assignment, mutable-map and backing-store operations of the target, of 2 or 3 sessions that issue overlapping reads, writes, write-sames, unmaps, OR-writes, task management and pings; oracle: a linear order of the commands, block by block, explains every answer and the final medium, every command is answered once, nothing is stuck, no unsynchronised map access",
		func(c *Ctx) {
			for _, s := range p28scenarios() {
				c.explore(s, Pick(c, 2, 3))
			}
		}, "a command on one block is the unit of atomicity", "the backing store's own calls are atomic", "preemption inside straight-line code that touches no shared variable, lock, map, connection or store has no effect")
}

const blk = 512

func fillBlock(tag byte) []byte { return bytes.Repeat([]byte{tag, 0x11}, blk/2) }

// command helpers: each performs one operation on a session and says what it does to the model.
func (r *run) write(th string, i *h.Ini, key string, lun, lba uint64, tag byte) {
	e := r.do(th, fmt.Sprintf("write(%s,%d,%02x)", key, lba, tag), func() *h.Result {
		return i.Exec(lun, h.C10(0x2a, 0, uint32(lba), 1), blk, false, fillBlock(tag))
	})
	e.apply = func(m *model) bool { copy(m.b[key][lba*blk:], fillBlock(tag)); return e.res.Good() }
	r.ok(e)
}

func (r *run) or(th string, i *h.Ini, key string, lun, lba uint64, tag byte) {
	e := r.do(th, fmt.Sprintf("orwrite(%s,%d,%02x)", key, lba, tag), func() *h.Result {
		return i.Exec(lun, h.C16(0x8b, 0, lba, 1), blk, false, fillBlock(tag))
	})
	e.apply = func(m *model) bool {
		for j, x := range fillBlock(tag) {
			m.b[key][int(lba)*blk+j] |= x
		}
		return e.res.Good()
	}
	r.ok(e)
}

func (r *run) same(th string, i *h.Ini, key string, lun, lba uint64, tag byte) {
	e := r.do(th, fmt.Sprintf("writesame(%s,%d,%02x)", key, lba, tag), func() *h.Result {
		return i.Exec(lun, h.C10(0x41, 0, uint32(lba), 1), blk, false, fillBlock(tag))
	})
	e.apply = func(m *model) bool { copy(m.b[key][lba*blk:], fillBlock(tag)); return e.res.Good() }
	r.ok(e)
}

func (r *run) unmap(th string, i *h.Ini, key string, lun, lba uint64) {
	cdb, data := h.Unmap([2]uint64{lba, 1})
	e := r.do(th, fmt.Sprintf("unmap(%s,%d)", key, lba), func() *h.Result { return i.Exec(lun, cdb, len(data), false, data) })
	e.apply = func(m *model) bool { copy(m.b[key][lba*blk:], make([]byte, blk)); return e.res.Good() }
	r.ok(e)
}

func (r *run) read(th string, i *h.Ini, key string, lun, lba uint64) {
	e := r.do(th, fmt.Sprintf("read(%s,%d)", key, lba), func() *h.Result {
		return i.Exec(lun, h.C10(0x28, 0, uint32(lba), 1), blk, true, nil)
	})
	e.apply = func(m *model) bool {
		return e.res.Good() && bytes.Equal(e.res.Data, m.b[key][lba*blk:lba*blk+blk])
	}
	r.ok(e)
}

func (r *run) verifyData(th string, i *h.Ini, key string, lun, lba uint64, tag byte) {
	e := r.do(th, fmt.Sprintf("verify(%s,%d,%02x)", key, lba, tag), func() *h.Result {
		return i.Exec(lun, h.C10(0x2f, 2, uint32(lba), 1), blk, false, fillBlock(tag))
	})
	e.apply = func(m *model) bool {
		if bytes.Equal(m.b[key][lba*blk:lba*blk+blk], fillBlock(tag)) {
			return e.res.Good()
		}
		return e.res.Check(0xe, miscompare)
	}
}

func (r *run) nop(th string, i *h.Ini) {
	p := &h.PDU{Data: []byte(th)}
	p.B[0], p.B[1] = h.OpNopOut, 0x80
	p.Put32(16, i.ITT())
	p.Put32(20, 0xffffffff)
	p.Put32(24, i.CmdSN)
	i.CmdSN++
	p.Put32(28, i.ExpStat)
	ps := i.Do(p)
	if len(ps) != 1 || ps[0].Op() != h.OpNopIn || string(ps[0].Data) != th || ps[0].ITT() != p.ITT() {
		r.k.Fail("ping", "%s: NOP-Out answered %v", th, ps)
	}
}

func (r *run) tmf(th string, i *h.Ini, lun uint64, fn byte, ref uint32) byte {
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpTMF|0x40, 0x80|fn
	p.SetLUN(lun)
	p.Put32(16, i.ITT())
	p.Put32(20, ref)
	p.Put32(24, i.CmdSN)
	p.Put32(28, i.ExpStat)
	ps := i.Do(p)
	if len(ps) != 1 || ps[0].Op() != h.OpTMFResp || ps[0].ITT() != p.ITT() {
		r.k.Fail("task-management", "%s: function %d answered %v", th, fn, ps)
		return 0xff
	}
	return ps[0].B[2]
}

func (r *run) ok(e *event) {
	if e.res.Problem != "" || !e.res.Got {
		r.k.Fail("answer", "%s: %s: %v closed=%v", e.th, e.what, e.res, e.res.Closed)
	} else if !e.res.Good() {
		r.k.Fail("refused", "%s: %s: %v", e.th, e.what, e.res)
	}
}

// setupDisks opens sessions (one per entry: target index) and fills the media.
func setupDisks(targets ...int) func(r *run) {
	return func(r *run) {
		for n, t := range targets {
			i := r.w.Session(n, t)
			if i == nil {
				r.k.Fail("setup", "login %d failed", n)
				return
			}
			r.ini = append(r.ini, i)
		}
		m := &model{map[string][]byte{}}
		for t, name := range r.w.Names {
			for l := range r.w.Conf.ISCSITargets[name].LUNs {
				if lun, _ := strconv.ParseUint(l, 10, 64); r.w.Stores[h.LKey(t, lun)] == nil {
					b := h.Fill(len(r.w.Medium(t, lun)), byte(t+1))
					r.w.SetMedium(t, lun, b)
					m.b[h.LKey(t, lun)] = append([]byte{}, b...)
				}
			}
		}
		for key, s := range r.w.Stores {
			b := h.Fill(len(s.Snapshot()), byte(len(key)))
			s.Set(b)
			m.b[key] = append([]byte{}, b...)
		}
		r.v["start"] = m
		for _, i := range r.ini {
			i.Threaded(true)
		}
	}
}

// settled checks that the history linearises to the media and that every session is still of use.
func settled(r *run) {
	m := r.v["start"].(*model)
	final := map[string][]byte{}
	for key := range m.b {
		var t int
		var lun uint64
		fmt.Sscanf(key, "%d/%d", &t, &lun)
		final[key] = r.w.Medium(t, lun)
	}
	var dump []string
	for key, b := range final {
		dump = append(dump, fmt.Sprintf("%s=%x", key, hash(string(b))))
	}
	r.k.State(r.history() + strings.Join(dump, ","))
	if !r.linearize(m, func(x *model) bool {
		for key, b := range final {
			if !bytes.Equal(b, x.b[key]) {
				return false
			}
		}
		return true
	}) {
		var d []string
		for key, b := range final {
			for l := 0; l*blk < len(b); l++ {
				d = append(d, fmt.Sprintf("%s[%d]=%x", key, l, b[l*blk:l*blk+2]))
			}
		}
		r.k.Fail("not-linearizable", "no order of the commands explains answers and medium: %s; medium %s", r.history(), strings.Join(d, " "))
	}
	for n, i := range r.ini {
		if x := i.Exec(0, h.TUR(), 0, false, nil); !x.Good() {
			r.k.Fail("session-lost", "session %d afterwards: %v", n, x)
		}
	}
}

func p28scenarios() (l []*scenario) {
	one := h.Simple(h.LUN{LUN: 0, Blocks: 2})
	add := func(name string, cfg h.Cfg, targets []int, ths ...func(r *run)) {
		s := &scenario{name: name, cfg: cfg, setup: setupDisks(targets...), verify: settled}
		for n, f := range ths {
			s.threads = append(s.threads, thread{fmt.Sprintf("i%d", n), f})
		}
		l = append(l, s)
	}
	add("write-read-same-block", one, []int{0, 0},
		func(r *run) { r.write("a", r.ini[0], "0/0", 0, 0, 0xa1); r.read("a", r.ini[0], "0/0", 0, 0) },
		func(r *run) { r.write("b", r.ini[1], "0/0", 0, 0, 0xb1); r.read("b", r.ini[1], "0/0", 0, 0) })
	add("r2t-writes", one, []int{0, 0},
		func(r *run) { r.ini[0].ImmLimit = 0; r.write("a", r.ini[0], "0/0", 0, 1, 0xa2) },
		func(r *run) { r.ini[1].ImmLimit = 100; r.ini[1].Seg = 300; r.write("b", r.ini[1], "0/0", 0, 1, 0xb2) })
	add("same-tags-two-targets", h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 2}, {LUN: 1, Blocks: 2}}}, {LUNs: []h.LUN{{LUN: 0, Blocks: 2}}}}}, []int{0, 1},
		func(r *run) {
			r.write("a", r.ini[0], "0/1", 1, 0, 0xa3)
			r.read("a", r.ini[0], "0/0", 0, 0)
		},
		func(r *run) {
			r.write("b", r.ini[1], "1/0", 0, 0, 0xb3)
			r.read("b", r.ini[1], "1/0", 0, 0)
		})
	for _, kind := range []string{"file", "RemBs"} {
		cfg := h.Simple(h.LUN{LUN: 0, Blocks: 3, Kind: kind, Online: true})
		add(kind, cfg, []int{0, 0},
			func(r *run) { r.write("a", r.ini[0], "0/0", 0, 0, 0xa1); r.read("a", r.ini[0], "0/0", 0, 1) },
			func(r *run) { r.read("b", r.ini[1], "0/0", 0, 2); r.write("b", r.ini[1], "0/0", 0, 1, 0xb1) })
		if kind == "RemBs" {
			continue
		}
		add(kind+"-reads", cfg, []int{0, 0, 0},
			func(r *run) { r.read("a", r.ini[0], "0/0", 0, 0) },
			func(r *run) { r.read("b", r.ini[1], "0/0", 0, 1) },
			func(r *run) { r.write("c", r.ini[2], "0/0", 0, 2, 0xc1) })
	}
	add("verify-write", one, []int{0, 0},
		func(r *run) {
			r.verifyData("a", r.ini[0], "0/0", 0, 0, 0xb6)
			r.verifyData("a", r.ini[0], "0/0", 0, 0, 0xb6)
		},
		func(r *run) { r.write("b", r.ini[1], "0/0", 0, 0, 0xb6); r.write("b", r.ini[1], "0/0", 0, 0, 0xb7) })
	add("or-or", one, []int{0, 0},
		func(r *run) { r.or("a", r.ini[0], "0/0", 0, 0, 0x40) },
		func(r *run) { r.or("b", r.ini[1], "0/0", 0, 0, 0x04) })
	add("or-write", one, []int{0, 0},
		func(r *run) { r.or("a", r.ini[0], "0/0", 0, 0, 0x40) },
		func(r *run) { r.write("b", r.ini[1], "0/0", 0, 0, 0x04) })
	add("or-same", one, []int{0, 0},
		func(r *run) { r.or("a", r.ini[0], "0/0", 0, 0, 0x40) },
		func(r *run) { r.same("b", r.ini[1], "0/0", 0, 0, 0x04) })
	add("or-unmap", h.Simple(h.LUN{LUN: 0, Blocks: 2, Thin: true}), []int{0, 0},
		func(r *run) { r.or("a", r.ini[0], "0/0", 0, 0, 0x40) },
		func(r *run) { r.unmap("b", r.ini[1], "0/0", 0, 0); r.read("b", r.ini[1], "0/0", 0, 0) })
	add("abort-own-only", one, []int{0, 0},
		func(r *run) { r.ini[0].ImmLimit = 0; r.write("a", r.ini[0], "0/0", 0, 0, 0xa4) },
		func(r *run) {
			// the tasks of another session have the same tags and are none of its business
			for tag := uint32(0); tag < 4; tag++ {
				if x := r.tmf("b", r.ini[1], 0, 1, tag); x > 1 {
					r.k.Fail("abort-answer", "abort of tag %d: %d", tag, x)
				}
			}
			r.tmf("b", r.ini[1], 0, 2, 0)
			r.read("b", r.ini[1], "0/0", 0, 0)
		})
	add("ping-inquiry-write", one, []int{0, 0},
		func(r *run) { r.nop("a", r.ini[0]); r.write("a", r.ini[0], "0/0", 0, 0, 0xa5) },
		func(r *run) {
			x := r.ini[1].Exec(0, h.Inquiry(false, 0, 96), 96, true, nil)
			if !x.Good() || len(x.Data) < 36 {
				r.k.Fail("inquiry", "%v", x)
			}
			r.read("b", r.ini[1], "0/0", 0, 0)
		})
	fails := func(n int) func(r *run) {
		return func(r *run) {
			i := r.ini[n]
			bad := []struct {
				cdb []byte
				asc uint16
			}{{h.Reads[1].CDB(0, 5, 1), 0x2100}, {[]byte{0xff, 0, 0, 0, 0, 0}, 0x2000}}
			for k := range bad {
				b := bad[(k+n)%2]
				x := i.Exec(0, b.cdb, blk, true, nil)
				if x.Status != 2 || len(x.Sense) < 14 || x.Sense[2]&15 != 5 || uint16(x.Sense[12])<<8|uint16(x.Sense[13]) != b.asc {
					r.k.Fail("sense", "session %d, %x: %v, want sense 5/%04x", n, b.cdb, x, b.asc)
				}
			}
		}
	}
	add("failures", one, []int{0, 0}, fails(0), fails(1))
	add("three-sessions", one, []int{0, 0, 0},
		func(r *run) { r.write("a", r.ini[0], "0/0", 0, 0, 0xa6) },
		func(r *run) { r.or("b", r.ini[1], "0/0", 0, 0, 0x44) },
		func(r *run) { r.read("c", r.ini[2], "0/0", 0, 0) })
	stats := one
	stats.Stats = true
	add("stats", stats, []int{0, 0},
		func(r *run) { r.write("a", r.ini[0], "0/0", 0, 0, 0xa7); r.read("a", r.ini[0], "0/0", 0, 1) },
		func(r *run) { r.read("b", r.ini[1], "0/0", 0, 0); r.write("b", r.ini[1], "0/0", 0, 1, 0xb7) },
		func(r *run) {
			for n := 0; n < 2; n++ {
				s := r.w.Drv.Stats()
				if s.ReadIOPS < 0 || s.ReadIOPS > 2 || s.WriteIOPS > 2 || s.TotalReadBlockCount != s.ReadIOPS*blk || s.TotalWriteBlockCount != s.WriteIOPS*blk ||
					s.SCSIIOCount[0x28] != s.ReadIOPS || s.SCSIIOCount[0x2a] != s.WriteIOPS {
					r.k.Fail("stats-snapshot", "a snapshot that no moment had: %+v", s)
				}
			}
		})
	l[len(l)-1].verify = func(r *run) {
		s := r.w.Drv.Stats()
		if s.ReadIOPS != 2 || s.WriteIOPS != 2 || s.TotalReadBlockCount != 2*blk || s.TotalWriteBlockCount != 2*blk || s.SCSIIOCount[0x28] != 2 || s.SCSIIOCount[0x2a] != 2 {
			r.k.Fail("stats", "after 2 reads and 2 writes of %d bytes: %+v", blk, s)
		}
		settled(r)
	}
	return
}
