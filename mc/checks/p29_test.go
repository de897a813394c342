package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"

	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P29", "exploration",
		"every schedule with at most 2 (quick) or 3 (thorough) deviations from the default one, over all lock, connection, shared-assignment, mutable-map and backing-store operations of the target, of management operations (adding, removing and remapping units, rereading the unit maps, resizing, adding devices and targets, listing targets, statistics, closing) against each other and against commands, logins and discoveries; oracle: an order of operations explains every answer, the medium and the lists, the target has no unsynchronised access, nothing crashes or is stuck",
		func(c *Ctx) {
			for _, s := range p29scenarios() {
				c.explore(s, Pick(c, 2, 3))
			}
		}, "preemption inside straight-line code that touches no shared variable, lock, map, connection or store has no effect", "an operation on one unit (mapping, size) is the unit of atomicity")
}

// The sequential model of the mapping is a byte per LUN under key "map": the device seen there, 0 none.

func (r *run) mgmt(th, what string, f func(), apply func(m *model) bool) {
	e := r.do(th, what, func() *h.Result { f(); return nil })
	e.apply = apply
}

// readDev reads block 0 of a LUN, of which the model knows the device key.
func (r *run) readDev(th string, i *h.Ini, lun uint64) {
	e := r.do(th, fmt.Sprintf("read(lun %d)", lun), func() *h.Result {
		return i.Exec(lun, h.C10(0x28, 0, 0, 1), blk, true, nil)
	})
	e.apply = func(m *model) bool {
		key := string(m.b["map"+fmt.Sprint(lun)])
		if key == "" {
			return e.res.Got && e.res.Status == 2 && len(e.res.Data) == 0
		}
		return e.res.Good() && bytes.Equal(e.res.Data, m.b[key][:blk])
	}
	r.answered(e)
}

func (r *run) writeDev(th string, i *h.Ini, lun uint64, tag byte) {
	e := r.do(th, fmt.Sprintf("write(lun %d,%02x)", lun, tag), func() *h.Result {
		return i.Exec(lun, h.C10(0x2a, 0, 0, 1), blk, false, fillBlock(tag))
	})
	e.apply = func(m *model) bool {
		key := string(m.b["map"+fmt.Sprint(lun)])
		if key == "" {
			return e.res.Got && e.res.Status == 2
		}
		copy(m.b[key], fillBlock(tag))
		return e.res.Good()
	}
	r.answered(e)
}

func (r *run) answered(e *event) {
	if e.res.Problem != "" || !e.res.Got {
		r.k.Fail("answer", "%s: %s: %v closed=%v", e.th, e.what, e.res, e.res.Closed)
	}
}

// luns asks for the list of units.
func (r *run) luns(th string, i *h.Ini, all ...uint64) {
	e := r.do(th, "REPORT LUNS", func() *h.Result { return i.Exec(0, h.ReportLuns(256), 256, true, nil) })
	e.apply = func(m *model) bool {
		var want []byte
		for _, l := range all {
			if l == 0 || len(m.b["map"+fmt.Sprint(l)]) != 0 {
				want = append(want, byte(l))
			}
		}
		if !e.res.Good() || len(e.res.Data) != 8+8*len(want) || int(binary.BigEndian.Uint32(e.res.Data)) != 8*len(want) {
			return false
		}
		var got []byte
		for o := 8; o < len(e.res.Data); o += 8 {
			got = append(got, e.res.Data[o+1])
		}
		return bytes.Equal(got, want)
	}
	r.answered(e)
}

// capacityDev asks for the capacity of LUN 0 in blocks; the model has it under "size".
func (r *run) capacityDev(th string, i *h.Ini) {
	e := r.do(th, "READ CAPACITY", func() *h.Result { return i.Exec(0, h.ReadCap10(), 8, true, nil) })
	e.apply = func(m *model) bool {
		return e.res.Good() && len(e.res.Data) == 8 && binary.BigEndian.Uint32(e.res.Data) == uint32(m.b["size"][0])-1
	}
	r.answered(e)
}

func (r *run) readAt(th string, i *h.Ini, lba uint64) {
	e := r.do(th, fmt.Sprintf("read(block %d)", lba), func() *h.Result {
		return i.Exec(0, h.C10(0x28, 0, uint32(lba), 1), blk, true, nil)
	})
	e.apply = func(m *model) bool {
		if lba >= uint64(m.b["size"][0]) {
			return e.res.Got && e.res.Status == 2 && len(e.res.Data) == 0
		}
		return e.res.Good() && bytes.Equal(e.res.Data, m.b["0/0"][lba*blk:lba*blk+blk])
	}
	r.answered(e)
}

func (r *run) resize(th string, blocks int) {
	r.mgmt(th, fmt.Sprintf("resize(%d)", blocks), func() {
		if err := r.w.Drv.Resize(uint64(blocks * blk)); err != nil {
			r.k.Fail("resize", "%v", err)
		}
	}, func(m *model) bool { m.b["size"] = []byte{byte(blocks)}; return true })
}

func (r *run) dev(t int, lun uint64) uint64 {
	return r.w.Conf.ISCSITargets[r.w.Names[t]].LUNs[fmt.Sprint(lun)]
}

// add maps the device of (t1, lun1) at a LUN of target 0.
func (r *run) add(th string, lun uint64, t1 int, lun1 uint64) {
	r.mgmt(th, fmt.Sprintf("add(%d->%d/%d)", lun, t1, lun1), func() {
		if err := scsi.AddLUNMapping(scsi.LUNMapping{TargetName: r.w.Names[0], LUN: lun, DeviceID: r.dev(t1, lun1)}); err != nil {
			r.k.Fail("add", "%v", err)
		}
		r.w.Drv.RereadTargetLUNMap()
	}, func(m *model) bool { m.b["map"+fmt.Sprint(lun)] = []byte(h.LKey(t1, lun1)); return true })
}

func (r *run) del(th string, lun uint64) {
	r.mgmt(th, fmt.Sprintf("del(%d)", lun), func() {
		scsi.DelLUNMapping(scsi.LUNMapping{TargetName: r.w.Names[0], LUN: lun})
	}, func(m *model) bool { delete(m.b, "map"+fmt.Sprint(lun)); return true })
}

// newTarget configures a target that is not there yet.
func (r *run) newTarget(name string) {
	n := r.w.Names[0] + "." + name
	r.w.Names = append(r.w.Names, n)
	r.w.Conf.ISCSITargets[n] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": r.dev(1, 0)}}
	if err := scsi.AddLUNMapping(scsi.LUNMapping{TargetName: n, LUN: 0, DeviceID: r.dev(1, 0)}); err != nil {
		r.k.Fail("add", "%v", err)
	}
}

// p29verify asks for the end state and looks for an order that explains it all.
func p29verify(luns ...uint64) func(r *run) {
	return func(r *run) {
		m := r.v["start"].(*model)
		// the end state, asked for one by one
		for _, l := range luns {
			r.readDev("end", r.ini[0], l)
		}
		final := map[string][]byte{}
		var d []string
		for key, s := range r.w.Stores {
			final[key] = s.Snapshot()
			d = append(d, fmt.Sprintf("%s=%x", key, final[key][:2]))
		}
		r.k.State(r.history())
		if !r.linearize(m, func(x *model) bool {
			for key, b := range final {
				if !bytes.Equal(b, x.b[key]) {
					return false
				}
			}
			return true
		}) {
			r.k.Fail("not-linearizable", "no order of the operations explains answers and medium: %s; medium %s", r.history(), strings.Join(d, " "))
		}
		for n, i := range r.ini {
			if x := i.Exec(0, h.TUR(), 0, false, nil); !x.Good() {
				r.k.Fail("session-lost", "session %d afterwards: %v", n, x)
			}
		}
	}
}

func p29setup(targets ...int) func(r *run) {
	base := setupDisks(targets...)
	return func(r *run) {
		base(r)
		if m, ok := r.v["start"].(*model); ok {
			for l := range r.w.Conf.ISCSITargets[r.w.Names[0]].LUNs {
				m.b["map"+l] = []byte("0/" + l)
			}
			m.b["size"] = []byte{byte(len(m.b["0/0"]) / blk)}
		}
	}
}

type portals interface {
	HasPortal(string, uint16, string) bool
	AddiSCSIPortal(string, uint16, string) error
}

func p29scenarios() (l []*scenario) {
	two := h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 2}, {LUN: 1, Blocks: 2}}}, {LUNs: []h.LUN{{LUN: 0, Blocks: 2}}}}}
	big := h.Simple(h.LUN{LUN: 0, Blocks: 4})
	add := func(name string, cfg h.Cfg, setup func(r *run), verify func(r *run), ths ...func(r *run)) *scenario {
		s := &scenario{name: name, cfg: cfg, setup: setup, verify: verify}
		for n, f := range ths {
			s.threads = append(s.threads, thread{fmt.Sprintf("t%d", n), f})
		}
		l = append(l, s)
		return s
	}
	add("add", two, p29setup(0), p29verify(0, 1, 3),
		func(r *run) { r.luns("a", r.ini[0], 0, 1, 3); r.readDev("a", r.ini[0], 3) },
		func(r *run) { r.add("m", 3, 1, 0) })
	add("del", two, p29setup(0), p29verify(0, 1),
		func(r *run) { r.writeDev("a", r.ini[0], 1, 0xa1); r.luns("a", r.ini[0], 0, 1) },
		func(r *run) { r.del("m", 1) })
	add("remap", two, p29setup(0, 1), p29verify(0, 1),
		func(r *run) { r.writeDev("a", r.ini[0], 1, 0xa1); r.readDev("a", r.ini[0], 1) },
		func(r *run) { r.add("m", 1, 1, 0) },
		func(r *run) { r.write("b", r.ini[1], "1/0", 0, 0, 0xb1) })
	add("two-managers", two, p29setup(0), p29verify(0, 1, 2, 3),
		func(r *run) { r.add("m", 3, 1, 0); r.del("m", 3) },
		func(r *run) { r.add("n", 2, 1, 0); r.del("n", 1) },
		func(r *run) { r.luns("a", r.ini[0], 0, 1, 2, 3) })
	add("resize", big, p29setup(0), p29verify(),
		func(r *run) { r.capacityDev("a", r.ini[0]); r.readAt("a", r.ini[0], 3); r.capacityDev("a", r.ini[0]) },
		func(r *run) { r.resize("m", 2); r.resize("m", 3) })
	add("resize-add", two, p29setup(0), p29verify(0, 1, 3),
		func(r *run) { r.resize("m", 2) },
		func(r *run) { r.add("n", 3, 1, 0) },
		func(r *run) { r.readDev("a", r.ini[0], 3) })
	add("list", two, func(r *run) {
		p29setup(0)(r)
		r.port(1, 5)
	}, func(r *run) {
		if x := r.ini[1].Exec(0, h.TUR(), 0, false, nil); !x.Good() {
			r.k.Fail("session-lost", "%v", x)
		}
		p29verify(0, 1, 3)(r)
	},
		func(r *run) {
			ts, err := r.w.Svc.GetTargetList()
			if err != nil || len(ts) != 2 || ts[0].Name != r.w.Names[0] || ts[1].Name != r.w.Names[1] || len(ts[0].ITNexus) < 1 || len(ts[0].ITNexus) > 2 || len(ts[1].ITNexus) != 0 {
				r.k.Fail("list", "%v %v", ts, err)
			}
		},
		func(r *run) {
			if !r.ini[1].Login(0) {
				r.k.Fail("login", "answered %v", r.ini[1].All)
			}
		},
		func(r *run) { r.add("m", 3, 1, 0) })
	add("new-target", two, func(r *run) {
		p29setup(0)(r)
		r.port(1, 5)
		r.newTarget("x")
	}, func(r *run) {
		r.ini = r.ini[:1]
		r.port(3, 7)
		r.ini[3].Threaded(false)
		if !r.ini[3].LoginName(r.w.Names[0] + ".x") {
			r.k.Fail("new-target", "the new target does not take a login")
		} else if x := r.ini[3].Exec(0, h.C10(0x28, 0, 0, 1), blk, true, nil); !x.Good() || !bytes.Equal(x.Data, r.w.Stores["1/0"].Snapshot()[:blk]) {
			r.k.Fail("new-target", "the unit of the new target: %v", x)
		}
		r.ini = r.ini[:1]
		p29verify(0, 1)(r)
	},
		func(r *run) {
			if err := r.w.Drv.NewTarget(r.w.Names[0]+".x", r.w.Conf); err != nil {
				r.k.Fail("new-target", "%v", err)
			}
		},
		func(r *run) {
			if r.ini[1].LoginName(r.w.Names[0] + ".x") {
				if x := r.ini[1].Exec(0, h.TUR(), 0, false, nil); !x.Good() {
					r.k.Fail("new-target", "login accepted, then %v", x)
				}
			}
		},
		func(r *run) { r.readDev("a", r.ini[0], 0) })
	add("discover-new-target", two, func(r *run) {
		p29setup()(r)
		r.port(0, 5)
		r.newTarget("x")
	}, func(r *run) {},
		func(r *run) {
			if err := r.w.Drv.NewTarget(r.w.Names[0]+".x", r.w.Conf); err != nil {
				r.k.Fail("new-target", "%v", err)
			}
		},
		func(r *run) {
			if !r.ini[0].LoginDiscovery() {
				r.k.Fail("discovery", "login refused")
				return
			}
			got, bad := sendTargets(r.ini[0], h.KV("SendTargets", "All"), 8192)
			if bad != "" {
				r.k.Fail("discovery", "%s", bad)
				return
			}
			for _, n := range r.w.Names[:2] {
				if strings.Count(got, n+"\x00") != 1 {
					r.k.Fail("discovery", "%q lists %s not once", got, n)
				}
			}
			r.k.State(fmt.Sprint(strings.Count(got, "TargetName=")))
			n := strings.Count(got, "TargetName=")
			if a := strings.Count(got, "TargetAddress="+h.Portal+",1\x00"); a != n || n < 2 || n > 3 {
				r.k.Fail("discovery", "a target without its portal: %q", got)
			}
		})
	same := func(a, b string) func(r *run) {
		return func(r *run) {
			_, x := r.v["err0"].(error)
			_, y := r.v["err1"].(error)
			if a == b && x == y || a != b && (x || y) {
				r.k.Fail("new-target", "results %v and %v for targets %s and %s", r.v["err0"], r.v["err1"], a, b)
			}
			ids := map[int]bool{}
			names := map[string]bool{}
			ts, _ := r.w.Svc.GetTargetList()
			for _, t := range ts {
				if ids[t.TID] || names[t.Name] {
					r.k.Fail("target-id", "two targets with id %d or name %s", t.TID, t.Name)
				}
				ids[t.TID], names[t.Name] = true, true
			}
			r.k.State(fmt.Sprint(r.v["err0"], r.v["err1"]))
			p29verify(0, 1)(r)
		}
	}
	for _, n := range [][2]string{{"x", "x"}, {"x", "y"}} {
		add("two-targets-"+n[0]+n[1], two, func(r *run) { p29setup(0)(r); r.newTarget("x"); r.newTarget("y") }, same(n[0], n[1]),
			func(r *run) { r.v["err0"] = r.w.Drv.NewTarget(r.w.Names[0]+"."+n[0], r.w.Conf) },
			func(r *run) { r.v["err1"] = r.w.Drv.NewTarget(r.w.Names[0]+"."+n[1], r.w.Conf) },
			func(r *run) { r.readDev("a", r.ini[0], 1) })
	}
	add("two-devices", two, p29setup(0), func(r *run) {
		_, x := r.v["err0"].(error)
		_, y := r.v["err1"].(error)
		if x == y {
			r.k.Fail("add-device", "two devices of one id: %v and %v", r.v["err0"], r.v["err1"])
		}
		scsi.DelBackendStorage(7)
		p29verify(0, 1)(r)
	},
		func(r *run) {
			r.v["err0"] = scsi.AddBackendStorage(config.BackendStorage{DeviceID: 7, Path: "null:", Online: true})
		},
		func(r *run) {
			r.v["err1"] = scsi.AddBackendStorage(config.BackendStorage{DeviceID: 7, Path: "null:", Online: true})
		},
		func(r *run) { r.readDev("a", r.ini[0], 1) })
	add("close", two, func(r *run) {
		p29setup(0)(r)
	}, func(r *run) {
		if !r.w.Returned() {
			r.k.Fail("close", "Run goes on after Close")
		}
		if i := r.w.Dial("10.0.0.99:4000", h.Portal); i != nil {
			r.k.Fail("close", "a connection after Close")
		}
		p29verify(0, 1)(r)
	},
		func(r *run) {
			if err := r.w.Drv.Close(); err != nil {
				r.k.Fail("close", "%v", err)
			}
		},
		func(r *run) { r.writeDev("a", r.ini[0], 1, 0xa1) },
		func(r *run) {
			if i := r.w.DialThread("10.0.0.98:4000", h.Portal); i != nil {
				r.v["late"] = i
			}
		})
	add("resize-write-same", big, p29setup(0), p29verify(),
		func(r *run) {
			e := r.do("a", "WRITE SAME(block 3 to the end)", func() *h.Result {
				return r.ini[0].Exec(0, h.C10(0x41, 0, 3, 0), blk, false, fillBlock(0xa1))
			})
			e.apply = func(m *model) bool {
				if m.b["size"][0] <= 3 {
					return e.res.Got && e.res.Status == 2
				}
				copy(m.b["0/0"][3*blk:4*blk], fillBlock(0xa1))
				return e.res.Good()
			}
			r.answered(e)
		},
		func(r *run) { r.resize("m", 2) })
	add("resize-new-target", two, func(r *run) { p29setup(0)(r); r.newTarget("x") }, func(r *run) {
		if ts, err := r.w.Svc.GetTargetList(); err != nil || len(ts) != 3 {
			r.k.Fail("list", "%v %v", ts, err)
		}
		p29verify(0, 1)(r)
	},
		func(r *run) { r.resize("m", 1) },
		func(r *run) {
			if err := r.w.Drv.NewTarget(r.w.Names[0]+".x", r.w.Conf); err != nil {
				r.k.Fail("new-target", "%v", err)
			}
		},
		func(r *run) { r.readAt("a", r.ini[0], 1) })
	add("list-new-target", two, func(r *run) { p29setup(0)(r); r.newTarget("x") }, p29verify(0, 1),
		func(r *run) {
			ts, err := r.w.Svc.GetTargetList()
			if err != nil || len(ts) < 2 || len(ts) > 3 || ts[0].Name != r.w.Names[0] || ts[1].Name != r.w.Names[1] || len(ts) > 2 && ts[2].Name != r.w.Names[0]+".x" {
				r.k.Fail("list", "%v %v", ts, err)
			}
			r.k.State(fmt.Sprint(len(ts)))
		},
		func(r *run) {
			if err := r.w.Drv.NewTarget(r.w.Names[0]+".x", r.w.Conf); err != nil {
				r.k.Fail("new-target", "%v", err)
			}
		},
		func(r *run) { r.w.Drv.RereadTargetLUNMap() })
	attach := func(t int) func(r *run) {
		return func(r *run) {
			r.mgmt("m", fmt.Sprintf("attach(%d)", t), func() {
				bs := &config.BackendStorage{DeviceID: uint64(928 + t), Path: "RemBs:" + r.w.Names[t], Online: true, BlockShift: 9}
				if err := scsi.InitSCSILUMapEx(bs, r.w.Names[t], 3, r.v[fmt.Sprint("remote", t)].(*h.RemoteStore)); err != nil {
					r.k.Fail("attach", "%v", err)
				}
			}, func(m *model) bool {
				if t == 0 {
					m.b["map3"] = []byte("remote")
				}
				return true
			})
		}
	}
	add("attach-remote", two, func(r *run) {
		p29setup(0, 1)(r)
		remote.Size = 2 * blk
		for t := 0; t < 2; t++ {
			m := h.NewMem(fmt.Sprint("att", r.w.Names[0], t), 2*blk)
			copy(m.Data, fillBlock(byte(0xd0+t)))
			r.v[fmt.Sprint("remote", t)] = &h.RemoteStore{M: m}
		}
		r.v["start"].(*model).b["remote"] = append(fillBlock(0xd0), make([]byte, blk)...)
	}, func(r *run) {
		r.w.Drv.RereadTargetLUNMap()
		if x := r.ini[1].Exec(3, h.C10(0x28, 0, 0, 1), blk, true, nil); !x.Good() || !bytes.Equal(x.Data, fillBlock(0xd1)) {
			r.k.Fail("attach", "the unit of the second target: %v", x)
		}
		p29verify(0, 1, 3)(r)
		scsi.DelBackendStorage(928)
		scsi.DelBackendStorage(929)
	}, attach(0), attach(1),
		func(r *run) { r.readDev("a", r.ini[0], 3) })
	add("portals", two, func(r *run) {
		p29setup(0)(r)
		r.port(1, 5)
		r.port(2, 6)
	}, func(r *run) {
		if !r.w.Drv.(portals).HasPortal(r.w.Names[0], 1, "10.0.0.50:3260") || !r.w.Drv.(portals).HasPortal(r.w.Names[0], 1, h.Portal) || r.w.Drv.(portals).HasPortal(r.w.Names[1], 1, "10.0.0.50:3260") {
			r.k.Fail("portal", "the portals are not the ones added")
		}
		r.ini = r.ini[:1]
		p29verify(0, 1)(r)
	},
		func(r *run) {
			if err := r.w.Drv.(portals).AddiSCSIPortal(r.w.Names[0], 1, "10.0.0.50:3260"); err != nil {
				r.k.Fail("portal", "%v", err)
			}
		},
		func(r *run) {
			if !r.ini[1].LoginDiscovery() {
				r.k.Fail("discovery", "login refused")
				return
			}
			got, bad := sendTargets(r.ini[1], h.KV("SendTargets", "All"), 8192)
			if n := strings.Count(got, "TargetAddress="+h.Portal+",1\x00"); bad != "" || n != 2 {
				r.k.Fail("discovery", "%s: %q", bad, got)
			}
			r.k.State(fmt.Sprint(strings.Contains(got, "10.0.0.50:3260,1")))
		},
		func(r *run) {
			if !r.ini[2].Login(0) {
				r.k.Fail("login", "answered %v", r.ini[2].All)
			}
			r.w.Drv.(portals).HasPortal(r.w.Names[0], 1, "10.0.0.50:3260")
		})
	_ = shim.Order
	return
}
