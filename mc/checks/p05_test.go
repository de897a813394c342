package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	"verifmc/h"
)

func init() {
	reg("P05", "model_checking",
		"every value of the first two bytes of the 8-byte LUN field (and every single bit of the others) x several LUN sets x read and write; every sequence of reads and writes over two sessions, two targets and shared devices up to the depth; every sequence of adding, removing and remapping devices at run time up to the depth; oracle: SAM LUN addressing and a map from (target, LUN) to device contents; a state is (mapping, contents)",
		p05)
}

// samLUN is the unit the first two bytes of a single-level LUN name, and whether they name one at all.
func samLUN(f [8]byte) (uint64, bool) {
	for _, b := range f[2:] {
		if b != 0 {
			return 0, false
		}
	}
	switch f[0] >> 6 {
	case 0:
		return uint64(f[1]), f[0] == 0
	case 1:
		return uint64(f[0]&0x3f)<<8 | uint64(f[1]), true
	}
	return 0, false
}

// execF is Exec with a raw LUN field.
func execF(i *h.Ini, f [8]byte, cdb []byte, edtl int, rd bool, out []byte) *h.Result {
	p := i.CmdPDU(0, cdb, edtl, rd && out == nil, out != nil)
	copy(p.B[8:16], f[:])
	p.Data = out
	return i.Finish(p, 0, edtl, out)
}

var lunSets = [][]uint64{{0}, {5}, {0, 1, 255, 256, 300, 16383}, {1, 64, 256, 16128}, {0, 257, 512}}

// many has more targets than a byte counts: a session of each reaches its own unit.
func many(c *Ctx, si int) {
	n := []int{9, 0, 17, 260}[si&3]
	if n == 0 {
		return
	}
	c.Case(fmt.Sprintf("targets/%d", n), func(k *Case) {
		var cfg h.Cfg
		for t := 0; t < n; t++ {
			cfg.Targets = append(cfg.Targets, h.Target{LUNs: []h.LUN{{LUN: uint64(t % 3), Blocks: 2, Online: true}}})
		}
		w := h.NewWorld(cfg)
		defer w.End()
		for round := 0; round < 2; round++ {
			for t := 0; t < n; t++ {
				i := w.Session(t, t)
				if i == nil {
					k.Fail("no-session", "cannot log in to target %d of %d", t, n)
					return
				}
				for l := uint64(0); l < 3; l++ {
					r := i.Exec(l, h.C10(0x28, 0, 0, 1), 512, true, nil)
					k.Op(1)
					want := make([]byte, 512)
					if round > 0 {
						binary.BigEndian.PutUint64(want, uint64(t)+1)
					}
					if l == uint64(t%3) && (!r.Good() || !bytes.Equal(r.Data, want)) || l != uint64(t%3) && (!r.Got || r.Status != 2) {
						k.Fail("targets", "target %d of %d, unit %d: %v", t, n, l, r)
						return
					}
				}
				if round == 0 {
					b := make([]byte, 512)
					binary.BigEndian.PutUint64(b, uint64(t)+1)
					if r := i.Exec(uint64(t%3), h.C10(0x2a, 0, 0, 1), 512, false, b); !r.Good() {
						k.Fail("targets", "target %d of %d: write: %v", t, n, r)
						return
					}
					k.Op(1)
				}
				i.Close()
			}
		}
		k.crashes(w, "crash")
		k.State(fmt.Sprint("targets", n))
	})
}

func p05(c *Ctx) {
	for si, set := range lunSets {
		if !c.Thorough() && (si == 1 || si == 4) {
			continue
		}
		world := func(k *Case) (*h.World, *h.Ini) {
			var l []h.LUN
			for _, n := range set {
				l = append(l, h.LUN{LUN: n, Blocks: 2, Online: true})
			}
			w := h.NewWorld(h.Simple(l...))
			for _, n := range set {
				b := h.Fill(1024, 0x55)
				binary.BigEndian.PutUint64(b, n^0xabcdef)
				w.SetMedium(0, n, b)
			}
			i := w.Session(0, 0)
			if i == nil {
				k.Fail("no-session", "cannot log in")
			}
			return w, i
		}
		mapped := func(n uint64) bool {
			for _, x := range set {
				if x == n {
					return true
				}
			}
			return false
		}
		probe := func(k *Case, w *h.World, i *h.Ini, f [8]byte) bool {
			n, ok := samLUN(f)
			r := execF(i, f, h.C10(0x28, 0, 0, 1), 512, true, nil)
			k.Op(1)
			if k.crashes(w, "crash") {
				return false
			}
			if ok && mapped(n) {
				if !r.Good() || len(r.Data) != 512 || binary.BigEndian.Uint64(r.Data) != n^0xabcdef {
					k.Fail("route", "a READ sent to LUN field %x (logical unit %d of %v): %v", f, n, set, r)
					return false
				}
				return true
			}
			if !r.Got || r.Status != 2 || len(r.Data) != 0 {
				k.Fail("unmapped", "a READ sent to LUN field %x, which names no unit of %v: %v", f, set, r)
				return false
			}
			if !ok || n != 0 {
				if r := execF(i, f, h.Inquiry(false, 0, 96), 96, true, nil); !r.Got || r.Status != 2 || len(r.Data) != 0 {
					k.Fail("unmapped", "an INQUIRY sent to LUN field %x, which names no unit of %v: %v", f, set, r)
					return false
				}
				k.Op(1)
			}
			return true
		}
		many(c, si)
		for hi := 0; hi < 256; hi++ {
			c.Case(fmt.Sprintf("field/%d/%02x", si, hi), func(k *Case) {
				w, i := world(k)
				defer w.End()
				if i == nil {
					return
				}
				for lo := 0; lo < 256; lo++ {
					if !probe(k, w, i, [8]byte{byte(hi), byte(lo)}) {
						return
					}
				}
				k.State(fmt.Sprint("field", si, hi))
			})
		}
		// other levels of the LUN field
		for _, n := range set {
			c.Case(fmt.Sprintf("deep/%d/%d", si, n), func(k *Case) {
				w, i := world(k)
				defer w.End()
				if i == nil {
					return
				}
				for bit := 16; bit < 64; bit++ {
					var p h.PDU
					p.SetLUN(n)
					var f [8]byte
					copy(f[:], p.B[8:16])
					f[bit/8] |= 0x80 >> (bit % 8)
					if !probe(k, w, i, f) {
						return
					}
				}
				k.State(fmt.Sprint("deep", si, n))
			})
		}
		// a write reaches its unit and no other, by either addressing method
		for _, n := range set {
			for m := 0; m < 2; m++ {
				var f [8]byte
				if m == 1 || n > 255 {
					f[0] = 0x40 | byte(n>>8)
				}
				f[1] = byte(n)
				c.Case(fmt.Sprintf("write/%d/%d/%d", si, n, m), func(k *Case) {
					w, i := world(k)
					defer w.End()
					if i == nil {
						return
					}
					before := map[uint64][]byte{}
					for _, x := range set {
						before[x] = w.Medium(0, x)
					}
					d := h.Fill(512, 0x99)
					r := execF(i, f, h.C10(0x2a, 0, 1, 1), 512, false, d)
					k.Op(1)
					if !r.Good() {
						k.Fail("route", "a WRITE sent to LUN field %x of %v: %v", f, set, r)
						return
					}
					copy(before[n][512:], d)
					for _, x := range set {
						if !bytes.Equal(w.Medium(0, x), before[x]) {
							k.Fail("write-route", "after a WRITE to unit %d by LUN field %x, unit %d holds %s, want %s", n, f, x, blocks(w.Medium(0, x), 9), blocks(before[x], 9))
						}
					}
					k.State(fmt.Sprint("write", si, n, m))
				})
			}
		}
	}
	p05targets(c)
	p05runtime(c)
}

// p05targets: two targets with the same LUN numbers, one device shared between them.
func p05targets(c *Ctx) {
	type unit struct {
		ti  int
		lun uint64
		dev int
	}
	units := []unit{{0, 0, 0}, {0, 1, 1}, {1, 0, 2}, {1, 1, 0}, {1, 3, 3}}
	depth := Pick(c, 3, 4)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			c.Case("targets/"+strings.ReplaceAll(fmt.Sprint(seq), " ", "."), func(k *Case) {
				w := h.NewWorld(h.Cfg{Targets: []h.Target{
					{LUNs: []h.LUN{{LUN: 0, Blocks: 2, Dev: 901}, {LUN: 1, Blocks: 2, Dev: 902}}},
					{LUNs: []h.LUN{{LUN: 0, Blocks: 2, Dev: 903}, {LUN: 1, Blocks: 2, Dev: 901}, {LUN: 3, Blocks: 2, Dev: 904}}}}})
				defer w.End()
				s := []*h.Ini{w.Session(0, 0), w.Session(1, 1)}
				if s[0] == nil || s[1] == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				model := make([][]byte, 4)
				for d := range model {
					model[d] = make([]byte, 1024)
				}
				for n, u := range seq {
					x := units[u]
					d := h.Fill(512, byte(16*n+u+1))
					lba := n % 2
					r := s[x.ti].Exec(x.lun, h.C10(0x2a, 0, uint32(lba), 1), 512, false, d)
					k.Op(1)
					if !r.Good() {
						k.Fail("refused", "WRITE to target %d unit %d: %v", x.ti, x.lun, r)
						return
					}
					copy(model[x.dev][lba*512:], d)
					for _, y := range units {
						r := s[y.ti].Exec(y.lun, h.C10(0x28, 0, 0, 2), 1024, true, nil)
						k.Op(1)
						if !r.Good() || !bytes.Equal(r.Data, model[y.dev]) {
							k.Fail("mixed-up", "after the write to target %d unit %d, target %d unit %d: %v, want %s", x.ti, x.lun, y.ti, y.lun, r, blocks(model[y.dev], 9))
							return
						}
					}
				}
				k.State(fmt.Sprint(hash(string(bytes.Join(model, nil)))))
				k.crashes(w, "crash")
			})
			return
		}
		for u := range units {
			rec(append(append([]int{}, seq...), u))
		}
	}
	rec(nil)
}

// p05runtime: devices and mappings come and go while sessions are open.
func p05runtime(c *Ctx) {
	type op struct {
		add bool
		ti  int
		lun uint64
		dev int
	}
	var ops []op
	for ti := 0; ti < 2; ti++ {
		for _, l := range []uint64{0, 1, 300} {
			for dev := 0; dev < 2; dev++ {
				ops = append(ops, op{true, ti, l, dev})
			}
			ops = append(ops, op{false, ti, l, 0})
		}
		ops = append(ops, op{true, ti, 1, -1}) // a device that does not exist
		ops = append(ops, op{true, ti, 1, -2}) // another store of the library's user
	}
	depth := Pick(c, 3, 4)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 {
			c.Case("runtime/"+strings.ReplaceAll(fmt.Sprint(seq), " ", "."), func(k *Case) {
				w := h.NewWorld(h.Cfg{Targets: []h.Target{
					{LUNs: []h.LUN{{LUN: 7, Blocks: 2, Dev: 911, Online: true}}},
					{LUNs: []h.LUN{{LUN: 7, Blocks: 2, Dev: 912, Online: true}}}}})
				defer w.End()
				s := []*h.Ini{w.Session(0, 0), w.Session(1, 1)}
				if s[0] == nil || s[1] == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				m := []map[uint64]int{{7: 911}, {7: 912}}
				stores := map[int]*h.Mem{911: w.Stores["0/7"], 912: w.Stores["1/7"]}
				defer func() {
					for ti := range m {
						for l := range m[ti] {
							scsi.DelLUNMapping(scsi.LUNMapping{TargetName: w.Names[ti], LUN: l})
						}
					}
					for d := range stores {
						scsi.DelBackendStorage(uint64(d))
						stores[d].Drop()
					}
					for ti := range m {
						scsi.DelBackendStorage(uint64(928 + ti))
					}
				}()
				for _, d := range []int{921, 922} {
					name := fmt.Sprint("rt", w.Names[0], d)
					stores[d] = h.NewMem(name, 1024)
					if err := scsi.AddBackendStorage(config.BackendStorage{DeviceID: uint64(d), Path: "vmem:" + name, Online: true}); err != nil {
						k.Fail("add", "AddBackendStorage: %v", err)
						return
					}
				}
				for d, st := range stores {
					copy(st.Data, fmt.Sprintf("device %d", d))
				}
				for _, x := range seq {
					o := ops[x]
					if o.dev == -2 {
						remote.Size = 1024
						id := 930 + len(stores)
						stores[id] = h.NewMem(fmt.Sprint("rx", w.Names[0], id), 1024)
						copy(stores[id].Data, fmt.Sprintf("device %d", id))
						bs := &config.BackendStorage{DeviceID: uint64(928 + o.ti), Path: "RemBs:" + w.Names[o.ti], Online: true, BlockShift: 9}
						if err := scsi.InitSCSILUMapEx(bs, w.Names[o.ti], o.lun, &h.RemoteStore{M: stores[id]}); err != nil {
							k.Fail("runtime-ex", "InitSCSILUMapEx: %v", err)
						}
						m[o.ti][o.lun] = id
					} else if o.dev < 0 {
						if err := scsi.AddLUNMapping(scsi.LUNMapping{TargetName: w.Names[o.ti], LUN: o.lun, DeviceID: 4711}); err == nil {
							k.Fail("runtime-no-device", "a mapping to a device that does not exist is accepted")
						}
					} else if o.add {
						scsi.AddLUNMapping(scsi.LUNMapping{TargetName: w.Names[o.ti], LUN: o.lun, DeviceID: uint64(921 + o.dev)})
						m[o.ti][o.lun] = 921 + o.dev
					} else {
						scsi.DelLUNMapping(scsi.LUNMapping{TargetName: w.Names[o.ti], LUN: o.lun})
						delete(m[o.ti], o.lun)
					}
					w.Svc.RereadTargetLUNMap()
				}
				k.State(fmt.Sprint(m))
				if err := w.Drv.Resize(1024); err != nil {
					k.Fail("runtime-resize", "%v", err)
				}
				for ti := 0; ti < 2; ti++ {
					for _, l := range []uint64{0, 1, 7, 300} {
						r := s[ti].Exec(l, h.C10(0x28, 0, 0, 1), 512, true, nil)
						k.Op(1)
						if dev, ok := m[ti][l]; ok {
							if !r.Good() || !bytes.HasPrefix(r.Data, []byte(fmt.Sprintf("device %d\x00", dev))) {
								k.Fail("runtime-route", "target %d unit %d is mapped to device %d: %v", ti, l, dev, r)
							}
						} else if !r.Got || r.Status != 2 || len(r.Data) > 0 {
							k.Fail("runtime-unmapped", "target %d unit %d is not mapped: %v", ti, l, r)
						}
					}
					if got, want := reportLUNs(k, s[ti], 512), lunList(m[ti]); fmt.Sprint(got) != fmt.Sprint(want) {
						k.Fail("runtime-report", "target %d: REPORT LUNS lists %v, mapped %v", ti, got, want)
					}
				}
				k.crashes(w, "crash")
			})
		}
		if len(seq) < depth {
			for u := range ops {
				rec(append(append([]int{}, seq...), u))
			}
		}
	}
	rec(nil)
}

// lunList is what REPORT LUNS has to list: the mapped units in order, and LUN 0 always.
func lunList(m map[uint64]int) (l []uint64) {
	for n := uint64(0); n < 16384; n++ {
		if _, ok := m[n]; ok || n == 0 {
			l = append(l, n)
		}
	}
	return
}

// reportLUNs asks for the inventory; nil if the answer is malformed.
func reportLUNs(k *Case, i *h.Ini, alloc uint32) (l []uint64) {
	r := i.Exec(0, h.ReportLuns(alloc), int(alloc), true, nil)
	k.Op(1)
	if !r.Good() || len(r.Data) < 8 || int(binary.BigEndian.Uint32(r.Data)) != len(r.Data)-8 || len(r.Data)%8 != 0 {
		k.Fail("report-malformed", "REPORT LUNS: %v", r)
		return nil
	}
	for b := r.Data[8:]; len(b) > 0; b = b[8:] {
		n, ok := samLUN([8]byte(b[:8]))
		if !ok {
			k.Fail("report-malformed", "REPORT LUNS lists %x", b[:8])
			return nil
		}
		l = append(l, n)
	}
	return
}

func init() {
	reg("P07", "model_checking",
		"every subset of a set of LUNs spanning both addressing methods x every allocation length up to past the full answer x SELECT REPORT values; oracle: the configured set plus LUN 0, prefix property, every listed LUN field is addressable as listed and every other is not; a state is (subset, answer)",
		p07)
}

func p07(c *Ctx) {
	all := []uint64{0, 1, 63, 255, 256, 300, 16383}
	for mask := 0; mask < 1<<len(all); mask++ {
		c.Case(fmt.Sprintf("set/%02x", mask), func(k *Case) {
			var l []h.LUN
			m := map[uint64]int{}
			for b, n := range all {
				if mask>>b&1 != 0 {
					l = append(l, h.LUN{LUN: n, Blocks: 2, Online: true})
					m[n] = 1
				}
			}
			w := h.NewWorld(h.Simple(l...))
			defer w.End()
			for n := range m {
				b := make([]byte, 1024)
				binary.BigEndian.PutUint64(b, n^0xabcdef)
				w.SetMedium(0, n, b)
			}
			i := w.Session(0, 0)
			if i == nil {
				k.Fail("no-session", "cannot log in")
				return
			}
			want := lunList(m)
			got := reportLUNs(k, i, 1024)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				k.Fail("inventory", "REPORT LUNS lists %v, the target has %v", got, want)
			}
			full := i.Exec(0, h.ReportLuns(1024), 1024, true, nil).Data
			for b := full; len(b) >= 16; b = b[8:] { // each entry, verbatim
				n, _ := samLUN([8]byte(b[8:16]))
				r := execF(i, [8]byte(b[8:16]), h.C10(0x28, 0, 0, 1), 512, true, nil)
				k.Op(1)
				if _, ok := m[n]; ok && (!r.Good() || len(r.Data) != 512 || binary.BigEndian.Uint64(r.Data) != n^0xabcdef) {
					k.Fail("not-addressable", "REPORT LUNS lists %x (unit %d); a READ sent there: %v", b[8:16], n, r)
				}
			}
			// the same answer whichever unit is asked
			for n := range m {
				r := i.Exec(n, h.ReportLuns(1024), 1024, true, nil)
				k.Op(1)
				if !r.Good() || !bytes.Equal(r.Data, full) {
					k.Fail("inventory-differs", "unit %d: REPORT LUNS %v, through LUN 0 %x", n, r, full)
				}
			}
			for a := 0; a <= len(full)+17; a++ {
				for _, e := range []int{a, a + 8, max(a-3, 0)} {
					r := i.Exec(0, h.ReportLuns(uint32(a)), e, true, nil)
					k.Op(1)
					if r.Problem != "" || !r.Got {
						k.Fail("report-protocol", "REPORT LUNS alloc %d edtl %d: %v", a, e, r)
						continue
					}
					if a < 16 && r.Status == 2 {
						if !r.Check(5, 0x2400) {
							k.Fail("report-sense", "REPORT LUNS alloc %d: %v", a, r)
						}
						continue
					}
					wl := min(a, len(full), e)
					if !r.Good() || !bytes.Equal(r.Data, full[:wl]) {
						k.Fail("report-prefix", "REPORT LUNS alloc %d edtl %d of %x: %v", a, e, full, r)
					}
				}
			}
			k.State(fmt.Sprintf("%x", full))
			k.crashes(w, "crash")
		})
	}
	// many units
	for _, n := range Pick(c, []int{32, 257}, []int{32, 256, 257, 1024}) {
		c.Case(fmt.Sprintf("many/%d", n), func(k *Case) {
			var l []h.LUN
			m := map[uint64]int{}
			for x := 0; x < n; x++ {
				l = append(l, h.LUN{LUN: uint64(x), Blocks: 1, Online: true})
				m[uint64(x)] = 1
			}
			w := h.NewWorld(h.Simple(l...))
			defer w.End()
			i := w.Session(0, 0)
			if i == nil {
				k.Fail("no-session", "cannot log in")
				return
			}
			if got, want := reportLUNs(k, i, 65536), lunList(m); fmt.Sprint(got) != fmt.Sprint(want) {
				k.Fail("inventory", "REPORT LUNS lists %d units, the target has %d", len(got), n)
			}
			k.State(fmt.Sprint(n))
		})
	}
}
