package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/gostor/gotgt/pkg/scsi"
	"verifmc/h"
)

func init() {
	reg("P19", "model_checking",
		"every state of registrations (three initiator ports that share names and ISIDs, keys 1 and 2) and reservation (six types) reachable from none, and from each every PERSISTENT RESERVE OUT of an alphabet (all combinations of service action, right, wrong and zero keys, and types; malformed ones), session end with a new login and LOGICAL UNIT RESET; in each state every kind of medium access by every port; every allocation length of PERSISTENT RESERVE IN; every schedule with at most 2 (thorough 3) deviations of two of them at once; oracle: a model of SPC-4 5.12; a state is (registrations, reservation)",
		p19, "REGISTER AND MOVE: only that a port which does not hold the reservation cannot move it")
}

type prState struct {
	key    [3]uint64
	holder int // port+1
	typ    byte
	gen    uint32
}

func (s prState) String() string { return fmt.Sprintf("keys %v holder %d type %d", s.key, s.holder-1, s.typ) }

func allReg(t byte) bool { return t == 7 || t == 8 }

type prOp struct {
	n        int
	sa       byte // 0xf0: session end, 0xf1: LU reset
	key, sak uint64
	typ      byte
	bad      string
}

func (o prOp) String() string {
	names := map[byte]string{0: "REGISTER", 1: "RESERVE", 2: "RELEASE", 3: "CLEAR", 4: "PREEMPT", 6: "REGISTER+IGNORE", 7: "MOVE", 0xf0: "relogin", 0xf1: "LU-reset"}
	return fmt.Sprintf("%d:%s(%d,%d,t%d%s)", o.n, names[o.sa], o.key, o.sak, o.typ, o.bad)
}

const (
	prGood     = 0
	prConflict = 0x18
	prCheck    = 2
)

// apply is the model: the new state and the expected status.
func (s prState) apply(o prOp) (prState, byte) {
	holds := s.holder == o.n+1 || s.holder != 0 && allReg(s.typ) && s.key[o.n] != 0
	drop := func(n int) {
		s.key[n] = 0
		if s.holder == n+1 {
			if allReg(s.typ) {
				for m := range s.key {
					if s.key[m] != 0 {
						s.holder = m + 1
						return
					}
				}
			}
			s.holder, s.typ = 0, 0
		}
	}
	own := s.key[o.n]
	switch o.sa {
	case 0xf0, 0xf1:
		return s, prGood
	case 0, 6:
		if o.sa == 0 && o.key != own {
			return s, prConflict
		}
		if o.sak == 0 {
			drop(o.n)
		} else {
			s.key[o.n] = o.sak
		}
		s.gen++
		return s, prGood
	}
	if own == 0 || own != o.key {
		return s, prConflict
	}
	switch o.sa {
	case 1:
		if s.holder == 0 {
			s.holder, s.typ = o.n+1, o.typ
			return s, prGood
		}
		if holds && s.typ == o.typ {
			return s, prGood
		}
		return s, prConflict
	case 2:
		if !holds {
			return s, prGood
		}
		if s.typ != o.typ {
			return s, prCheck
		}
		s.holder, s.typ = 0, 0
		return s, prGood
	case 3:
		s.key, s.holder, s.typ = [3]uint64{}, 0, 0
		s.gen++
		return s, prGood
	case 4:
		take := false
		if s.holder != 0 {
			if allReg(s.typ) {
				take = o.sak == 0
			} else {
				take = o.sak == s.key[s.holder-1]
			}
		}
		if o.sak == 0 && !take {
			return s, prCheck
		}
		if take {
			for m, k := range s.key {
				if m != o.n && (o.sak == 0 || k == o.sak) {
					s.key[m] = 0
				}
			}
			s.holder, s.typ = o.n+1, o.typ
			s.gen++
			return s, prGood
		}
		found := false
		for m, k := range s.key {
			if k == o.sak {
				found = true
				drop(m)
			}
		}
		if !found {
			return s, prConflict
		}
		s.gen++
		return s, prGood
	}
	panic("op")
}

// p19world is a target with three initiator ports, of which two share a name and two an ISID.
type p19world struct {
	k   *Case
	w   *h.World
	ini []*h.Ini
	n   int
}

func (p *p19world) login(s int) *h.Ini {
	p.n++
	i := p.w.Dial(fmt.Sprintf("10.0.0.%d:%d", s+1, 40000+p.n), h.Portal)
	if i == nil {
		return nil
	}
	i.ISID = 0x80_0000_000002 + uint64(s/2)
	i.Name = "iqn.2020-01.verif:ini" + []string{"0", "1", "0"}[s]
	if !i.Login(0) {
		return nil
	}
	return i
}

func p19new(k *Case) *p19world {
	p := &p19world{k: k, w: h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 2, Thin: true}, h.LUN{LUN: 1, Blocks: 2}))}
	for s := 0; s < 3; s++ {
		p.ini = append(p.ini, p.login(s))
	}
	// another unit with a reservation of its own, that nothing here concerns
	for _, o := range []prOp{{n: 0, sa: 0, sak: 99}, {n: 0, sa: 1, key: 99, typ: 3}} {
		if r := p.out(1, o); !r.Good() {
			k.Fail("setup", "LUN 1: %v: %v", o, r)
		}
	}
	return p
}

func prOutPDU(o prOp) (cdb, data []byte) {
	cdb, data = make([]byte, 10), make([]byte, 24)
	cdb[0], cdb[1], cdb[2], cdb[8] = 0x5f, o.sa, o.typ, 24
	binary.BigEndian.PutUint64(data, o.key)
	binary.BigEndian.PutUint64(data[8:], o.sak)
	switch o.bad {
	case "scope":
		cdb[2] |= 0x10
	case "scope15":
		cdb[2] |= 0xf0
	case "len23":
		cdb[8] = 23
		data = data[:23]
	case "len0":
		cdb[8] = 0
		data = nil
	case "len25":
		cdb[8] = 25
		data = append(data, 0)
	case "short":
		data = data[:16]
	case "spec_i_pt":
		data[20] = 8
	case "all_tg_pt":
		data[20] = 4
	case "aptpl":
		data[20] = 1
	case "move":
		data = append(data, make([]byte, 24)...)
		cdb[8] = 48
		data[23] = 24
		data[24] = 5
	}
	return
}

func (p *p19world) out(lun uint64, o prOp) *h.Result {
	cdb, data := prOutPDU(o)
	p.k.Op(1)
	return p.ini[o.n].Exec(lun, cdb, len(data), false, data)
}

func (p *p19world) in(n int, lun uint64, sa byte, alloc int) *h.Result {
	p.k.Op(1)
	return p.ini[n].Exec(lun, []byte{0x5e, sa, 0, 0, 0, 0, 0, byte(alloc >> 8), byte(alloc), 0}, alloc, true, nil)
}

// step performs an operation and compares the answer.
func (p *p19world) step(s prState, o prOp) (prState, bool) {
	t, want := s.apply(o)
	switch o.sa {
	case 0xf0:
		p.ini[o.n].Close()
		if p.ini[o.n] = p.login(o.n); p.ini[o.n] == nil {
			p.k.Fail("login", "%v: no login", o)
			return t, false
		}
		return t, true
	case 0xf1:
		if ps := p.ini[o.n].Do(p18lu(p.ini[o.n], 0)); len(ps) != 1 || ps[0].B[2] != 0 {
			p.k.Fail("reset", "%v", ps)
		}
		return t, true
	}
	r := p.out(0, o)
	if !r.Got || r.Status != want || r.Response != 0 || r.Problem != "" || len(r.Data) > 0 || want == prCheck && r.Key() != 5 {
		p.k.Fail("answer", "%v in state %v: %v, want status %02x", o, s, r, want)
		return t, false
	}
	return t, true
}

// look compares what can be seen with the state.
func (p *p19world) look(s prState, full bool) bool {
	n := int(s.gen) % 3
	r := p.in(n, 0, 0, 256)
	var keys, want []uint64
	for _, k := range s.key {
		if k != 0 {
			want = append(want, k)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if !r.Good() || len(r.Data) < 8 || len(r.Data) != 8+8*len(want) || int(binary.BigEndian.Uint32(r.Data[4:])) != 8*len(want) {
		p.k.Fail("read-keys", "state %v: READ KEYS %v", s, r)
		return false
	}
	for b := r.Data[8:]; len(b) > 0; b = b[8:] {
		keys = append(keys, binary.BigEndian.Uint64(b))
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if fmt.Sprint(keys) != fmt.Sprint(want) || binary.BigEndian.Uint32(r.Data) != s.gen {
		p.k.Fail("read-keys", "state %v generation %d: READ KEYS returns keys %v generation %d", s, s.gen, keys, binary.BigEndian.Uint32(r.Data))
		return false
	}
	r = p.in(n, 0, 1, 256)
	desc := []byte{}
	if s.holder != 0 {
		desc = make([]byte, 16)
		if !allReg(s.typ) {
			binary.BigEndian.PutUint64(desc, s.key[s.holder-1])
		}
		desc[13] = s.typ
	}
	if !r.Good() || len(r.Data) != 8+len(desc) || binary.BigEndian.Uint32(r.Data) != s.gen || int(binary.BigEndian.Uint32(r.Data[4:])) != len(desc) || !bytes.Equal(r.Data[8:], desc) {
		p.k.Fail("read-reservation", "state %v generation %d: READ RESERVATION %v", s, s.gen, r)
		return false
	}
	acc := p18accesses(0x33)
	if !full {
		acc = []p18access{acc[1], acc[5]} // READ(10), WRITE(10)
	}
	for n := range p.ini {
		for _, a := range acc {
			excluded := false
			if s.holder != 0 && s.holder != n+1 {
				reader := a.rd > 0 || strings.HasPrefix(a.name, "VERIFY")
				switch s.typ {
				case 1:
					excluded = !reader
				case 3:
					excluded = true
				case 5, 7:
					excluded = !reader && s.key[n] == 0
				case 6, 8:
					excluded = s.key[n] == 0
				}
			}
			before := string(p.w.Medium(0, 0))
			performed, ok := a.run(p.k, p.ini[n], 0)
			if !ok {
				return false
			}
			if performed == excluded {
				p.k.Fail("exclusion", "state %v: %s by port %d performed: %v", s, a.name, n, performed)
				return false
			}
			if !performed && string(p.w.Medium(0, 0)) != before {
				p.k.Fail("exclusion", "state %v: %s by port %d changes the medium and reports a conflict", s, a.name, n)
			}
		}
		if !full {
			continue
		}
		for _, cdb := range [][]byte{h.Inquiry(false, 0, 96), h.ReportLuns(64), {3, 0, 0, 0, 18, 0}, h.ReadCap10(), h.TUR()} {
			if r := p.ini[n].Exec(0, cdb, 96, cdb[0] != 0, nil); !r.Good() {
				p.k.Fail("always-allowed", "state %v: command %x by port %d: %v", s, cdb[0], n, r)
			}
			p.k.Op(1)
		}
		if any := s.key != [3]uint64{}; any {
			if r := p.ini[n].Exec(0, reserve6, 0, false, nil); !r.Got || r.Status != prConflict {
				p.k.Fail("reserve6", "state %v: RESERVE(6) by port %d: %v", s, n, r)
			}
		}
	}
	return true
}

// other unit: as it was set up
func (p *p19world) rest() {
	r := p.in(1, 1, 1, 256)
	if !r.Good() || len(r.Data) != 24 || r.Data[15] != 99 || r.Data[21] != 3 {
		p.k.Fail("other-unit", "the reservation of LUN 1 has become %v", r)
	}
	if r := p.ini[0].Exec(1, h.C10(0x28, 0, 0, 1), blk, true, nil); !r.Good() {
		p.k.Fail("other-unit", "its holder reads LUN 1: %v", r)
	}
	if r := p.ini[2].Exec(1, h.C10(0x28, 0, 0, 1), blk, true, nil); r.Status != prConflict {
		p.k.Fail("other-unit", "another reads LUN 1: %v", r)
	}
	p.k.crashes(p.w, "crash")
}

var prTypes = []byte{1, 3, 5, 6, 7, 8}

func p19ops() (l []prOp) {
	for n := 0; n < 3; n++ {
		for sak := uint64(0); sak < 3; sak++ {
			for key := uint64(0); key < 3; key++ {
				l = append(l, prOp{n: n, sa: 0, key: key, sak: sak})
			}
			l = append(l, prOp{n: n, sa: 6, key: 7, sak: sak})
		}
		for key := uint64(0); key < 3; key++ {
			for _, t := range prTypes {
				l = append(l, prOp{n: n, sa: 1, key: key, typ: t}, prOp{n: n, sa: 2, key: key, typ: t})
				for sak := uint64(0); sak < 3; sak++ {
					if key > 0 || sak == 1 {
						l = append(l, prOp{n: n, sa: 4, key: key, sak: sak, typ: t})
					}
				}
			}
			l = append(l, prOp{n: n, sa: 3, key: key})
		}
		l = append(l, prOp{n: n, sa: 0xf0}, prOp{n: n, sa: 0xf1})
	}
	return
}

func p19(c *Ctx) {
	ops := p19ops()
	type node struct {
		s    prState
		path []prOp
	}
	// all states of the model, each with the shortest path to it (two different ones in the thorough tier)
	graph := func(rev bool) (nodes []node) {
		canon := func(s prState) prState {
			s.gen = 0
			if allReg(s.typ) {
				s.holder = 1 // whoever it is
			}
			return s
		}
		seen := map[prState]bool{{}: true}
		nodes = []node{{}}
		for x := 0; x < len(nodes); x++ {
			for y := range ops {
				o := ops[y]
				if rev {
					o = ops[len(ops)-1-y]
				}
				t, st := nodes[x].s.apply(o)
				if st != prGood || seen[canon(t)] {
					continue
				}
				seen[canon(t)] = true
				nodes = append(nodes, node{t, append(append([]prOp{}, nodes[x].path...), o)})
			}
		}
		return
	}
	for _, rev := range []bool{false, true} {
		if rev && !c.Thorough() {
			break
		}
		nodes := graph(rev)
		c.Extra("states of the model", len(nodes))
		for x, nd := range nodes {
			reach := func(p *p19world) (s prState, ok bool) {
				for _, o := range nd.path {
					if s, ok = p.step(s, o); !ok {
						return s, false
					}
				}
				return s, true
			}
			c.Case(fmt.Sprintf("state/%v/%d", rev, x), func(k *Case) {
				p := p19new(k)
				defer p.w.End()
				s, ok := reach(p)
				if len(nd.path) == 0 || ok {
					k.State(s.String())
					if p.look(s, true) {
						p.rest()
					}
				}
			})
			// the device mapped at one more LUN is still the same unit
			c.Case(fmt.Sprintf("mapping/%v/%d", rev, x), func(k *Case) {
				p := p19new(k)
				defer p.w.End()
				s, ok := reach(p)
				if !ok && len(nd.path) > 0 {
					return
				}
				lu := scsi.GetLU(p.w.Names[0], 0)
				m := scsi.LUNMapping{TargetName: p.w.Names[0], LUN: 9, DeviceID: lu.UUID}
				if err := scsi.AddLUNMapping(m); err != nil {
					k.Fail("mapping", "AddLUNMapping: %v", err)
				}
				p.w.Svc.RereadTargetLUNMap()
				a, b := p.in(0, 0, 0, 256), p.in(1, 9, 0, 256)
				if !a.Good() || !b.Good() || !bytes.Equal(a.Data, b.Data) {
					k.Fail("mapping", "state %v: the keys of the unit are %v at LUN 0 and %v at LUN 9", s, a, b)
				}
				ok = p.look(s, false)
				scsi.DelLUNMapping(m)
				p.w.Svc.RereadTargetLUNMap()
				if ok && p.look(s, false) {
					p.rest()
				}
			})
			for _, o := range ops {
				c.Case(fmt.Sprintf("op/%v/%d/%v", rev, x, o), func(k *Case) {
					p := p19new(k)
					defer p.w.End()
					s, ok := reach(p)
					if !ok && len(nd.path) > 0 {
						return
					}
					if s, ok = p.step(s, o); ok && p.look(s, false) {
						k.State(s.String())
						p.rest()
					}
				})
			}
			// what is malformed changes nothing
			c.Case(fmt.Sprintf("bad/%v/%d", rev, x), func(k *Case) {
				p := p19new(k)
				defer p.w.End()
				s, ok := reach(p)
				if !ok && len(nd.path) > 0 {
					return
				}
				for n := 0; n < 3; n++ {
					own := s.key[n]
					var bad []prOp
					for _, b := range []string{"len23", "len0", "len25", "short", "spec_i_pt", "all_tg_pt", "aptpl"} {
						for _, sa := range []byte{0, 1, 2, 3, 4, 6} {
							bad = append(bad, prOp{n: n, sa: sa, key: own, sak: 2, typ: 5, bad: b})
						}
					}
					for _, b := range []string{"scope", "scope15"} {
						bad = append(bad, prOp{n: n, sa: 1, key: own, typ: 5, bad: b})
					}
					for _, t := range []byte{0, 2, 4, 9, 15} {
						bad = append(bad, prOp{n: n, sa: 1, key: own, typ: t})
						if s.holder != 0 && !allReg(s.typ) {
							bad = append(bad, prOp{n: n, sa: 4, key: own, sak: s.key[s.holder-1], typ: t})
						}
					}
					for _, sa := range []byte{8, 15, 31} {
						bad = append(bad, prOp{n: n, sa: sa, key: own, sak: 1, typ: 5})
					}
					if !(s.holder == n+1 && !allReg(s.typ)) {
						for sak := uint64(0); sak < 3; sak++ {
							bad = append(bad, prOp{n: n, sa: 7, key: own, sak: sak, bad: "move"})
						}
					}
					for _, o := range bad {
						r := p.out(0, o)
						if !r.Got || r.Status != prCheck && r.Status != prConflict || r.Status == prCheck && r.Key() != 5 {
							k.Fail("malformed", "%v in state %v: %v", o, s, r)
							return
						}
						if r.Status == prConflict && own != 0 && o.sa != 7 {
							k.Fail("malformed", "%v in state %v: %v", o, s, r)
							return
						}
					}
					if !p.look(s, false) {
						return
					}
				}
				// PERSISTENT RESERVE IN, as much as asked for
				for sa := byte(0); sa < 3; sa++ {
					whole := p.in(0, 0, sa, 256).Data
					for _, al := range []int{0, 1, 4, 7, 8, 9, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33} {
						r := p.in(0, 0, sa, al)
						if !r.Good() || !bytes.Equal(r.Data, whole[:min(al, len(whole))]) {
							k.Fail("allocation", "state %v: PERSISTENT RESERVE IN %d with allocation length %d: %v", s, sa, al, r)
						}
					}
					if sa == 2 && (len(whole) != 8 || whole[1] != 8 || whole[2]&^0x10 != 0 || whole[3] != 0x80 || whole[4] != 0xea || whole[5] != 1) {
						k.Fail("capabilities", "REPORT CAPABILITIES %x", whole)
					}
				}
				for sa := byte(4); sa < 32; sa++ {
					if r := p.in(0, 0, sa, 64); !r.Got || r.Status != prCheck || r.Key() != 5 {
						k.Fail("malformed", "PERSISTENT RESERVE IN %d: %v", sa, r)
					}
				}
				p.rest()
			})
		}
	}
	// the generation counts every change, however many
	c.Case("generation", func(k *Case) {
		p := p19new(k)
		defer p.w.End()
		var s prState
		for n := 0; n < 66000; n++ {
			o := prOp{n: n % 3, sa: 6, sak: uint64(n%2 + 1)}
			var ok bool
			if s, ok = p.step(s, o); !ok {
				return
			}
			if (n < 3000 || n > 65000) && n%16 == 0 && !p.look(s, false) {
				return
			}
		}
		p.rest()
	})
	for _, s := range p19scenarios() {
		c.explore(s, Pick(c, 2, 3))
	}
}

func p19scenarios() (l []*scenario) {
	start := []prOp{{n: 0, sa: 0, sak: 1}, {n: 1, sa: 0, sak: 2}}
	add := func(pre []prOp, a, b prOp) {
		s := &scenario{name: fmt.Sprintf("%d %v %v", len(pre), a, b), cfg: h.Simple(h.LUN{LUN: 0, Blocks: 2}, h.LUN{LUN: 1, Blocks: 2})}
		var st prState
		all := append(append([]prOp{}, start...), pre...)
		for _, o := range all {
			st, _ = st.apply(o)
		}
		s.setup = func(r *run) {
			p := &p19world{k: r.k, w: r.w}
			for n := 0; n < 3; n++ {
				i := p.login(n)
				p.ini = append(p.ini, i)
				r.ini = append(r.ini, i)
			}
			var x prState
			for _, o := range all {
				x, _ = p.step(x, o)
			}
			r.v["p"] = p
			for _, i := range p.ini {
				i.Threaded(true)
			}
		}
		for t, o := range []prOp{a, b} {
			s.threads = append(s.threads, thread{fmt.Sprint("t", t), func(r *run) {
				p := r.v["p"].(*p19world)
				cdb, data := prOutPDU(o)
				e := r.do(fmt.Sprint("t", t), o.String(), func() *h.Result { return p.ini[o.n].Exec(0, cdb, len(data), false, data) })
				r.v[fmt.Sprint("st", t)] = e.res.Status
				if !e.res.Got {
					r.k.Fail("answer", "%v: %v", o, e.res)
				}
			}})
		}
		s.verify = func(r *run) {
			p := r.v["p"].(*p19world)
			s0, ok0 := r.v["st0"].(byte)
			s1, ok1 := r.v["st1"].(byte)
			if !ok0 || !ok1 {
				return
			}
			x, w0 := st.apply(a)
			x, w1 := x.apply(b)
			y, v1 := st.apply(b)
			y, v0 := y.apply(a)
			r.k.State(fmt.Sprint(s0, s1))
			d, kd := p.in(2, 0, 1, 64).Data, p.in(2, 0, 0, 64).Data
			fits := func(s prState) bool {
				var want, got []uint64
				for _, k := range s.key {
					if k != 0 {
						want = append(want, k)
					}
				}
				for o := 8; o+8 <= len(kd); o += 8 {
					got = append(got, binary.BigEndian.Uint64(kd[o:]))
				}
				sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
				sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
				if fmt.Sprint(want) != fmt.Sprint(got) {
					return false
				}
				if len(d) < 8 || (len(d) == 24) != (s.holder != 0) || binary.BigEndian.Uint32(d) != s.gen {
					return false
				}
				return s.holder == 0 || d[21] == s.typ && (allReg(s.typ) || binary.BigEndian.Uint64(d[8:]) == s.key[s.holder-1])
			}
			switch {
			case s0 == w0 && s1 == w1 && fits(x):
				p.look(x, false)
			case s0 == v0 && s1 == v1 && fits(y):
				p.look(y, false)
			default:
				r.k.Fail("not-linearizable", "%v %02x and %v %02x at once: no order explains READ RESERVATION %x and READ KEYS %x", a, s0, b, s1, d, kd)
			}
		}
		l = append(l, s)
	}
	hold := func(t byte) []prOp { return []prOp{{n: 0, sa: 1, key: 1, typ: t}} }
	add(nil, prOp{n: 0, sa: 1, key: 1, typ: 1}, prOp{n: 1, sa: 1, key: 2, typ: 3})
	add(hold(5), prOp{n: 0, sa: 4, key: 1, sak: 2, typ: 5}, prOp{n: 1, sa: 4, key: 2, sak: 1, typ: 5})
	add(hold(7), prOp{n: 0, sa: 4, key: 1, sak: 0, typ: 7}, prOp{n: 1, sa: 4, key: 2, sak: 0, typ: 7})
	add(hold(7), prOp{n: 0, sa: 0, key: 1, sak: 0}, prOp{n: 1, sa: 0, key: 2, sak: 0})
	add(hold(3), prOp{n: 0, sa: 2, key: 1, typ: 3}, prOp{n: 1, sa: 1, key: 2, typ: 3})
	add(hold(1), prOp{n: 0, sa: 3, key: 1}, prOp{n: 2, sa: 0, key: 0, sak: 3})
	add(nil, prOp{n: 2, sa: 0, sak: 3}, prOp{n: 1, sa: 0, key: 2, sak: 4})
	add(nil, prOp{n: 2, sa: 6, sak: 3}, prOp{n: 1, sa: 3, key: 2})
	return
}
