package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P18", "model_checking",
		"every sequence up to the depth of RESERVE, RELEASE, LOGICAL UNIT RESET and session end (logout, close, reset, reinstatement, each followed by a new login) by three sessions on two units, one of them mapped in a second target; after each every kind of medium access by every session; and every schedule with at most 2 (thorough 3) deviations of sessions that reserve, release and end at the same time; oracle: the holder of each device; a state is (holders, last step)",
		p18, "a command that had begun when a RESERVE was granted may still finish")
}

var reserve6, release6 = []byte{0x16, 0, 0, 0, 0, 0}, []byte{0x17, 0, 0, 0, 0, 0}

// p18access is every way to read or change the medium: first block of the unit.
type p18access struct {
	name string
	cdb  []byte
	rd   int
	out  []byte
}

func p18accesses(fill byte) (l []p18access) {
	d := bytes.Repeat([]byte{fill}, blk)
	for _, r := range h.Reads {
		l = append(l, p18access{r.Name, r.CDB(0, 0, 1), blk, nil})
	}
	for _, r := range h.Writes {
		l = append(l, p18access{r.Name, r.CDB(0, 0, 1), 0, d})
	}
	um, ud := h.Unmap([2]uint64{0, 1})
	return append(l,
		p18access{"WRITE SAME(10)", h.C10(0x41, 0, 0, 1), 0, d},
		p18access{"WRITE SAME(16)", h.C16(0x93, 0, 0, 1), 0, d},
		p18access{"ORWRITE(16)", h.C16(0x8b, 0, 0, 1), 0, d},
		p18access{"UNMAP", um, 0, ud},
		p18access{"SYNCHRONIZE CACHE(10)", h.C10(0x35, 0, 0, 1), 0, nil},
		p18access{"SYNCHRONIZE CACHE(16)", h.C16(0x91, 0, 0, 1), 0, nil},
		p18access{"VERIFY(10)", h.C10(0x2f, 0, 0, 1), 0, nil})
}

// access performs one of them and says whether it was performed (true) or met a reservation conflict.
func (a p18access) run(k *Case, i *h.Ini, lun uint64) (performed, ok bool) {
	n := a.rd + len(a.out)
	r := i.Exec(lun, a.cdb, n, a.out == nil && a.rd > 0, a.out)
	k.Op(1)
	switch {
	case r.Problem != "":
		k.Fail("answer", "%s: %v", a.name, r)
	case r.Good() && len(r.Data) == a.rd:
		return true, true
	case r.Got && r.Response == 0 && r.Status == 0x18 && len(r.Data) == 0:
		return false, true
	default:
		k.Fail("answer", "%s: neither performed nor a reservation conflict: %v", a.name, r)
	}
	return false, false
}

func p18lu(i *h.Ini, lun uint64) *h.PDU {
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpTMF|0x40, 0x80|5
	p.SetLUN(lun)
	p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
	return p
}

func p18(c *Ctx) {
	type unit struct {
		lun uint64
		dev int
	}
	units := [][]unit{{{0, 0}, {1, 1}}, {{0, 0}, {1, 1}}, {{5, 0}}}
	tgt := []int{0, 0, 1}
	var ops []string
	for s := range units {
		for u := range units[s] {
			for _, o := range []string{"reserve", "release", "reset"} {
				ops = append(ops, fmt.Sprintf("%s %d %d", o, s, u))
			}
		}
	}
	for _, e := range []string{"logout", "close", "abort", "reinstate"} {
		ops = append(ops, e+" 0 0")
	}
	ops = append(ops, "close 1 0", "logout 2 0")
	do := func(seq []string) {
		c.Case(strings.Join(seq, "/"), func(k *Case) {
			w := h.NewWorld(h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 2, Thin: true, Dev: 901}, {LUN: 1, Blocks: 2, Thin: true}}}, {LUNs: []h.LUN{{LUN: 5, Blocks: 2, Thin: true, Dev: 901}}}}})
			defer w.End()
			var ini []*h.Ini
			n := 0
			login := func(s int) *h.Ini {
				n++
				i := w.Dial(fmt.Sprintf("10.0.0.%d:%d", s+1, 40000+n), h.Portal)
				if i == nil {
					return nil
				}
				i.ISID = 0x80_0000_000001 + uint64(s)
				i.Name = fmt.Sprintf("iqn.2020-01.verif:ini%d", s)
				if !i.Login(tgt[s]) {
					return nil
				}
				return i
			}
			for s := range units {
				ini = append(ini, login(s))
			}
			holder := map[int]int{} // device -> session+1
			for _, op := range seq {
				var what string
				var s, u int
				fmt.Sscanf(op, "%s %d %d", &what, &s, &u)
				i := ini[s]
				k.Op(1)
				x := unit{}
				if u < len(units[s]) {
					x = units[s][u]
				}
				switch what {
				case "reserve", "release":
					cdb := reserve6
					want := byte(0)
					if what == "reserve" {
						if holder[x.dev] != 0 && holder[x.dev] != s+1 {
							want = 0x18
						} else {
							holder[x.dev] = s + 1
						}
					} else {
						cdb = release6
						if holder[x.dev] == s+1 {
							holder[x.dev] = 0
						}
					}
					r := i.Exec(x.lun, cdb, 0, false, nil)
					if !r.Got || r.Status != want || r.Response != 0 || r.Problem != "" {
						k.Fail(what, "%s: %v, want status %02x; holders %v", op, r, want, holder)
						return
					}
				case "reset":
					ps := i.Do(p18lu(i, x.lun))
					if len(ps) != 1 || ps[0].Op() != h.OpTMFResp || ps[0].B[2] != 0 {
						k.Fail("reset", "LOGICAL UNIT RESET answered %v", ps)
						return
					}
					holder[x.dev] = 0
				case "reinstate":
					if ini[s] = login(s); ini[s] == nil {
						k.Fail("login", "%s: no login", op)
						return
					}
				case "logout":
					p := &h.PDU{}
					p.B[0], p.B[1] = 0x06, 0x80
					p.Put32(16, i.ITT()).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
					i.CmdSN++
					if ps := i.Do(p); len(ps) != 1 || ps[0].B[2] != 0 {
						k.Fail("logout", "%v", ps)
						return
					}
					i.Close()
				case "close":
					i.Close()
				case "abort":
					i.C.Reset()
					h.Settle()
				}
				switch what {
				case "logout", "close", "abort", "reinstate":
					for d, o := range holder {
						if o == s+1 {
							holder[d] = 0
						}
					}
					if what != "reinstate" {
						if ini[s] = login(s); ini[s] == nil {
							k.Fail("login", "%s: no login", op)
							return
						}
					}
				}
			}
			k.State(fmt.Sprint(holder[0], holder[1], seq[len(seq)-1]))
			for s := range units {
				for _, x := range units[s] {
					free := holder[x.dev] == 0 || holder[x.dev] == s+1
					for _, a := range p18accesses(byte(0x10 + s)) {
						before := string(w.Medium(tgt[s], x.lun))
						performed, ok := a.run(k, ini[s], x.lun)
						if !ok {
							return
						}
						if performed != free {
							k.Fail("exclusion", "device %d is held by %d: %s by session %d (LUN %d) performed: %v", x.dev, holder[x.dev]-1, a.name, s, x.lun, performed)
							return
						}
						if !performed && string(w.Medium(tgt[s], x.lun)) != before {
							k.Fail("exclusion", "%s changes the medium and reports a conflict", a.name)
						}
					}
					for _, cdb := range [][]byte{h.Inquiry(false, 0, 96), h.ReportLuns(64), {3, 0, 0, 0, 18, 0}} {
						if r := ini[s].Exec(x.lun, cdb, 96, true, nil); !r.Good() {
							k.Fail("always-allowed", "device %d is held by %d: command %x by session %d: %v", x.dev, holder[x.dev]-1, cdb[0], s, r)
						}
						k.Op(1)
					}
				}
			}
			k.crashes(w, "crash")
		})
	}
	depth := Pick(c, 3, 4)
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) > 0 {
			do(append([]string{}, seq...))
		}
		if len(seq) == depth {
			return
		}
		for _, o := range ops {
			rec(append(seq, o))
		}
	}
	rec(nil)
	for _, s := range p18scenarios() {
		c.explore(s, Pick(c, 2, 3))
	}
}

func p18scenarios() (l []*scenario) {
	one := h.Simple(h.LUN{LUN: 0, Blocks: 2})
	rsv := func(r *run, th string, i *h.Ini, cdb []byte) byte {
		e := r.do(th, fmt.Sprintf("%02x", cdb[0]), func() *h.Result { return i.Exec(0, cdb, 0, false, nil) })
		if !e.res.Got {
			return 0xff
		}
		return e.res.Status
	}
	// afterwards: exactly the session that was told it holds the unit excludes the others
	verify := func(r *run) {
		holder := -1
		for n := range r.ini {
			if v, ok := r.v[fmt.Sprint("holds", n)]; ok && v.(bool) {
				if holder >= 0 {
					r.k.Fail("two-holders", "%d and %d both hold the unit: %s", holder, n, r.history())
					return
				}
				holder = n
			}
		}
		r.k.State(fmt.Sprint(holder, r.history()))
		for n, i := range r.ini {
			if gone, ok := r.v[fmt.Sprint("gone", n)]; ok && gone.(bool) {
				continue
			}
			x := i.Exec(0, h.C10(0x28, 0, 0, 1), blk, true, nil)
			if free := holder < 0 || holder == n; x.Good() != free || !free && x.Status != 0x18 {
				r.k.Fail("exclusion", "the unit is held by %d, session %d reads: %v; %s", holder, n, x, r.history())
			}
		}
	}
	add := func(name string, targets []int, ths ...func(r *run)) {
		s := &scenario{name: name, cfg: one, setup: setupDisks(targets...), verify: verify}
		for n, f := range ths {
			s.threads = append(s.threads, thread{fmt.Sprintf("i%d", n), f})
		}
		l = append(l, s)
	}
	try := func(n int) func(r *run) {
		return func(r *run) { r.v[fmt.Sprint("holds", n)] = rsv(r, fmt.Sprint("s", n), r.ini[n], reserve6) == 0 }
	}
	add("two-reserve", []int{0, 0}, try(0), try(1))
	add("three-reserve", []int{0, 0, 0}, try(0), try(1), try(2))
	l[len(l)-1].maxDev = func(c *Ctx) int { return Pick(c, 1, 2) }
	add("reserve-release-reserve", []int{0, 0}, func(r *run) {
		try(0)(r)
		if rsv(r, "s0", r.ini[0], release6) != 0 {
			r.k.Fail("release", "refused")
		}
		r.v["holds0"] = false
	}, func(r *run) { try(1)(r) })
	add("reserve-close", []int{0, 0}, func(r *run) {
		try(0)(r)
		r.v["holds0"], r.v["gone0"] = false, true
		r.ini[0].Close()
	}, try(1))
	add("reserve-close-unanswered", []int{0, 0}, func(r *run) {
		r.ini[0].Send(r.ini[0].CmdPDU(0, reserve6, 0, false, false))
		r.v["gone0"] = true
		r.ini[0].C.Reset()
	}, try(1))
	add("reserve-write", []int{0, 0}, try(0), func(r *run) {
		x := r.ini[1].Exec(0, h.C10(0x2a, 0, 0, 1), blk, false, fillBlock(1))
		if !x.Good() && x.Status != 0x18 {
			r.k.Fail("answer", "%v", x)
		}
	})
	add("reset-reserve", []int{0, 0}, func(r *run) {
		try(0)(r)
		if x := r.tmf("s0", r.ini[0], 0, 5, 0xffffffff); x != 0 {
			r.k.Fail("reset", "LOGICAL UNIT RESET: %d", x)
		}
		r.v["holds0"] = false
	}, func(r *run) {
		// granted before the reset, it is lost by it
		st := rsv(r, "s1", r.ini[1], reserve6)
		r.v["st1"] = st
	})
	l[len(l)-1].verify = func(r *run) {
		// the second session, if it was granted the unit, may have lost it again
		a := r.ini[0].Exec(0, h.C10(0x28, 0, 0, 1), blk, true, nil)
		b := r.ini[1].Exec(0, h.C10(0x28, 0, 0, 1), blk, true, nil)
		r.k.State(fmt.Sprint(a.Status, b.Status, r.v["st1"]))
		if !b.Good() || !a.Good() && (a.Status != 0x18 || r.v["st1"].(byte) != 0) {
			r.k.Fail("exclusion", "afterwards: %v and %v, RESERVE was answered %v", a, b, r.v["st1"])
		}
	}
	return
}
