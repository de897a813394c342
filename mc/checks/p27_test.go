package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"verifmc/h"
)

func init() {
	reg("P27", "exploration",
		"every schedule with at most 2 (quick) or 3 (thorough) deviations from the default one, over all lock, connection, shared-assignment and mutable-map operations of the target, of concurrent logins, reinstatements of sessions and connections, logouts, closes, half logins and discoveries of the same and of different initiator ports, with and without outstanding commands; oracle: nothing crashes or is stuck, no unsynchronised map access, one live session per initiator port, distinct handles, I_T nexuses and handles exactly of the live sessions, later logins work",
		func(c *Ctx) {
			for _, s := range p27scenarios() {
				c.explore(s, Pick(c, 2, 3))
			}
		}, "preemption inside straight-line code that touches no shared variable, lock, map or connection has no effect")
}

// port makes initiator n a connection of initiator port p that is not logged in yet.
func (r *run) port(n, p int) *h.Ini {
	for len(r.ini) <= n {
		r.ini = append(r.ini, nil)
	}
	i := r.w.DialThread(fmt.Sprintf("10.0.0.%d:%d", p+1, 40000+n), h.Portal)
	if i == nil {
		r.k.Fail("dial", "cannot connect")
		return nil
	}
	i.ISID = 0x80_0000_000001 + uint64(p)
	i.Name = fmt.Sprintf("iqn.2020-01.verif:ini%d", p)
	r.ini[n] = i
	return i
}

// login logs connection n in; it may be cut off by a newer login of the same port.
func (r *run) login(n int) bool {
	i := r.ini[n]
	ok := i.Login(0)
	if !ok && !i.EOF {
		r.k.Fail("login", "connection %d: login answered %v", n, i.All)
	}
	r.v[fmt.Sprint("in", n)] = ok
	r.seq++
	if ok {
		// what the login put an end to has no effect from here on
		for o, j := range r.ini {
			if o != n && j != nil && j.ISID == i.ISID && r.v[fmt.Sprint("in", o)] == true && r.v[fmt.Sprint("end", o)] == nil && o < n {
				r.v[fmt.Sprint("end", o)] = r.seq
			}
		}
	}
	r.hist = append(r.hist, &event{th: fmt.Sprint(n), what: fmt.Sprintf("login=%v tsih=%d", ok, i.TSIH), resp: r.seq})
	return ok
}

func (r *run) logout(n int) {
	i := r.ini[n]
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpLogout|0x40, 0x80
	p.Put32(16, i.ITT())
	p.Put32(24, i.CmdSN)
	p.Put32(28, i.ExpStat)
	ps := i.Do(p)
	if len(ps) > 0 && (ps[0].Op() != h.OpLogoutR || ps[0].B[2] != 0) || len(ps) == 0 && !i.EOF {
		r.k.Fail("logout", "connection %d: %v", n, ps)
	}
	for !i.EOF && i.Bad == nil {
		i.Recv()
	}
	r.v[fmt.Sprint("out", n)] = true
}

// mayWrite is a write on a connection that may be taken away at any time.
func (r *run) mayWrite(n int, tag byte, imm int) {
	i := r.ini[n]
	e := r.do(fmt.Sprint(n), fmt.Sprintf("write(%02x)", tag), func() *h.Result {
		p := i.CmdPDU(0, h.C10(0x2a, 0, 0, 1), blk, false, true)
		r.v[fmt.Sprint("tag", n)] = p.ITT()
		p.B[0] |= 0x40 // the numbering of a session that was taken over is not known
		i.CmdSN--
		p.Data = fillBlock(tag)[:imm]
		return i.Finish(p, 0, blk, fillBlock(tag))
	})
	e.optional = !e.res.Got
	e.apply = func(m *model) bool { copy(m.b["0/0"], fillBlock(tag)); return !e.res.Got || e.res.Good() }
	if !e.res.Got && !i.EOF || e.res.Problem != "" || e.res.Got && !e.res.Good() {
		r.k.Fail("answer", "connection %d: %v", n, e.res)
	}
}

// table checks the sessions at the end. want lists, per port, how many live sessions there must be.
func (r *run) table(want ...int) {
	live := make([]int, len(want))
	tsih := map[uint16]int{}
	for n, i := range r.ini {
		i.Recv()
		if i.EOF {
			continue
		}
		p := int(i.ISID - 0x80_0000_000001)
		if r.v[fmt.Sprint("in", n)] != true {
			r.k.Fail("limbo", "connection %d is open but was neither logged in nor closed", n)
			continue
		}
		if x := i.Exec(0, h.TUR(), 0, false, nil); !x.Good() {
			r.k.Fail("session-lost", "connection %d: logged in, not closed, but: %v", n, x)
		}
		live[p]++
		if o, ok := tsih[i.TSIH]; ok {
			r.k.Fail("tsih", "connections %d and %d have the same session handle %d", o, n, i.TSIH)
		}
		tsih[i.TSIH] = n
	}
	r.k.State(fmt.Sprint(r.k.C.only, r.history(), live))
	total := 0
	for p := range want {
		if want[p] >= 0 && live[p] != want[p] {
			r.k.Fail("live-sessions", "port %d has %d live sessions, want %d", p, live[p], want[p])
		}
		total += live[p]
	}
	check := func(when string, total int) {
		list, _ := r.w.Svc.GetTargetList()
		if n := len(list[0].ITNexus); n != total {
			r.k.Fail("nexus", "%s: %d I_T nexuses for %d live sessions", when, n, total)
		}
		// the pool of handles, where there is one: 0 and 65535 are never given out
		if f := reflect.ValueOf(r.w.Drv).Elem().FieldByName("TSIHPool"); f.IsValid() && f.Kind() == reflect.Map && f.Len() != 2+total {
			r.k.Fail("handle-leak", "%s: %d session handles in use for %d live sessions", when, f.Len()-2, total)
		}
	}
	check("afterwards", total)
	for _, i := range r.ini {
		for o, j := range r.ini {
			tag, ok := r.v[fmt.Sprint("tag", o)].(uint32)
			if ok && !i.EOF && i != j && i.ISID == j.ISID {
				if got := abortTask(i, 0, tag); got != 1 {
					r.k.Fail("task-survived", "task %x of connection %d, whose place another connection took: ABORT TASK answers %d", tag, o, got)
				}
			}
		}
	}
	// everything can be had again
	for p := range want {
		i := r.w.Dial(fmt.Sprintf("10.0.0.%d:%d", p+1, 50000+p), h.Portal)
		i.ISID = 0x80_0000_000001 + uint64(p)
		i.Name = fmt.Sprintf("iqn.2020-01.verif:ini%d", p)
		if !i.Login(0) || !i.Exec(0, h.TUR(), 0, false, nil).Good() {
			r.k.Fail("later-login", "port %d cannot log in afterwards: %v", p, i.All)
		}
	}
	check("after logging in again", len(want))
	if m, ok := r.v["start"].(*model); ok {
		b := r.w.Stores["0/0"].Snapshot()
		var ev []*event
		for _, e := range r.hist {
			if e.apply != nil {
				if end, ok := r.v["end"+e.th].(int); ok && e.optional && end < e.resp {
					e.resp = end
					e.inv = min(e.inv, end)
				}
				ev = append(ev, e)
			}
		}
		q := &run{hist: ev}
		if !q.linearize(m, func(x *model) bool { return bytes.Equal(x.b["0/0"], b) }) {
			r.k.Fail("not-linearizable", "no order of the commands explains the medium %x: %s", b[:2], r.history())
		}
	}
}

func p27scenarios() (l []*scenario) {
	add := func(name string, setup func(r *run), want []int, ths ...func(r *run)) {
		s := &scenario{name: name, cfg: h.Simple(h.LUN{LUN: 0, Blocks: 1}), verify: func(r *run) { r.table(want...) }}
		s.setup = func(r *run) {
			b := h.Fill(blk, 3)
			r.w.Stores["0/0"].Set(b)
			r.v["start"] = &model{map[string][]byte{"0/0": append([]byte{}, b...)}}
			setup(r)
		}
		for n, f := range ths {
			s.threads = append(s.threads, thread{fmt.Sprintf("i%d", n), f})
		}
		l = append(l, s)
	}
	// in: the ports logged in beforehand, as connections 0, 1, ...
	in := func(ports ...int) func(r *run) {
		return func(r *run) {
			for n, p := range ports {
				i := r.port(n, p)
				i.Threaded(false)
				h.Settle()
				if !r.login(n) {
					r.k.Fail("setup", "login")
				}
				i.Threaded(true)
			}
		}
	}
	none := func(r *run) {}
	add("two-ports", none, []int{1, 1},
		func(r *run) { r.port(0, 0); r.login(0); r.mayWrite(0, 0xa1, 512) },
		func(r *run) { r.port(1, 1); r.login(1); r.mayWrite(1, 0xb1, 512) })
	conns := func(ports ...int) func(r *run) {
		return func(r *run) {
			for n, p := range ports {
				r.port(n, p)
			}
		}
	}
	add("two-ports-connected", conns(0, 1), []int{1, 1},
		func(r *run) { r.login(0) },
		func(r *run) { r.login(1) })
	add("same-port-twice", conns(0, 0), []int{1},
		func(r *run) { r.login(0) },
		func(r *run) { r.login(1) })
	add("reinstate-under-write", func(r *run) { in(0)(r); r.port(1, 0) }, []int{1},
		func(r *run) { r.mayWrite(0, 0xa2, 0) },
		func(r *run) { r.login(1); r.mayWrite(1, 0xb2, 512) })
	add("two-reinstatements", func(r *run) { in(0)(r); r.port(1, 0); r.port(2, 0) }, []int{1},
		func(r *run) { r.login(1) },
		func(r *run) { r.login(2) })
	add("logout-relogin", func(r *run) { in(0)(r); r.port(1, 0) }, []int{1},
		func(r *run) { r.logout(0) },
		func(r *run) { r.login(1) })
	add("close-relogin", func(r *run) { in(0)(r); r.port(1, 0) }, []int{1},
		func(r *run) { r.ini[0].Close() },
		func(r *run) { r.login(1) })
	add("close-close", in(0, 1), []int{0, 0},
		func(r *run) { r.ini[0].Close() },
		func(r *run) { r.ini[1].Close() })
	add("logout-logout-login", func(r *run) { in(0, 1)(r); r.port(2, 2) }, []int{0, 0, 1},
		func(r *run) { r.logout(0) },
		func(r *run) { r.logout(1) },
		func(r *run) { r.login(2) })
	add("connection-reinstatement-under-write", func(r *run) { in(0)(r); r.port(1, 0); r.ini[1].TSIH = r.ini[0].TSIH }, []int{1},
		func(r *run) { r.mayWrite(0, 0xa3, 0) },
		func(r *run) { r.login(1); r.mayWrite(1, 0xb3, 0) })
	add("close-in-login", func(r *run) { in(0)(r); r.port(1, 0); r.port(2, 1) }, []int{-1, 1},
		func(r *run) {
			i := r.ini[1]
			i.Send(h.LoginPDU(i.ISID, 0, 0, 1, 3, true, i.ITT(), i.CmdSN, i.ExpStat, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", r.w.Names[0])))
			i.Close()
		},
		func(r *run) { r.login(2) })
	add("discovery-and-login", func(r *run) { in(0)(r); r.port(1, 1); r.port(2, 2) }, []int{1, 1, 0},
		func(r *run) { r.login(1) },
		func(r *run) {
			i := r.ini[2]
			if !i.LoginDiscovery() {
				r.k.Fail("discovery", "login %v", i.All)
				return
			}
			p := &h.PDU{Data: []byte(h.KV("SendTargets", "All"))}
			p.B[0], p.B[1] = h.OpText|0x40, 0x80
			p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
			ps := i.Do(p)
			if len(ps) != 1 || ps[0].Op() != h.OpTextR || !bytes.Contains(ps[0].Data, []byte("TargetName="+r.w.Names[0])) {
				r.k.Fail("discovery", "SendTargets: %v", ps)
			}
			i.Close()
		},
		func(r *run) { r.logout(0); r.ini[0].Close(); r.port(3, 0); r.login(3) })
	return
}
