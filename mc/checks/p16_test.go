package checks

import (
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P16", "model_checking",
		"every sequence up to the depth of full and half logins by three initiator ports to two targets, connection and session reinstatement, wrong handles, logout, close and reset over three connections, with outstanding writes; pairs of initiator ports that differ in one bit of the ISID, in the name, portal group or target, and handles that differ in one bit; more than 65536 sessions one after another for every way a session or login attempt can end; oracle: a session table; a state is (who is logged in where, outstanding writes)",
		p16)
}

// p16slot is one connection.
type p16slot struct {
	i    *h.Ini
	who  int
	t    int
	live bool
	half bool
	pend *wtask
	old  []uint32 // tags of tasks of connections this one took the place of
}

var p16who = []struct {
	name string
	isid uint64
}{{"iqn.2020-01.verif:a", 0x80_0000_000001}, {"iqn.2020-01.verif:a", 0x80_0000_000002}, {"iqn.2020-01.verif:b", 0x80_0000_000001}}

type p16world struct {
	k     *Case
	w     *h.World
	s     [3]p16slot
	med   [2][]byte
	hist  []string
	n     int
	bad   bool
	taken map[string]bool
}

func (x *p16world) fail(key, f string, a ...any) {
	x.bad = true
	x.k.Fail(key, "%s: %s", strings.Join(x.hist, " "), fmt.Sprintf(f, a...))
}

func p16start(k *Case) *p16world {
	x := &p16world{k: k}
	x.w = h.NewWorld(h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 4}}}, {LUNs: []h.LUN{{LUN: 0, Blocks: 4}}}}})
	for t := range x.med {
		x.med[t] = h.Fill(2048, byte(t))
		x.w.SetMedium(t, 0, x.med[t])
	}
	return x
}

// login sends the login PDU of a port and returns the answer; nil if the connection was closed without one.
func (x *p16world) login(s, who, t int, tsih, cid uint16, final bool, isid uint64, name string) *h.PDU {
	i := x.w.Dial(fmt.Sprintf("10.0.0.%d:4000", s+1), h.Portal)
	if i == nil {
		x.fail("dial", "cannot connect")
		return nil
	}
	i.Name, i.ISID, i.CID = name, isid, cid
	x.n++
	i.CmdSN, i.ExpStat = uint32(100*x.n), uint32(1000*x.n)
	x.s[s] = p16slot{i: i, who: who, t: t}
	ps := i.Do(h.LoginPDU(isid, tsih, cid, 1, 3, final, i.ITT(), i.CmdSN, i.ExpStat, h.KV("InitiatorName", name, "SessionType", "Normal", "TargetName", x.w.Names[t])))
	if i.Bad != nil || len(ps) > 1 || len(ps) == 1 && ps[0].Op() != h.OpLoginR {
		x.fail("login-answer", "%v %v", ps, i.Bad)
		return nil
	}
	if len(ps) == 0 {
		return nil
	}
	return &ps[0]
}

func loginDone(p *h.PDU) bool { return p != nil && p.B[36] == 0 && p.B[1]&0x83 == 0x83 }

// gone expects that the target has closed a connection without another word.
func (x *p16world) gone(s int, why string) {
	ps := x.s[s].i.Recv()
	if len(ps) != 0 || !x.s[s].i.EOF {
		x.fail("old-connection", "connection %d after %s: closed %v, got %v", s, why, x.s[s].i.EOF, ps)
	}
	x.s[s].live, x.s[s].half, x.s[s].pend = false, false, nil
}

type p16act struct {
	name string
	can  func(x *p16world) bool
	do   func(x *p16world)
}

func p16acts() (acts []p16act) {
	free := func(x *p16world, s int) bool {
		if x.s[s].live || x.s[s].half {
			return false
		}
		for q := 0; q < s; q++ { // lower connections first
			if x.s[q].i == nil {
				return false
			}
		}
		return true
	}
	for s := 0; s < 3; s++ {
		for who := range p16who {
			for t := 0; t < 2; t++ {
				if who == 2 && t == 1 {
					continue
				}
				for _, half := range []bool{false, true} {
					if half && (who != 0 || t != 0) {
						continue
					}
					name := fmt.Sprintf("login%d(%d,%d)", s, who, t)
					if half {
						name = fmt.Sprintf("half%d", s)
					}
					acts = append(acts, p16act{name, func(x *p16world) bool { return free(x, s) }, func(x *p16world) {
						old := x.s
						p := x.login(s, who, t, 0, 0, !half, p16who[who].isid, p16who[who].name)
						if x.bad {
							return
						}
						if !half && !loginDone(p) || half && (p == nil || p.B[36] != 0 || p.B[1]&0x80 != 0) {
							x.fail("login-refused", "login of port %d to target %d: %v", who, t, p)
							return
						}
						for q := range old {
							if q != s && (old[q].live || old[q].half) && old[q].who == who && old[q].t == t {
								x.gone(q, "reinstatement of its session")
							}
						}
						x.s[s].live, x.s[s].half = !half, half
						x.s[s].i.TSIH = uint16(p.B[14])<<8 | uint16(p.B[15])
					}})
				}
			}
		}
		acts = append(acts, p16act{fmt.Sprintf("finish%d", s), func(x *p16world) bool { return x.s[s].half }, func(x *p16world) {
			i := x.s[s].i
			ps := i.Do(h.LoginPDU(i.ISID, 0, i.CID, 1, 3, true, i.ITT(), i.CmdSN, i.ExpStat, ""))
			if len(ps) != 1 || !loginDone(&ps[0]) {
				x.fail("finish", "%v", ps)
				return
			}
			x.s[s].half, x.s[s].live = false, true
			i.TSIH = uint16(ps[0].B[14])<<8 | uint16(ps[0].B[15])
		}})
		for o := 0; o < 3; o++ {
			if o == s {
				continue
			}
			can := func(x *p16world) bool { return free(x, s) && x.s[o].live }
			acts = append(acts, p16act{fmt.Sprintf("takeover%d-%d", s, o), can, func(x *p16world) {
				old := x.s[o]
				sn := old.i.CmdSN
				x.n++
				i := x.w.Dial("10.0.0.7:4000", h.Portal)
				i.Name, i.ISID, i.CmdSN, i.ExpStat, i.TSIH = old.i.Name, old.i.ISID, sn, uint32(1000*x.n), old.i.TSIH
				i.ContinueTags(old.i)
				x.s[s] = p16slot{i: i, who: old.who, t: old.t}
				ps := i.Do(h.LoginPDU(i.ISID, i.TSIH, old.i.CID, 1, 3, true, i.ITT(), sn, i.ExpStat, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", x.w.Names[old.t])))
				if len(ps) != 1 || !loginDone(&ps[0]) || ps[0].B[14] != byte(i.TSIH>>8) || ps[0].B[15] != byte(i.TSIH) {
					x.fail("takeover", "reinstating the connection of %d: %v", o, ps)
					return
				}
				x.gone(o, "reinstatement of the connection")
				x.s[s].live = true
				x.s[s].old = old.old
				if old.pend != nil {
					x.s[s].old = append(append([]uint32{}, old.old...), old.pend.pdu.ITT())
				}
			}})
			for n, kind := range []string{"cid", "isid", "name", "target"} {
				acts = append(acts, p16act{fmt.Sprintf("wrong-%s%d-%d", kind, s, o), can, func(x *p16world) {
					old := x.s[o]
					isid, name, cid, t := old.i.ISID, old.i.Name, old.i.CID, old.t
					switch n {
					case 0:
						cid = 5
					case 1:
						isid += 77
					case 2:
						name += "x"
					case 3:
						t = 1 - t
					}
					p := x.login(s, old.who, t, old.i.TSIH, cid, true, isid, name)
					if x.bad {
						return
					}
					if p != nil && p.B[36] == 0 || !x.s[s].i.EOF {
						x.fail("wrong-handle", "a login with the handle of session %d and another %s: %v", o, kind, p)
					}
				}})
			}
		}
		up := func(x *p16world) bool { return x.s[s].live || x.s[s].half }
		live := func(x *p16world) bool { return x.s[s].live }
		acts = append(acts, p16act{fmt.Sprintf("close%d", s), up, func(x *p16world) {
			x.s[s].i.Close()
			x.s[s].live, x.s[s].half, x.s[s].pend = false, false, nil
		}}, p16act{fmt.Sprintf("reset%d", s), up, func(x *p16world) {
			x.s[s].i.C.Reset()
			h.Settle()
			x.s[s].live, x.s[s].half, x.s[s].pend = false, false, nil
		}}, p16act{fmt.Sprintf("logout%d", s), live, func(x *p16world) {
			i := x.s[s].i
			p := &h.PDU{}
			p.B[0], p.B[1] = h.OpLogout|0x40, 0x80
			p.Put32(16, i.ITT()).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
			ps := i.Do(p)
			if len(ps) != 1 || ps[0].Op() != h.OpLogoutR || ps[0].B[2] != 0 || !i.EOF {
				x.fail("logout", "%v, closed %v", ps, i.EOF)
			}
			x.s[s].live, x.s[s].pend = false, nil
		}}, p16act{fmt.Sprintf("write%d", s), func(x *p16world) bool { return x.s[s].live && x.s[s].pend == nil }, func(x *p16world) {
			x.n++
			t := &wtask{i: x.s[s].i, lba: uint64(s), data: h.Fill(512, byte(x.n*31))}
			x.s[s].i.Send(t.next())
			for _, p := range x.s[s].i.Recv() {
				t.take(p, 1<<18)
			}
			if t.r2t == nil {
				x.fail("r2t", "no R2T on connection %d", s)
			}
			x.s[s].pend = t
		}}, p16act{fmt.Sprintf("data%d", s), func(x *p16world) bool { return x.s[s].live && x.s[s].pend != nil }, func(x *p16world) {
			t := x.s[s].pend
			x.s[s].i.Send(t.next())
			for _, p := range x.s[s].i.Recv() {
				if e := t.take(p, 1<<18); e != "" {
					x.fail("data", "%s", e)
				}
			}
			if !t.finished {
				x.fail("data", "the write of connection %d does not end", s)
			}
			copy(x.med[x.s[s].t][512*s:], t.data)
			x.s[s].pend = nil
		}})
	}
	return
}

// check looks at every connection and at the media.
func (x *p16world) check() {
	ids := map[uint16]int{}
	st := ""
	for s := range x.s {
		v := &x.s[s]
		if v.i == nil {
			continue
		}
		st += fmt.Sprint(s, v.live, v.half, v.who, v.t, v.pend != nil, " ")
		if !v.live {
			continue
		}
		// the tasks of a connection end with it, also where another one takes its place
		for _, tag := range v.old {
			if got := abortTask(v.i, 0, tag); got != 1 {
				x.fail("task-survived", "task %x of the connection that connection %d took the place of: ABORT TASK answers %d", tag, s, got)
				return
			}
		}
		if v.i.TSIH == 0 {
			x.fail("tsih0", "session handle 0 on connection %d", s)
			return
		}
		if o, dup := ids[v.i.TSIH]; dup {
			x.fail("tsih-twice", "connections %d and %d have session handle %d", o, s, v.i.TSIH)
			return
		}
		ids[v.i.TSIH] = s
		r := v.i.Exec(0, h.C10(0x28, 0, uint32(s), 1), 512, true, nil)
		if !r.Good() || string(r.Data) != string(x.med[v.t][512*s:512*s+512]) {
			x.fail("session", "connection %d (port %d, target %d): %v", s, v.who, v.t, r)
			return
		}
	}
	for t := range x.med {
		if !x.w.Stores[h.LKey(t, 0)].Equal(x.med[t]) {
			x.fail("medium", "medium of target %d changed", t)
			return
		}
	}
	x.k.State(st)
	if x.k.crashes(x.w, "crash") {
		x.bad = true
	}
}

func p16(c *Ctx) {
	acts := p16acts()
	depth := Pick(c, 4, 5)
	run := func(k *Case, seq []int) (applied int, ok bool) {
		x := p16start(k)
		defer x.w.End()
		for n, a := range seq {
			if !acts[a].can(x) {
				return n, true
			}
			x.hist = append(x.hist, acts[a].name)
			acts[a].do(x)
			k.Op(1)
			if !x.bad && n == len(seq)-1 {
				x.check()
			}
			if x.bad {
				return n, false
			}
		}
		// everything ends, and everyone can come back
		if len(seq) == depth {
			for s := range x.s {
				if x.s[s].i != nil {
					x.s[s].i.Close()
				}
				x.s[s] = p16slot{}
			}
			x.hist = append(x.hist, "close all")
			for s := range x.s {
				p := x.login(s, s, 0, 0, 0, true, p16who[s].isid, p16who[s].name)
				if !loginDone(p) {
					x.fail("come-back", "port %d: %v", s, p)
					return len(seq), false
				}
				x.s[s].live = true
				x.s[s].i.TSIH = uint16(p.B[14])<<8 | uint16(p.B[15])
			}
			x.check()
		}
		return len(seq), !x.bad
	}
	var first []int
	for a := range acts { // what can come first: a full or half login on connection 0
		if strings.HasPrefix(acts[a].name, "login0") || acts[a].name == "half0" {
			first = append(first, a)
		}
	}
	for _, a := range first {
		for b := range acts {
			c.Case("seq/"+acts[a].name+"/"+acts[b].name, func(k *Case) {
				var rec func(seq []int) bool
				rec = func(seq []int) bool {
					n, ok := run(k, seq)
					if !ok {
						return false
					}
					if n < len(seq) || len(seq) == depth {
						return true
					}
					for d := range acts {
						if !rec(append(append([]int{}, seq...), d)) {
							return false
						}
					}
					return true
				}
				rec([]int{a, b})
			})
		}
	}

	// whose session it is: initiator ports, portal groups and handles that are almost the same
	type id struct {
		name string
		isid uint64
		pg   int
		t    int
	}
	base := id{"iqn.2020-01.verif:ab", 0x80_0000_0a0001, 0, 0}
	ids := []id{base}
	for bit := 0; bit < 48; bit++ {
		ids = append(ids, id{base.name, base.isid ^ 1<<bit, 0, 0})
	}
	for _, n := range []string{"iqn.2020-01.verif:a", "iqn.2020-01.verif:abc", "iqn.2020-01.verif:bb", "jqn.2020-01.verif:ab", "iqn.2020-01.verif:a,", "eui.0123456789abcdef"} {
		ids = append(ids, id{n, base.isid, 0, 0})
	}
	ids = append(ids, id{base.name, base.isid, 1, 0}, id{base.name, base.isid, 0, 1}, id{base.name, base.isid, 1, 1})
	portals := []string{"127.0.0.1:3260", "127.0.0.2:3260"}
	for b := range ids {
		c.Case(fmt.Sprintf("identity/%d", b), func(k *Case) {
			pg := map[uint16][]string{1: portals[:1], 2: portals[1:]}
			w := h.NewWorld(h.Cfg{Targets: []h.Target{{Portals: pg, LUNs: []h.LUN{{LUN: 0, Blocks: 4}}}, {Portals: pg, LUNs: []h.LUN{{LUN: 0, Blocks: 4}}}}})
			defer w.End()
			login := func(d id, tsih, cid uint16) (*h.Ini, bool) {
				i := w.Dial("10.0.0.1:4000", portals[d.pg])
				i.Name, i.ISID, i.CID = d.name, d.isid, cid
				ps := i.Do(h.LoginPDU(d.isid, tsih, cid, 1, 3, true, i.ITT(), i.CmdSN, i.ExpStat, h.KV("InitiatorName", d.name, "SessionType", "Normal", "TargetName", w.Names[d.t])))
				k.Op(1)
				if len(ps) != 1 || !loginDone(&ps[0]) {
					return i, false
				}
				var isid uint64
				for _, x := range ps[0].B[8:14] {
					isid = isid<<8 | uint64(x)
				}
				if isid != d.isid {
					k.Fail("identity", "login with ISID %x answered with ISID %x", d.isid, isid)
				}
				i.TSIH = uint16(ps[0].B[14])<<8 | uint16(ps[0].B[15])
				return i, true
			}
			alive := func(i *h.Ini) bool { return i.Exec(0, h.TUR(), 0, false, nil).Good() }
			x, ok1 := login(base, 0, 0)
			y, ok2 := login(ids[b], 0, 0)
			if !ok1 || !ok2 {
				k.Fail("identity", "logins of %+v and %+v: %v %v", base, ids[b], ok1, ok2)
				return
			}
			if !alive(y) || alive(x) != (b != 0) || b != 0 && x.TSIH == y.TSIH && base.t == ids[b].t {
				k.Fail("identity", "session of %+v after a login of %+v: served %v, handles %d %d", base, ids[b], alive(x), x.TSIH, y.TSIH)
				return
			}
			if b == 0 {
				return
			}
			// the handle of one in the hands of the other
			if z, ok := login(ids[b], x.TSIH, 0); ok && x.TSIH != y.TSIH {
				k.Fail("identity", "a login of %+v takes over the connection of %+v (%v)", ids[b], base, alive(z))
			}
			for bit := 0; bit < 16; bit++ {
				if t := x.TSIH ^ 1<<bit; t != 0 {
					if _, ok := login(base, t, 0); ok && t != y.TSIH {
						k.Fail("identity", "a login with handle %d takes over the session with handle %d", t, x.TSIH)
					}
				}
				if _, ok := login(base, x.TSIH, 1<<bit); ok {
					k.Fail("identity", "a second connection %d is accepted in a session", 1<<bit)
				}
			}
			if !alive(x) || !alive(y) {
				k.Fail("identity", "sessions of %+v and %+v are not both served: %v %v", base, ids[b], alive(x), alive(y))
				return
			}
			// each can be reinstated, the other stays
			if z, ok := login(base, 0, 0); !ok || !alive(z) || !alive(y) || alive(x) {
				k.Fail("identity", "reinstating %+v beside %+v", base, ids[b])
			}
			k.State(fmt.Sprint("identity", ids[b]))
			k.crashes(w, "crash")
		})
	}

	// session handles do not run out
	ends := []string{"close", "reset", "logout", "half-close", "half-reset", "reinstate", "takeover", "refused", "disc-close", "disc-logout", "half-reinstate", "half-bad"}
	for _, end := range ends {
		c.Case("many/"+end, func(k *Case) {
			x := p16start(k)
			defer x.w.End()
			x.hist = []string{end + " again and again"}
			keep := x.login(1, 2, 1, 0, 0, true, p16who[2].isid, p16who[2].name)
			if !loginDone(keep) {
				x.fail("login", "%v", keep)
				return
			}
			x.s[1].live = true
			x.s[1].i.TSIH = uint16(keep.B[14])<<8 | uint16(keep.B[15])
			var last *h.Ini
			for n := 0; n < 66000; n++ {
				i := x.w.Dial("10.0.0.1:4000", h.Portal)
				if i == nil {
					x.fail("dial", "cannot connect after %d", n)
					return
				}
				i.Name = p16who[0].name
				typ, final, tsih, kv := "Normal", true, uint16(0), ""
				switch end {
				case "half-close", "half-reset", "half-reinstate", "half-bad":
					final = false
				case "disc-close", "disc-logout":
					typ = "Discovery"
				case "takeover":
					if last != nil {
						tsih = last.TSIH
					}
				case "refused":
					tsih = 0xfff0
				}
				ps := i.Do(h.LoginPDU(i.ISID, tsih, 0, 1, 3, final, i.ITT(), 1, 1, h.KV("InitiatorName", i.Name, "SessionType", typ, "TargetName", x.w.Names[0])+kv))
				if end == "refused" {
					if len(ps) == 1 && ps[0].B[36] == 0 {
						x.fail("many", "%v", ps)
						return
					}
					i.Close()
					continue
				}
				if len(ps) != 1 || ps[0].B[36] != 0 {
					x.fail("many "+end, "login %d: %v", n, ps)
					return
				}
				i.TSIH = uint16(ps[0].B[14])<<8 | uint16(ps[0].B[15])
				switch end {
				case "close", "half-close", "disc-close":
					i.Close()
				case "reset", "half-reset":
					i.C.Reset()
					h.Settle()
				case "logout", "disc-logout":
					p := &h.PDU{}
					p.B[0], p.B[1] = h.OpLogout|0x40, 0x80
					p.Put32(16, 9).Put32(24, 1).Put32(28, 2)
					i.Do(p)
					i.Close()
				case "half-bad":
					i.Do(h.LoginPDU(i.ISID, 0, 0, 0, 1, true, i.ITT(), 1, 1, h.KV("AuthMethod", "CHAP")))
					i.Close()
				case "reinstate", "takeover", "half-reinstate":
					if last != nil {
						last.Close()
					}
				}
				last = i
				k.Op(1)
				if n%1000 == 0 {
					i.All = nil
					x.w.S.Forget()
				}
			}
			last = x.w.Dial("10.0.0.1:4000", h.Portal)
			last.Name = p16who[0].name
			if !last.LoginName(x.w.Names[0]) || !last.Exec(0, h.TUR(), 0, false, nil).Good() {
				x.fail("many "+end, "afterwards nobody can log in")
				return
			}
			x.check()
		})
	}
}

// abortTask is the response to an immediate ABORT TASK, -1 if there is none.
func abortTask(i *h.Ini, lun uint64, tag uint32) int {
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpTMF|0x40, 0x81
	p.Put32(8, uint32(lun>>32)).Put32(12, uint32(lun))
	p.Put32(16, i.ITT()).Put32(20, tag).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
	for _, q := range i.Do(p) {
		if q.Op() == h.OpTMFResp && q.ITT() == p.ITT() {
			return int(q.B[2])
		}
	}
	return -1
}
