package checks

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P31", "model_checking",
		"every state a connection can be in x every way it can end, alone, in pairs in every order of opening and ending, and repeated; every cut of a session's byte stream x close, reset and garbage; oracle: the number of goroutines and of sockets the target holds is the one it held before, plus those of the connections still open; 66000 sessions for each end, 9000 commands of each kind and 1500 connections of each state and end with the memory in use compared; a state is (states, ends, what is held)",
		p31, "goroutines are those started by the program's own go statements")
}

// p31use is what the target holds on to.
type p31use struct{ live, open int }

func p31now() p31use {
	h.Settle()
	return p31use{shim.Cur().Live(), len(shim.Cur().Open())}
}

// p31states are the states of a connection beyond those of P14.
var p31states = append(append([]string{}, p14states...), "two writes", "ahead", "aborted", "reserved", "text", "read unread", "partial header", "partial data", "pings")

func p31conn(w *h.World, st string, n int) *h.Ini {
	base := st
	switch st {
	case "two writes", "aborted":
		base = "write"
	case "ahead", "reserved", "text", "read unread", "partial header", "partial data", "pings":
		base = "full"
	}
	i := p14conn(w, base, n)
	if i == nil {
		return nil
	}
	switch st {
	case "two writes":
		i.Do(i.CmdPDU(0, h.C10(0x2a, 0, 3, 2), 1024, false, true))
	case "ahead":
		i.CmdSN += 3
		p := i.CmdPDU(0, h.C10(0x2a, 0, 3, 1), 512, false, true)
		p.Data = h.Fill(512, 3)
		i.Do(p)
		i.Do(i.CmdPDU(0, h.C10(0x28, 0, 3, 1), 512, true, false))
	case "aborted":
		p := &h.PDU{}
		p.B[0], p.B[1] = h.OpTMF|0x40, 0x82
		p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		i.Do(p)
	case "reserved":
		i.Exec(0, h.C6(0x16, 0, 0), 0, false, nil)
	case "text":
		i.Do(p14base(w, i, h.OpText, true))
	case "read unread":
		i.C.Stall()
		i.Send(i.CmdPDU(0, h.C10(0x28, 0, 0, 16), 8192, true, false))
		i.Send(i.CmdPDU(0, h.C10(0x28, 0, 0, 16), 8192, true, false))
		h.Settle()
	case "partial header":
		i.Raw(i.CmdPDU(0, h.TUR(), 0, false, false).Bytes()[:20])
	case "partial data":
		p := i.CmdPDU(0, h.C10(0x2a, 0, 3, 1), 512, false, true)
		p.Data = h.Fill(512, 3)
		i.Raw(p.Bytes()[:300])
	case "pings":
		for k := 0; k < 3; k++ {
			i.Send(p14ping(i))
		}
	}
	h.Settle()
	return i
}

// p31ends: how the connection ends; each leaves the connection in a state in which the target has to have let go of it.
var p31ends = []string{"close", "reset", "logout", "stall+reset", "stall+close", "refused login", "bad version", "reinstated", "garbage+close", "half"}

// p31end tells whether the end applies.
func p31end(w *h.World, st, end string, n int, i *h.Ini) bool {
	normal := st != "fresh" && st != "sec" && st != "op" && st != "disc"
	clean := st != "partial header" && st != "partial data" && st != "read unread" // a PDU can be sent
	switch end {
	case "close":
		i.C.Close()
	case "reset":
		i.C.Reset()
	case "logout":
		if !clean || !normal && st != "disc" {
			return false
		}
		p := &h.PDU{}
		p.B[0], p.B[1] = h.OpLogout|0x40, 0x80
		p.Put32(16, i.ITT()).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		i.Do(p)
		i.C.Close()
	case "stall+reset", "stall+close":
		if !clean || !normal {
			return false
		}
		i.C.Stall()
		i.Send(p14ping(i))
		i.Send(i.CmdPDU(0, h.C10(0x28, 0, 0, 1), 512, true, false))
		h.Settle()
		if end == "stall+reset" {
			i.C.Reset()
		} else {
			i.C.Close()
		}
	case "refused login": // the target ends the connection, the peer keeps its end
		if st != "fresh" && st != "op" && st != "sec" {
			return false
		}
		i.Send(h.LoginPDU(i.ISID, 0, 0, 1, 3, true, i.ITT(), 1, 1, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", "iqn.2000-01.no:such")))
		h.Settle()
		if st != "fresh" {
			i.C.Close()
		}
	case "bad version":
		if st != "fresh" {
			return false
		}
		i.Send(h.LoginPDU(i.ISID, 0x4321, 0, 1, 3, true, i.ITT(), 1, 1, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", w.Names[0])))
		h.Settle()
	case "reinstated": // another connection of the same initiator port takes the place; the peer keeps its end
		if !normal {
			return false
		}
		j := w.Dial("10.0.0.250:40000", h.Portal)
		j.ISID, j.Name = i.ISID, i.Name
		if !j.LoginName(w.Names[0]) {
			return false
		}
		j.C.Close()
	case "garbage+close":
		i.Raw([]byte(strings.Repeat("\xff\x00\x00\x00\x00\x00\x00", 30)))
		h.Settle()
		i.C.Close()
	case "half": // as much as a header more, then the end
		i.Raw(make([]byte, 47))
		i.C.Close()
	}
	h.Settle()
	return true
}

// p31cmds are what a session can do again and again.
var p31cmds = []string{"ping", "read", "write", "write with R2T", "failing read", "no such unit", "no such opcode", "text", "reserve and release", "register and unregister",
	"abort of nothing", "aborted write", "cleared writes", "unit reset", "command ahead", "command again", "reject"}

func p31cmd(w *h.World, i *h.Ini, kind string, n int) {
	tmf := func(fn byte, ref uint32) {
		p := &h.PDU{}
		p.B[0], p.B[1] = h.OpTMF|0x40, 0x80|fn
		p.Put32(16, i.ITT()).Put32(20, ref).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		i.Do(p)
	}
	key := func(k byte) []byte { b := make([]byte, 24); b[7], b[15] = 0, 0; b[15] = k; return b }
	switch kind {
	case "ping":
		i.Do(p14ping(i))
	case "read":
		i.Exec(0, h.C10(0x28, 0, uint32(n%8), 4), 2048, true, nil)
	case "write":
		i.Exec(0, h.C10(0x2a, 0, uint32(n%8), 1), 512, false, h.Fill(512, byte(n)))
	case "write with R2T":
		itt := i.NextITT
		for _, p := range i.Do(i.CmdPDU(0, h.C10(0x2a, 0, uint32(n%8), 2), 1024, false, true)) {
			if p.Op() == h.OpR2T {
				i.Do(i.DataOut(0, itt, p.U32(20), 0, 0, h.Fill(1024, byte(n)), true))
			}
		}
	case "failing read":
		i.Exec(0, h.C10(0x28, 0, 1000, 4), 2048, true, nil)
	case "no such unit":
		i.Exec(uint64(3+n%60000), h.TUR(), 0, false, nil)
	case "no such opcode":
		i.Exec(0, h.C6(0xff, 0, 0), 0, false, nil)
	case "text":
		i.Do(p14base(w, i, h.OpText, true))
	case "reserve and release":
		i.Exec(0, h.C6(0x16, 0, 0), 0, false, nil)
		i.Exec(0, h.C6(0x17, 0, 0), 0, false, nil)
	case "register and unregister":
		reg := h.C10(0x5f, 0, 0, 24)
		i.Exec(0, reg, 24, false, key(byte(1+n%9)))
		un := make([]byte, 24)
		un[7] = byte(1 + n%9)
		i.Exec(0, reg, 24, false, un)
	case "abort of nothing":
		tmf(1, 0x7777)
	case "aborted write", "cleared writes":
		itt := i.NextITT
		i.Do(i.CmdPDU(0, h.C10(0x2a, 0, 0, 2), 1024, false, true))
		if kind == "aborted write" {
			tmf(1, itt)
		} else {
			tmf(2, 0xffffffff)
		}
	case "unit reset":
		tmf(5, 0xffffffff)
	case "command ahead":
		sn := i.CmdSN
		i.CmdSN++
		i.Do(i.CmdPDU(0, h.C10(0x28, 0, 0, 1), 512, true, false))
		i.CmdSN = sn
		i.Do(i.CmdPDU(0, h.TUR(), 0, false, false))
		i.CmdSN = sn + 2
	case "command again":
		p := i.CmdPDU(0, h.TUR(), 0, false, false)
		i.Do(p)
		i.Do(p)
	case "reject":
		p := &h.PDU{}
		p.B[0], p.B[1] = 0x1d|0x40, 0x80
		p.Put32(16, i.ITT()).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		i.Do(p)
	}
}

// p31heap is the memory in use after each of equal numbers of rounds.
type p31heap []uint64

func (p *p31heap) check(k *Case, n int, what string) bool {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	*p = append(*p, ms.HeapAlloc)
	if len(*p) < 3 {
		return true
	}
	// the first rounds make room that the others use again; less than a word is left in 44000 rounds of the tree as it is
	grown := int64((*p)[2]) - int64((*p)[0])
	k.Logf("MEM %s %d", what, grown)
	if grown > int64(n*2*12+16384) {
		k.Fail("memory", "%d %s left %d bytes of memory in use", 2*n, what, grown)
		return false
	}
	return true
}

func p31(c *Ctx) {
	world := func(block bool) *h.World {
		w := h.NewWorld(h.Cfg{Block: block, Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 16}, {LUN: 1, Blocks: 8}}}}})
		// what is started for the first connection only may stay
		if i := p31conn(w, "full", 0); i != nil {
			i.C.Close()
			h.Settle()
		}
		return w
	}
	rounds := 500
	if c.Thorough() {
		rounds = 3000
	}
	check := func(k *Case, w *h.World, want p31use, what string) bool {
		if k.crashes(w, "crash") {
			return false
		}
		got := p31now()
		if got != want {
			// what only waits for time to pass may still be let go of
			time.Sleep(10 * time.Minute)
			got = p31now()
		}
		k.State(what + fmt.Sprint(got.live-want.live, got.open-want.open))
		if got.live > want.live {
			k.Fail("goroutines", "%s: %d goroutines of the target are left, %d expected", what, got.live, want.live)
			return false
		}
		if got.open != want.open {
			k.Fail("sockets", "%s: %d sockets of the target are open (%v), %d expected", what, got.open, shim.Cur().Open(), want.open)
			return false
		}
		return true
	}
	for _, st := range p31states {
		for _, end := range p31ends {
			// alone, and again and again
			c.Case(fmt.Sprintf("one/%s/%s", st, end), func(k *Case) {
				w := world(false)
				defer w.End()
				base := p31now()
				for n := 1; n <= 3; n++ {
					i := p31conn(w, st, n)
					if i == nil {
						k.Fail("setup", "cannot reach state %s", st)
						return
					}
					k.Op(1)
					if !p31end(w, st, end, n, i) {
						return
					}
					if !check(k, w, base, fmt.Sprintf("%d connections in state %s ended by %s", n, st, end)) {
						return
					}
				}
			})
		}
	}
	// a second connection, opened before or after, that ends before or after
	for _, s1 := range p31states {
		for _, s2 := range p31states {
			c.Case(fmt.Sprintf("two/%s/%s", s1, s2), func(k *Case) {
				for _, e1 := range p31ends {
					for _, e2 := range []string{"close", "reset", "logout", "reinstated"} {
						if !c.Thorough() && e1 != "close" && e1 != "reset" && e1 != "reinstated" && e2 != "close" {
							continue
						}
						ok := func() bool {
							w := world(false)
							defer w.End()
							base := p31now()
							a := p31conn(w, s1, 1)
							if a == nil {
								k.Fail("setup", "cannot reach state %s", s1)
								return false
							}
							held := p31now()
							b := p31conn(w, s2, 2)
							if b == nil {
								if s1 == "reserved" || s1 == "read unread" {
									return true
								}
								k.Fail("setup", "cannot reach state %s after %s", s2, s1)
								return false
							}
							k.Op(2)
							if !p31end(w, s2, e2, 2, b) {
								return true
							}
							if !check(k, w, held, fmt.Sprintf("a connection in state %s is open; one in state %s ended by %s", s1, s2, e2)) {
								return false
							}
							if !p31end(w, s1, e1, 1, a) {
								return true
							}
							return check(k, w, base, fmt.Sprintf("connections in states %s and %s ended by %s and %s", s1, s2, e1, e2))
						}()
						if !ok {
							return
						}
						shim.Cur().Forget()
					}
				}
			})
		}
	}
	// more sessions, one after the other, than there are session identifiers
	for _, end := range []string{"close", "reset", "logout", "reinstated", "discovery", "abandoned", "refused", "same port"} {
		c.Case("many/"+end, func(k *Case) {
			w := world(false)
			defer w.End()
			base := p31now()
			var heap p31heap
			var last *h.Ini
			for n := 1; n <= 66000; n++ {
				i := w.Dial(fmt.Sprintf("10.1.%d.%d:40000", n>>8&255, n&255), h.Portal)
				i.ISID, i.Name = uint64(n%7+1), fmt.Sprintf("iqn.2020-01.verif:i%d", n)
				if end == "reinstated" || end == "same port" {
					i.ISID, i.Name = 1, "iqn.2020-01.verif:i"
				}
				ok := true
				switch end {
				case "discovery":
					ok = i.LoginDiscovery()
				case "abandoned", "refused":
					ps := i.Do(h.LoginPDU(i.ISID, 0, 0, 0, 1, true, i.ITT(), 1, 1, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", w.Names[0], "AuthMethod", "None")))
					ok = len(ps) == 1 && ps[0].B[36] == 0
					if end == "refused" {
						i.Send(h.LoginPDU(i.ISID, 0x1234, 0, 1, 3, true, i.ITT(), 1, 2, ""))
						h.Settle()
					}
				default:
					ok = i.LoginName(w.Names[0])
				}
				if !ok {
					k.Fail("login", "after %d sessions that ended by %s no other is granted", n-1, end)
					return
				}
				switch end {
				case "reset":
					i.C.Reset()
				case "logout":
					p31end(w, "full", "logout", n, i)
				case "reinstated": // by the next one
					if last != nil {
						last.C.Close()
					}
					last = i
				default:
					i.C.Close()
				}
				h.Settle()
				k.Op(1)
				shim.Cur().Forget()
				if n%22000 == 0 && !heap.check(k, 22000, fmt.Sprintf("sessions ended by %s", end)) {
					return
				}
				if n%1000 == 0 {
					want := base
					if end == "reinstated" {
						continue
					}
					if !check(k, w, want, fmt.Sprintf("%d sessions ended by %s", n, end)) {
						return
					}
				}
			}
		})
	}
	// connections of other hosts that single-host mode turns away
	for _, st := range p31states {
		c.Case("turned away/"+st, func(k *Case) {
			w := world(true)
			defer w.End()
			base := p31now()
			a := p31conn(w, st, 1)
			if a == nil {
				k.Fail("setup", "cannot reach state %s", st)
				return
			}
			want := p31now()
			var heap p31heap
			for n := 1; n <= 3000; n++ {
				i := w.Dial(fmt.Sprintf("10.7.%d.%d:40000", n>>8, n&255), h.Portal)
				if n%2 == 0 {
					i.Raw(make([]byte, 48))
					h.Settle()
				}
				k.Op(1)
				if n%100 == 0 && !check(k, w, want, fmt.Sprintf("%d connections of other hosts", n)) {
					return
				}
				i.C.Close()
				shim.Cur().Forget()
				if n%1000 == 0 && !heap.check(k, 1000, "connections of other hosts") {
					return
				}
			}
			a.C.Close()
			check(k, w, base, "connections of other hosts and the one let in are closed")
		})
	}
	// what each state and end leaves in memory
	for _, st := range p31states {
		for _, end := range p31ends {
			c.Case(fmt.Sprintf("memory/%s/%s", st, end), func(k *Case) {
				w := world(false)
				defer w.End()
				var heap p31heap
				for n := 1; n <= 3*rounds; n++ {
					i := p31conn(w, st, n)
					if i == nil {
						k.Fail("setup", "cannot reach state %s after %d connections that ended by %s", st, n-1, end)
						return
					}
					k.Op(1)
					if !p31end(w, st, end, n, i) {
						return
					}
					i.C.Close()
					h.Settle()
					shim.Cur().Forget()
					if n%rounds == 0 && !heap.check(k, rounds, fmt.Sprintf("connections in state %s ended by %s", st, end)) {
						return
					}
				}
			})
		}
	}
	// commands of one session
	for _, kind := range p31cmds {
		c.Case("commands/"+kind, func(k *Case) {
			w := world(false)
			defer w.End()
			i := p31conn(w, "full", 1)
			if i == nil {
				k.Fail("setup", "no session")
				return
			}
			want := p31now()
			var heap p31heap
			for n := 1; n <= 9000; n++ {
				p31cmd(w, i, kind, n)
				i.Recv()
				i.All = nil
				k.Op(1)
				if i.EOF || i.Bad != nil {
					k.Fail("session", "%s number %d ends the session", kind, n)
					return
				}
				if n%3000 == 0 {
					if !check(k, w, want, fmt.Sprintf("%d times %s", n, kind)) || !heap.check(k, 3000, "times "+kind) {
						return
					}
				}
			}
		})
	}
	// every cut of the byte stream of a session
	for _, end := range []string{"close", "reset", "stall+reset"} {
		for sh := 0; sh < 16; sh++ {
			c.Case(fmt.Sprintf("cut/%s/%d", end, sh), func(k *Case) {
				w := world(false)
				defer w.End()
				base := p31now()
				for n := 0; ; n++ {
					i := w.Dial("10.0.0.9:40000", h.Portal)
					var s []byte
					add := func(p *h.PDU) { s = append(s, p.Bytes()...) }
					id := h.KV("InitiatorName", "iqn.2020-01.verif:cut", "SessionType", "Normal", "TargetName", w.Names[0])
					add(h.LoginPDU(i.ISID, 0, 0, 0, 1, true, i.ITT(), 1, 1, id+h.KV("AuthMethod", "None")))
					add(h.LoginPDU(i.ISID, 0, 0, 1, 3, true, i.ITT(), 1, 2, ""))
					itt := i.NextITT
					wr := i.CmdPDU(0, h.C10(0x2a, 0, 2, 2), 1024, false, true)
					wr.Data = h.Fill(512, 1)
					add(wr)
					add(i.DataOut(0, itt, 0, 0, 512, h.Fill(512, 3), true))
					add(i.CmdPDU(1, h.C10(0x28, 0, 0, 8), 4096, true, false))
					add(p14base(w, i, h.OpText, true))
					i.CmdSN++
					lo := p14base(w, i, h.OpLogout, false)
					add(lo)
					cut := n*16 + sh
					if cut > len(s) {
						return
					}
					if end == "stall+reset" {
						i.C.Stall()
					}
					i.Raw(s[:cut])
					h.Settle()
					if end == "close" {
						i.C.Close()
					} else {
						i.C.Reset()
					}
					k.Op(1)
					if !check(k, w, base, fmt.Sprintf("a stream of %d bytes ended by %s", cut, end)) {
						return
					}
				}
			})
		}
	}
}
