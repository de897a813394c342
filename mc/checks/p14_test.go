package checks

import (
	"fmt"

	"syscall"

	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P14", "model_checking",
		"in each connection state (fresh, in the security stage, in the operational stage, full feature with nothing or with a write outstanding, discovery): every PDU type 0-63, immediate or not, with a plausible and with an empty body, x every header byte x boundary and single-bit values; every prefix of a whole session's byte stream, ended by close, by reset, or left open; peers that stop reading; oracle: the connection goes on in step or is closed, no crash and no hang, an outstanding write of another session completes, its medium is exact, new logins are served; a state is (state, type, what came back)",
		p14, "an expected data transfer length above 32 MiB, for which the target sets memory aside as announced, is not sent")
}

var p14states = []string{"fresh", "sec", "op", "full", "write", "disc"}

// p14conn brings a connection into a state.
func p14conn(w *h.World, st string, n int) *h.Ini {
	i := w.Dial(fmt.Sprintf("10.0.0.%d:40000", 10+n%200), h.Portal)
	if i == nil {
		return nil
	}
	i.ISID += uint64(n)
	i.Name = "iqn.2020-01.verif:p14"
	id := h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", w.Names[0])
	login := func(csg, nsg byte, t bool, kv string) bool {
		ps := i.Do(h.LoginPDU(i.ISID, 0, i.CID, csg, nsg, t, i.ITT(), i.CmdSN, i.ExpStat, kv))
		return len(ps) == 1 && ps[0].Op() == h.OpLoginR && ps[0].B[36] == 0
	}
	ok := true
	switch st {
	case "sec":
		ok = login(0, 1, true, id+h.KV("AuthMethod", "None"))
	case "op":
		ok = login(1, 3, false, id)
	case "full":
		ok = i.LoginName(w.Names[0])
	case "write":
		ok = i.LoginName(w.Names[0])
		if ok {
			ps := i.Do(i.CmdPDU(0, h.C10(0x2a, 0, 1, 2), 1024, false, true))
			ok = len(ps) == 1 && ps[0].Op() == h.OpR2T
		}
	case "disc":
		ok = i.LoginDiscovery()
	}
	if !ok {
		return nil
	}
	return i
}

// p14base is a plausible PDU of the given type.
func p14base(w *h.World, i *h.Ini, op byte, body bool) *h.PDU {
	var p *h.PDU
	switch op {
	case h.OpLogin:
		p = h.LoginPDU(i.ISID, 0, i.CID, 1, 3, true, i.NextITT, i.CmdSN, i.ExpStat, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", w.Names[0]))
	case h.OpCmd:
		p = &h.PDU{}
		p.B[1] = 0xc1
		p.Put32(20, 1024)
		copy(p.B[32:], h.C10(0x28, 0, 0, 2))
		if body {
			p.B[1] = 0xa1
			p.Data = h.Fill(1024, 0x66)
			copy(p.B[32:], h.C10(0x2a, 0, 0, 2))
		}
	case h.OpDataOut:
		p = i.DataOut(0, i.NextITT-1, 0, 0, 0, nil, true)
		if body {
			p.Data = h.Fill(512, 0x55)
			p.B[1] = 0
		}
	case h.OpText:
		p = &h.PDU{}
		p.B[1] = 0x80
		p.Put32(20, 0xffffffff)
		p.Data = []byte("SendTargets=All\x00")
	case h.OpTMF:
		p = &h.PDU{}
		p.B[1] = 0x81
		p.Put32(20, i.NextITT-1)
	default:
		p = &h.PDU{}
		p.B[1] = 0x80
		p.Put32(20, 0xffffffff)
		if body {
			p.Data = []byte("0123456")
		}
	}
	if !body && op != h.OpLogin {
		p.Data = nil
	}
	p.B[0] = op
	if op != h.OpDataOut {
		p.Put32(16, i.ITT())
		p.Put32(24, i.CmdSN)
	}
	p.Put32(28, i.ExpStat)
	return p
}

func p14ping(i *h.Ini) *h.PDU {
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpNopOut|0x40, 0x80
	p.Put32(16, 0x7777aaaa).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
	return p
}

// p14watch is the rest of the world: another session in the middle of a write.
type p14watch struct {
	w   *h.World
	i   *h.Ini
	t   *wtask
	med []byte
	n   int
}

func p14world(k *Case) *p14watch {
	cfg := h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Blocks: 8}, {LUN: 1, Blocks: 8}}}, {LUNs: []h.LUN{{LUN: 0, Blocks: 8}}}}}
	x := &p14watch{w: h.NewWorld(cfg), med: h.Fill(4096, 0x21)}
	x.w.SetMedium(1, 0, x.med)
	if x.i = x.w.Session(1, 1); x.i == nil {
		k.Fail("no-session", "cannot log in")
		return nil
	}
	x.arm()
	return x
}

// arm starts a write that waits for its data.
func (x *p14watch) arm() {
	x.n++
	x.t = &wtask{i: x.i, lba: uint64(x.n % 8), data: h.Fill(512, byte(x.n))}
	x.i.Send(x.t.next())
	for _, p := range x.i.Recv() {
		x.t.take(p, 1<<18)
	}
}

// settle completes the write and reads everything back.
func (x *p14watch) settle() string {
	if x.t.r2t == nil {
		return "no R2T for the other session's write"
	}
	x.i.Send(x.t.next())
	for _, p := range x.i.Recv() {
		if e := x.t.take(p, 1<<18); e != "" {
			return "the other session: " + e
		}
	}
	copy(x.med[x.t.lba*512:], x.t.data)
	r := x.i.Exec(0, h.C10(0x28, 0, 0, 8), 4096, true, nil)
	if !x.t.finished || !r.Good() || string(r.Data) != string(x.med) || !x.w.Stores["1/0"].Equal(x.med) {
		return fmt.Sprintf("the other session: write finished %v, read %v", x.t.finished, r)
	}
	return ""
}

// serve logs a new initiator in and out.
func (x *p14watch) serve() string {
	x.n++
	i := x.w.Dial("10.0.1.1:40000", h.Portal)
	if i == nil {
		return "cannot connect any more"
	}
	i.Name = "iqn.2020-01.verif:new"
	i.ISID += uint64(x.n)
	if !i.LoginName(x.w.Names[0]) {
		return "a new initiator cannot log in any more"
	}
	r := i.Exec(0, h.TUR(), 0, false, nil)
	q := i.Exec(1, h.C10(0x28, 0, 0, 1), 512, true, nil)
	if !r.Good() || !q.Good() || len(q.Data) != 512 {
		return fmt.Sprintf("a new session gets %v and %v", r, q)
	}
	i.Close()
	return ""
}

func p14(c *Ctx) {
	known := map[byte]bool{h.OpNopOut: true, h.OpCmd: true, h.OpTMF: true, h.OpLogin: true, h.OpText: true, h.OpDataOut: true, h.OpLogout: true, h.OpSNACK: true}
	vals := []byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 0x7f, 0xff}
	// connections the system cannot accept for a while
	for _, errno := range []syscall.Errno{syscall.EMFILE, syscall.ENFILE} {
		for _, n := range []int{1, 2, 5} {
			for before := 0; before < 2; before++ {
				c.Case(fmt.Sprintf("accept/%d/%d/%d", errno, n, before), func(k *Case) {
					x := p14world(k)
					if x == nil {
						return
					}
					defer x.w.End()
					if before == 1 && p14conn(x.w, "write", 1) == nil {
						k.Fail("setup", "cannot connect")
						return
					}
					left := n
					shim.Cur().AcceptErr = func() error {
						if left--; left >= 0 {
							return errno
						}
						return nil
					}
					for j := 0; j < 2; j++ {
						e := x.serve()
						k.Op(1)
						if e == "" {
							e = x.settle()
						}
						if k.crashes(x.w, "crash accept") {
							return
						}
						if e != "" {
							k.Fail("accept", "%d times %v when a connection was to be accepted: %s", n, errno, e)
							return
						}
						x.arm()
					}
					k.State(fmt.Sprint("accept", n, errno))
				})
			}
		}
	}
	for _, st := range p14states {
		for op := byte(0); op < 64; op++ {
			c.Case(fmt.Sprintf("pdu/%s/%02x", st, op), func(k *Case) {
				x := p14world(k)
				if x == nil {
					return
				}
				defer x.w.End()
				n := 0
				probe := func(imm, body bool, at int, val byte, at2 int, val2 byte) bool {
					n++
					i := p14conn(x.w, st, n)
					what := fmt.Sprintf("state %s, type %02x immediate %v body %v", st, op, imm, body)
					if i == nil {
						k.Fail("setup "+st, "%s: cannot reach the state", what)
						return false
					}
					p := p14base(x.w, i, op, body)
					if imm {
						p.B[0] |= 0x40
					}
					b := p.Bytes()
					if at >= 0 {
						b[at] = val
						what += fmt.Sprintf(", byte %d = %02x", at, val)
					}
					if at2 >= 0 {
						b[at2] = val2
						what += fmt.Sprintf(", byte %d = %02x", at2, val2)
					}
					framed := b[4] == 0 && b[5] == 0 && int(b[6])<<8|int(b[7]) == len(p.Data)
					i.Raw(b)
					got := i.Recv()
					k.Op(2)
					sum := ""
					for _, q := range got {
						sum += fmt.Sprintf("%02x ", q.Op())
					}
					if i.Bad != nil {
						k.Fail("stream "+st, "%s: %v", what, i.Bad)
						return false
					}
					if !i.EOF {
						ps := i.Do(p14ping(i))
						if i.Bad != nil {
							k.Fail("stream "+st, "%s: %v", what, i.Bad)
							return false
						}
						alive := false
						for _, q := range ps {
							alive = alive || q.Op() == h.OpNopIn && q.ITT() == 0x7777aaaa || q.Op() == h.OpReject
						}
						if framed && !alive && !i.EOF {
							k.Fail("deaf "+st, "%s: then a ping is not answered (%v)", what, ps)
							return false
						}
						i.Close()
					}
					if i.EOF {
						i.Close()
					}
					k.State(fmt.Sprint(st, op, imm, body, at, sum, i.EOF))
					if k.crashes(x.w, "crash "+st) {
						k.Logf("%s", what)
						return false
					}
					if n%Pick(c, 16, 1) == 0 {
						if e := x.serve(); e != "" {
							k.Fail("serve "+st, "%s: %s", what, e)
							return false
						}
					}
					return true
				}
				skip := func(at int, v byte) bool {
					return at == 20 && v > 1 && op == h.OpCmd
				}
				func() {
					for _, imm := range []bool{true, false} {
						for _, body := range []bool{true, false} {
							if !probe(imm, body, -1, 0, -1, 0) {
								return
							}
							if !known[op] && !(c.Thorough() || imm && body) {
								continue
							}
							for at := 1; at < 48; at++ {
								for _, v := range vals {
									if skip(at, v) {
										continue
									}
									if !known[op] && !c.Thorough() && (v != 0x80 && v != 0xff) {
										continue
									}
									if !probe(imm, body, at, v, -1, 0) {
										return
									}
								}
							}
							if c.Thorough() && known[op] { // pairs that involve flags, lengths or LUN
								for _, a1 := range []int{1, 4, 5, 7, 8, 9} {
									for at := 1; at < 48; at++ {
										for _, v1 := range []byte{0, 1, 0x80, 0xff} {
											for _, v := range []byte{0, 1, 0x80, 0xff} {
												if at == a1 || skip(at, v) || skip(a1, v1) {
													continue
												}
												if !probe(imm, body, a1, v1, at, v) {
													return
												}
											}
										}
									}
								}
							}
						}
					}
				}()
				if k.Failed() {
					return
				}
				if e := x.settle(); e != "" {
					k.Fail("other "+st, "%s, type %02x: %s", st, op, e)
				} else if e := x.serve(); e != "" {
					k.Fail("serve "+st, "%s, type %02x: %s", st, op, e)
				}
				k.crashes(x.w, "crash "+st)
			})
		}
	}

	// every prefix of a session's byte stream
	for _, end := range []string{"close", "reset", "open"} {
		for sh := 0; sh < 8; sh++ {
			c.Case(fmt.Sprintf("prefix/%s/%d", end, sh), func(k *Case) {
				x := p14world(k)
				if x == nil {
					return
				}
				defer x.w.End()
				for n := 0; ; n++ {
					i := x.w.Dial("10.0.0.9:40000", h.Portal)
					i.ISID += 9
					var s []byte
					add := func(p *h.PDU) { s = append(s, p.Bytes()...) }
					id := h.KV("InitiatorName", "iqn.2020-01.verif:cut", "SessionType", "Normal", "TargetName", x.w.Names[0])
					add(h.LoginPDU(i.ISID, 0, 0, 0, 1, true, i.ITT(), 1, 1, id+h.KV("AuthMethod", "None")))
					add(h.LoginPDU(i.ISID, 0, 0, 1, 3, true, i.ITT(), 1, 2, h.KV("MaxRecvDataSegmentLength", "8192", "InitialR2T", "Yes")))
					logins := len(s)
					itt := i.NextITT
					wr := i.CmdPDU(0, h.C10(0x2a, 0, 2, 2), 1024, false, true)
					wr.Data = h.Fill(512, 1)
					add(wr)
					add(i.DataOut(0, itt, 0, 0, 512, h.Fill(256, 2), false))
					add(i.DataOut(0, itt, 0, 1, 768, h.Fill(256, 3), true))
					add(i.CmdPDU(1, h.C10(0x28, 0, 0, 8), 4096, true, false))
					t := p14base(x.w, i, h.OpText, true)
					add(t)
					i.CmdSN++
					lo := p14base(x.w, i, h.OpLogout, false)
					add(lo)
					cut := n*8 + sh
					if cut > len(s) {
						break
					}
					if _, err := i.C.Write(s[:min(cut, logins)]); err != nil {
						k.Fail("write", "%v", err)
						return
					}
					i.Recv()
					if cut > logins {
						i.Raw(s[logins:cut])
						i.Recv()
					}
					k.Op(1)
					if i.Bad != nil {
						k.Fail("stream", "prefix of %d bytes: %v", cut, i.Bad)
						return
					}
					switch end {
					case "close":
						i.Close()
					case "reset":
						i.C.Reset()
						h.Settle()
					}
					what := fmt.Sprintf("after %d of %d bytes of a session, then %s", cut, len(s), end)
					if k.crashes(x.w, "crash prefix") {
						k.Logf("%s", what)
						return
					}
					// the same initiator comes back with the same ISID
					j := x.w.Dial("10.0.0.9:40001", h.Portal)
					j.ISID += 9
					j.Name = "iqn.2020-01.verif:cut"
					if !j.LoginName(x.w.Names[0]) {
						k.Fail("relogin", "%s: the initiator cannot log in again", what)
						return
					}
					if r := j.Exec(0, h.TUR(), 0, false, nil); !r.Good() {
						k.Fail("relogin", "%s: TEST UNIT READY on the new session: %v", what, r)
						return
					}
					j.Close()
					if e := x.settle(); e != "" {
						k.Fail("other", "%s: %s", what, e)
						return
					}
					x.arm()
					if e := x.serve(); e != "" {
						k.Fail("serve", "%s: %s", what, e)
						return
					}
					k.State(fmt.Sprint(end, cut, len(i.All)))
				}
				k.crashes(x.w, "crash prefix")
			})
		}
	}

	// a peer that does not read
	for _, what := range []string{"read", "login", "r2t", "text", "ping", "tmf", "logout"} {
		for _, end := range []string{"unstall", "close", "reset", "open"} {
			c.Case("stall/"+what+"/"+end, func(k *Case) {
				x := p14world(k)
				if x == nil {
					return
				}
				defer x.w.End()
				st := "full"
				if what == "login" {
					st = "fresh"
				}
				i := p14conn(x.w, st, 1)
				i.C.Stall()
				var p *h.PDU
				want := 1
				switch what {
				case "read":
					p = i.CmdPDU(0, h.C10(0x28, 0, 0, 8), 4096, true, false)
				case "r2t":
					p = i.CmdPDU(0, h.C10(0x2a, 0, 0, 8), 4096, false, true)
				case "login":
					p = p14base(x.w, i, h.OpLogin, true)
				case "text":
					p = p14base(x.w, i, h.OpText, true)
				case "ping":
					p = p14ping(i)
				case "tmf":
					p = p14base(x.w, i, h.OpTMF, false)
				case "logout":
					p = p14base(x.w, i, h.OpLogout, false)
				}
				if ps := i.Do(p); len(ps) != 0 {
					k.Fail("harness", "%v came through a stalled connection", ps)
					return
				}
				k.Op(1)
				for r := 0; r < 2; r++ {
					if e := x.settle(); e != "" {
						k.Fail("other", "peer stopped reading (%s): %s", what, e)
						return
					}
					x.arm()
					if e := x.serve(); e != "" {
						k.Fail("serve", "peer stopped reading (%s): %s", what, e)
						return
					}
					if r > 0 {
						break
					}
					switch end {
					case "unstall":
						i.C.Unstall()
						if ps := i.Recv(); len(ps) != want {
							k.Fail("unstall", "the stalled answer to %s: %v", what, ps)
							return
						}
					case "close":
						i.Close()
						i.C.Unstall()
					case "reset":
						i.C.Reset()
						i.C.Unstall()
					}
					h.Settle()
				}
				k.State(what + end)
				k.crashes(x.w, "crash stall")
			})
		}
	}
}
